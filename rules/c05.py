"""Every failing macro application leaves the expander as one error with the use site, chained to the root cause.

Rule: in BaseMacroExpander.expand (application helper inlined), with exceptional edges at the binding lookup, the macro
call and the conversion of its result: every path on which such an edge is taken ends by raising the expander's own
error class, whose message contains the location formatted from the expander's file name and the invocation node and the
macro's name, and whose cause is the original exception - or, when the original is itself such an error with a cause,
that cause, with the older report placed after the new one. Every normally ending path establishes that the macro's
result was an AST node, nothing, or a list whose elements are all AST nodes. Every visitor passes the invocation node,
the macro's name and a rendering of the node.
"""
from lib.interp import attr, const, ref, show, subterms
from lib.q import argof, at, call_events, callee, contains, is_call, raises, returns, where_of

P = lambda n: ("param", n)
S = P("self")
AST = frozenset(["ast.AST"])


def is_err(t, ix):
    """Exception terms of the expander's own application error: the class call, possibly with_traceback."""
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] == "with_traceback":
        t = t[1][1]
    if t[0] == "call" and t[1][0] == "ref" and ix.is_subclass(t[1][1], "mcpyrate.core.MacroExpansionError"):
        return t
    return None


def positions(t, sub):
    """Indices of the parts of a formatted message that contain `sub`."""
    if t[0] == "fstr":
        return [i for i, x in enumerate(t[1]) if isinstance(x, tuple) and contains(x, sub)]
    if t[0] == "join" and t[2][0] in ("list", "tuple"):
        return [i for i, x in enumerate(t[2][1]) if contains(x, sub)]
    return [0] if contains(t, sub) else []


def check(c):
    ix = c.ix
    fi = ix.func("mcpyrate.core.BaseMacroExpander.expand")
    INL = ["_apply_macro"]

    def macro_call(t):
        return t[0] == "call" and (is_call(t[1], "isbound") or t[1][0] == "sub" and contains(t[1], attr(S, "bindings")))

    def mr(t, interp, s):
        return t[0] == "call" and (is_call(t, "isbound") or macro_call(t) or t[1] == ref("builtins.list"))

    LOC = None
    with c.section("C05:failure"):
        n = {"isbound": 0, "macro": 0, "list": 0, "unbound": 0}
        for o in c.paths(fi, inline=INL, may_raise=mr, max_paths=40000):
            tr = o.state.trace
            locs = [e for _, e in call_events(tr, "format_location", raising=False)]
            first = next((e for e in tr if e.kind == "callraise"), None)
            if first is None:
                continue
            k = "isbound" if is_call(first.c, "isbound") else "macro" if macro_call(first.c) else "list"
            if k == "list" and not any(macro_call(x) for x in subterms(first.c)):
                continue
            n[k] += 1
            what = {"isbound": "looking up the macro", "macro": "running the macro", "list": "converting the macro's result"}[k]
            if o.kind != "raise":
                c.bad(f"C05:{k}:swallowed", where_of(first), f"a failure while {what} is swallowed: the path ends normally")
                continue
            judge(c, f"C05:{k}", fi, o, ("exc", first.c), what)
        # failures raised by the function's own tests (unbound name, bad result type)
        for o in raises(c.paths(fi, inline=INL, max_paths=40000)):
            judge(c, "C05:own", fi, o, None, "checking the macro or its result")
            n["unbound"] += 1
        for k in ("isbound", "macro", "unbound"):
            c.require("C05:exercised:" + k, True if n[k] else None, c.where(fi), f"no failing path for {k}")

    with c.section("C05:result-type"):
        ps = c.paths(fi, inline=INL, max_paths=40000)
        m = 0
        for o in returns(ps):
            calls_ = [e for e in o.state.trace if e.kind == "call" and macro_call(e.c)]
            if not calls_:
                c.require("C05:applied", False, at(c, fi, o), "a path of expand() ends normally without applying the macro")
                continue
            M = calls_[-1].c
            m += 1
            f = o.state.facts
            ok = False
            for k, v in f.items():
                if k == ("isnone", M) and v:
                    ok = True
                elif k[0] == "isinst" and k[2] == AST and v and k[1] == M:
                    ok = True
                elif k[0] == "isinst" and k[2] == AST and v and k[1][0] == "elem" and contains(k[1], M):
                    ok = True
                elif is_call(k, "builtins.all") and v and all_ast(k, M):
                    ok = True
                elif is_call(k, "builtins.any") and not v and all_ast(k, M):
                    ok = True
            if not ok:
                # an element-wise loop without iterations
                others = any(k[0] == "isinst" and k[2] == AST and not v and k[1][0] == "elem" and contains(k[1], M)
                             for p in raises(ps) for k, v in p.state.facts.items())
                loops = any(e.kind == "loop" and contains(e.a, M) for e in o.state.trace)
                ok = None if others and not loops else False
            c.require("C05:result-type", ok, at(c, fi, o), "the macro's result is used on a path that does not establish it is an AST node, a list of AST nodes or nothing")
        anyiter = False
        for o in returns(ps):
            ms = [e.c for e in o.state.trace if e.kind == "call" and macro_call(e.c)]
            f = o.state.facts
            if ms and not f.get(("isnone", ms[-1])) and not f.get(("isinst", ms[-1], AST)) and not any(k[0] == "isinst" and k[1] == ms[-1] and v for k, v in f.items()):
                anyiter = True
        for o in raises(ps):
            ms = [e.c for e in o.state.trace if e.kind == "call" and macro_call(e.c)]
            f = o.state.facts
            if ms and f.get(ms[-1]) is False and f.get(("isnone", ms[-1])) is False and not any(k[0] == "isinst" and k[1] == ms[-1] and v for k, v in f.items()) and \
                    not any(e.kind in ("call", "loop", "callraise") and e.c != ms[-1] and ms[-1] in (e.b if e.kind != "loop" else (e.a,) or ()) for e in o.state.trace):
                c.bad("C05:empty-iterable", at(c, fi, o), "an empty iterable as the macro's result is refused without being iterated over")
        c.require("C05:iterables", anyiter, c.where(fi), "no path accepts an iterable of AST nodes other than a list from a macro")
        c.require("C05:result-exercised", True if m >= 3 else None, c.where(fi), "result paths not found")

    # -- location text
    fl = ix.func("mcpyrate.utils.format_location")
    with c.section("C05:location"):
        for o in returns(c.paths(fl)):
            line = any(is_call(x, "get_lineno") and contains(x, P("tree")) or x == attr(P("tree"), "lineno") or (x[0] == "getattr" and x[1] == P("tree") and x[2] == "lineno") for x in subterms(o.value))
            cut = [x for x in subterms(o.value) if contains(x, P("filename")) and
                   (x[0] in ("sub", "slice") or x[0] == "call" and (callee(x[1]) or "").rpartition(".")[2] in ("basename", "split", "rsplit", "splitext", "partition", "rpartition"))]
            c.require("C05:location:whole", not cut, at(c, fl, o), f"the location text has a part of the file's name only: {show(cut[0])[:100] if cut else ''}")
            c.require("C05:location", contains(o.value, P("filename")) and line, at(c, fl, o), f"the location text {show(o.value)[:120]} lacks the file name or the line")

    # -- use sites
    ME = "mcpyrate.expander.MacroExpander"
    for q in ("visit_Subscript", "visit_With", "visit_ClassDef", "visit_FunctionDef", "visit_AsyncFunctionDef", "visit_Name"):
        with c.section("C05:site:" + q):
            v = ix.find_method(ME, q)
            node = P(v.params()[1])
            n = 0
            for o in c.paths(v, inline=["_visit_Decorated", "_detect_macro_items"], opaque=["recursive_mode"], max_paths=40000):
                for _, e in call_events(o.state.trace, "expand"):
                    n += 1
                    t = argof(e, "target", 1)
                    base = t
                    while is_call(base, "copy.copy", "copy.deepcopy"):
                        base = base[2][0][1]
                    c.require(f"C05:site:{q}:target", base == node, where_of(e), f"{q} reports {show(t)[:80]} as the use site, not the invocation")
                    nm = argof(e, "macroname", 2)
                    src = [x for x in subterms(nm) if is_call(x, "destructure_candidate") or x == attr(node, "id")]
                    c.require(f"C05:site:{q}:name", bool(src), where_of(e), f"{q} reports {show(nm)[:80]} as the macro's name")
            c.require(f"C05:site:{q}:exercised", True if n else None, c.where(v), "no macro application found")
    c.floor(60)


def all_ast(t, M):
    """all/any over every element of the macro's result."""
    a = argof(t, 0)
    if a is None or a[0] not in ("list", "set") or len(a[1]) != 1 or a[1][0][0] != "rep":
        return False
    _, it, elt, conds = a[1][0]
    whole = it == M or (it[0] in ("list", "tuple") and it[1] == (("star", M),))
    return whole and not conds and any(x[0] == "isinst" and x[2] == AST and x[1][0] == "elem" for x in subterms(elt))


def judge(c, key, fi, o, orig, what):
    ix = c.ix
    tr = o.state.trace
    err = is_err(o.value, ix)
    if err is None:
        c.bad(key + ":wrapped", at(c, fi, o), f"a failure while {what} leaves the expander as {show(o.value)[:90]} instead of an error naming the use site")
        return
    c.ok(key + ":wrapped", at(c, fi, o), "")
    msg = argof(err, 0)
    loc = [x for x in subterms(msg) if is_call(x, "format_location")]
    okloc = any(argof(x, "filename", 0) == attr(S, "filename") and argof(x, "tree", 1) == P("target") for x in loc)
    c.require(key + ":location", okloc, at(c, fi, o), f"the error raised after {what} does not name the file and line of the use site")
    c.require(key + ":macro", contains(msg, P("macroname")), at(c, fi, o), f"the error raised after {what} does not name the macro")
    cause = o.state.heap.get((o.value, "__cause__")) or o.state.heap.get((err, "__cause__"))
    hs = [e for e in tr if e.kind == "except"]
    if not hs:
        if orig is not None:
            c.bad(key + ":chained", at(c, fi, o), "the original exception is not chained")
        return
    caught = hs[-1].a
    f = o.state.facts
    own_class = err[1][1]       # a macro may raise anything else, also of a base class of this one
    inner = [e for e in tr if e.kind == "except"][0].a if orig is None else orig
    if cause is None:
        c.bad(key + ":chained", at(c, fi, o), f"after {what}, the raised error is not chained to the original exception")
        return
    if cause == attr(caught, "__cause__"):
        own = f.get(attr(caught, "__cause__"))
        if own is None and ("isnone", attr(caught, "__cause__")) in f:
            own = not f[("isnone", attr(caught, "__cause__"))]
        isown = any(k[0] == "isinst" and k[1] == caught and v and all(ix.is_subclass(x, own_class) for x in k[2]) for k, v in f.items())
        c.require(key + ":chained", own is True and isown, at(c, fi, o), "the cause of an exception that may have none (or is not a report) is used as the root cause")
        a = positions(msg, ("call",) + tuple(loc[0][1:])) if loc else []
        b = positions(msg, attr(caught, "args"))
        if msg[0] in ("fstr", "join"):
            c.require(key + ":old-report", bool(b), at(c, fi, o), "the report of the inner macro application is lost")
            if a and b:
                c.require(key + ":order", min(a) < min(b), at(c, fi, o), "the inner report is placed before the outer use site")
        else:
            c.unknown(key + ":order", at(c, fi, o), "message of unknown shape")
    else:
        c.require(key + ":chained", cause == caught, at(c, fi, o), f"after {what}, the raised error is chained to {show(cause)[:80]}, not to the original exception")
        isown = any(k[0] == "isinst" and k[1] == caught and v and any(ix.is_subclass(own_class, x) or ix.is_subclass(x, own_class) for x in k[2]) for k, v in f.items())
        has = f.get(attr(caught, "__cause__"))
        c.require(key + ":root-cause", not (isown and has is True), at(c, fi, o), "when macro applications nest, the root cause is no longer the direct cause")
