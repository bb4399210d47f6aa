"""Each requested dialect is applied exactly once per stage.

Rule: in the source and AST stages every path through the loop over the bindings of a dialect-import checks that the value is a
subclass of the dialect class (raising if not), makes one instance with the expander, gives it the location of the dialect-import
before using it, calls the stage's method once on the running content (which starts as the input and is what the finder gets, too),
remembers the instance, and leaves as the new running content the result, or the old one when the result is the declining value; an
empty result raises. The stage ends only when the finder finds nothing more, and gives the running content and the instances.
Postprocessing does the same over the instances in order. Exceptions of a dialect leave as import errors that name the dialect. The
finder for trees replaces exactly the statement it found by a plain import of the same module at the same place.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import argof, at, call_events, norm_ctor, partial, raises, returns, unwrap, where_of

P = lambda n: ("param", n)
S = P("self")
DE = "mcpyrate.dialects.DialectExpander"
STAGES = ("transform_source", "transform_ast", "postprocess_ast")
NI = ref("NotImplemented")


def method(t):
    """(instance, method name, argument) of a call of a dialect method"""
    if not (isinstance(t, tuple) and t and t[0] == "call"):
        return None
    f = t[1]
    if f[0] in ("attr", "bound"):
        n = f[-1].rsplit(".", 1)[-1]
        if n in STAGES and f[1] != S:
            return f[1], n, argof(t, "tree", "text", "content", 0)
    if is_call(f, "builtins.getattr"):
        n = argof(f, 1)
        return argof(f, 0), n[2] if n[0] == "const" else None, argof(t, "tree", "text", "content", 0)
    return None


def carried_from(t, X):
    """is t the running value of a loop-carried variable that starts as X?"""
    n = 0
    while t[0] == "carried":
        t, n = t[3], n + 1
    return n > 0 and t == X


def notimpl(f, R):
    for k, b in f.items():
        if isinstance(k, tuple) and k[0] == "cmp" and k[1] in ("Is", "Eq") and R in (k[2], k[3]):
            o = k[3] if k[2] == R else k[2]
            if "NotImplemented" in show(o):
                return b
    return None


def raising(t, interp=None, state=None):
    return t[0] == "call" and (method(t) is not None or is_call(t, "builtins.getattr") or makes(t) is not None)


def makes(t):
    """class term of an instantiation of a dialect: a call of a value with the expander"""
    if isinstance(t, tuple) and t and t[0] == "call" and any(v == S for _, v in t[2]) and t[1][0] not in ("ref", "bound", "attr", "closure"):
        return t[1]
    return None


def check(c):
    ix = c.ix
    for stage in STAGES:
        key = "C23:" + stage
        fi = ix.find_method(DE, stage)
        if fi is None:
            c.unknown(key, DE, "no such method")
            continue
        with c.section(key):
            one_stage(c, key, stage, fi)
    with c.section("C23:replaced"):
        finder(c)
    with c.section("C23:instances"):
        user(c)
    with c.section("C23:seen"):
        # in the source stage dialect-imports are told apart by their whole text
        fs = ix.find_method(DE, "find_dialectimport_source")
        for o in returns(c.paths(fs, opaque=["get_macros"])) if fs is not None else ():
            for k, b in o.state.facts.items():
                if isinstance(k, tuple) and k[0] == "cmp" and k[1] == "In" and k[3][0] == "attr" and k[3][1] == S:
                    parts = [x for x in subterms(k[2]) if isinstance(x, tuple) and len(x) == 3 and (x[0] == "sub" and is_call(x[1], "split", "rsplit", "partition", "rpartition") or is_call(x, "group") and x[2] and argof(x, 0) not in (None, const(0)))]
                    c.require("C23:seen", not parts, at(c, fs, o), f"two dialect-imports with the same {show(k[2])[:60]} are taken for one")
    c.floor(12)


def one_stage(c, key, stage, fi):
    X = P(fi.params()[1])
    post = stage == "postprocess_ast"
    its = []
    inline = ["DialectExpander._transform"]
    outs = c.paths(fi, inline=inline, iters=its, may_raise=raising, max_paths=60000)
    n = 0
    for it, serial, k, st, fid in its:
        f, tr = st.facts, st.trace
        lo = max(i for i, e in enumerate(tr) if e.kind == "loop" and e.b == serial)
        body = tr[lo:]
        if any(e.kind == "loop" and e is not tr[lo] for e in body):
            inner = [e for e in body if e.kind == "loop" and e is not tr[lo]]
            if any(method(e.c) for e in body if e.kind == "call"):
                continue        # an outer loop: the inner one is looked at on its own
        w = where_of(next((e for e in reversed(body) if e.node is not None), None), c.where(fi))
        calls = [(i, e, method(e.c)) for i, e in enumerate(body) if e.kind == "call" and method(e.c)]
        failed = [e for e in body if e.kind == "callraise" and (method(e.c) or makes(e.c))]
        if k not in ("next", "continue", "raise", "break", "return"):
            continue
        if failed:
            c.require(key + ":failure", k == "raise", where_of(failed[0], w), "an exception of a dialect is swallowed")
            continue
        if not calls:
            continue
        n += 1
        c.require(key + ":once", len(calls) == 1, w, f"the transformer is called {len(calls)} times for one dialect")
        i, e, (inst, name, arg) = calls[0]
        w = where_of(e, w)
        c.require(key + ":method", None if name is None else name == stage, w, f"the {stage} stage calls {name}")
        c.require(key + ":chained", True if arg is not None and carried_from(arg, X) else False if arg == X or arg is None else None, w,
                  f"the dialect gets {show(arg) if arg else None}, not the output of the previous dialect")
        R = e.c
        ni, tv = notimpl(f, R), f.get(R)
        if post:
            for d in [x for x in subterms(inst) if isinstance(x, tuple) and len(x) == 3 and x[0] == "new" and x[1] == "dict"]:
                ents = st.heap.get((d, "#"), ())
                if any(isinstance(x, tuple) and x and (is_call(x, "builtins.type") or x[0] == "attr" and x[2] == "__class__" or x[0] == "typeof") for ent in ents for x in subterms(ent)):
                    c.bad(key + ":each", w, "of several instances of one class, only one postprocesses")
            seq = inst if inst[0] == "elem" else None
            if seq and tr[lo].a[0] == "reversed":
                seq = ("call", ref("builtins.reversed"), (("0", seq),))
            c.require(key + ":order", True if seq and seq[1] == P(fi.params()[2]) else False if seq and any(is_call(x, "builtins.reversed") or x[0] == "slice" for x in subterms(seq) if isinstance(x, tuple) and x and isinstance(x[0], str)) else None, w, f"postprocesses {show(inst)[:80]}")
        else:
            cls = makes(inst)
            c.require(key + ":instance", cls is not None or None, w, f"the dialect is {show(inst)[:80]}")
            if cls is not None:
                made = [x for x in body if x.kind == "call" and makes(x.c) == cls]
                c.require(key + ":instantiated-once", len(made) == 1, w, f"{len(made)} instances are made")
                okcls = [b for t, b in f.items() if is_call(t, "builtins.issubclass") and argof(t, 0) == cls]
                c.require(key + ":class", True if okcls == [True] else False if not okcls and not any(contains(t, cls) and (is_call(t) or t[0] == "isinst" and t[2] != frozenset(["builtins.type"])) for t in f if isinstance(t, tuple)) else None, w, "a value that is no dialect is used as one")
                it0 = tr[lo].a
                if is_call(it0, "builtins.sorted", "builtins.set", "builtins.frozenset", "builtins.reversed") and fcall(inside(it0)) is not None:
                    c.bad(key + ":appearance", w, f"the dialects of an import are applied in the order of {show(it0)[:60]}, not in that of appearance")
                for d in [x for x in subterms(it0) if isinstance(x, tuple) and len(x) == 3 and x[0] == "new" and x[1] == "dict"]:
                    for ent in st.heap.get((d, "#"), ()):
                        if "val" in [x[0] for x in subterms(ent) if isinstance(x, tuple) and x] and keyed_by_class(ent):
                            c.bad(key + ":bindings", w, "a dialect imported under two names is applied once")
                src = cls
                while src[0] in ("val", "elem", "sub", "list", "star", "items"):
                    if src[0] == "sub" and src[2][0] == "slice":
                        c.bad(key + ":bindings", w, f"only {show(src[2])} of the bindings are used")
                    src = src[1] if src[0] != "list" else src[1][0] if len(src[1]) == 1 else ("?",)
                src = fcall(src)
                c.require(key + ":bindings", src is not None or None, w, f"the class is {show(cls)[:60]}")
                if src is not None:
                    fa = argof(src, "text", "tree", 0)
                    c.require(key + ":finder-input", True if fa is not None and (carried_from(fa, X)) else False if fa == X else None, w, "dialect-imports are looked for in the input, not in what the dialects have made of it")
                    for j, an in ((2, "lineno"), (3, "col_offset")):
                        sets = [(q, x) for q, x in enumerate(body) if x.kind == "setattr" and x.a == inst and x.b == an]
                        got = [x for q, x in sets if q < i]
                        c.require(key + ":location", True if got and got[-1].c == ("sub", src, const(j)) else False if not got and (not sets or sets[0][0] > i) else False if got[-1].c[0] in ("sub", "const") else None, w, f"{an} of the dialect-import is not given to the dialect before it runs")
        name_end = [(nm, v) for nm, v in st.frames.get(fid, {}).items() if arg is not None and arg[0] == "carried" and arg[1] == nm]
        if name_end and k in ("next", "continue"):
            v = name_end[0][1]
            if ni:
                c.require(key + ":declined", v == arg, w, f"a dialect that declines leaves {show(v)[:60]} as the content")
            elif tv is False:
                c.bad(key + ":empty", w, "an empty result is accepted")
            else:
                c.require(key + ":result", True if v == R else False if v == arg else None, w, "the output of the dialect is not what the next dialect gets")
                c.require(key + ":tests", ni is False and tv is True or None, w, "result used without tests")
            if not post:
                keeps = any(hk[1] == "#" and any(contains(x, inst) for x in items) for hk, items in st.heap.items())
                added = any(x.kind == "call" and x.c[1][0] in ("attr", "bound") and any(v == inst for _, v in x.c[2]) for x in body)
                c.require(key + ":remembered", keeps or added, w, "the dialect is not remembered for postprocessing")
                front = any(x.kind == "call" and x.c[1][0] in ("attr", "bound") and x.c[1][-1] in ("insert", "appendleft") and any(v == inst for _, v in x.c[2]) for x in body)
                front = front or any(x.kind == "listop" and x.b in ("insert", "reverse") for x in body)
                c.require(key + ":remember-order", not front, w, "the dialects are remembered in another order")
        elif k in ("break", "return"):
            c.bad(key + ":all", w, "the stage ends before all dialects have been applied")
        elif k == "raise":
            c.require(key + ":accepted", False if (tv or ni) and not any(x.kind == "callraise" for x in body) else True, w, "a dialect that returns a result is rejected")
            if ni:
                c.bad(key + ":declined", w, "a dialect that declines a stage is rejected")
    for o in outs:
        f, tr, w, v = o.state.facts, o.state.trace, at(c, fi, o), o.value
        if o.kind == "raise":
            if v[0] == "exc":
                c.require(key + ":wrapped", False if method(v[1]) or makes(v[1]) else None, w, f"an exception of a dialect leaves as it is: {show(v)[:60]}")
                continue
            inst = [makes(e.c) for e in tr if e.kind in ("call", "callraise") and makes(e.c)]
            ms = [method(e.c)[0] for e in tr if e.kind in ("call", "callraise") and method(e.c)]
            cls = inst or [t[1] for t in f if isinstance(t, tuple) and t[0] == "isinst" and t[1][0] == "val"]
            if cls and not post:
                k = cls[-1]
                names = any(x[0] == "key" and x[1:] == k[1:] for x in subterms(v) if isinstance(x, tuple) and x) if k[0] == "val" else None
                c.require(key + ":named", names, w, f"the error does not name the dialect: {show(v)[:80]}")
            elif ms:
                c.require(key + ":named", contains(v, ms[-1]) or None, w, f"the error does not name the dialect: {show(v)[:80]}")
            isdial = [b for t, b in f.items() if is_call(t, "builtins.issubclass")]
            c.require(key + ":rejects", True, w, "")
            continue
        fs = [e for e in tr if e.kind == "call" and fcall(e.c) is not None]
        ran = [e.c for e in tr if e.kind == "call" and method(e.c)]
        tested = any(e.kind == "endloop" and e.c in ("next", "continue") and e.a[0] == "while" for e in tr)
        over = [b for e in fs for b in (f.get(e.c), f.get(("isnone", e.c)) is False or None) if b is not None]

        def current(x):
            """is x what the dialects have made of the input, as far as this path goes?"""
            return carried_from(x, X) or x == X and fs and True not in over and not any(e.kind == "loop" for e in tr) or bool(ran) and tested and x == ran[-1]
        if stage == "transform_ast":
            v0 = v[1][0] if v[0] == "tuple" and len(v[1]) == 2 else None
            c.require(key + ":gives", True if v0 is not None and current(v0) else False if v0 == X else None, w, f"gives {show(v)[:60]}")
            v1 = v[1][1] if v0 is not None else None
            c.require(key + ":gives-instances", None if v1 is None or v1[0] not in ("list", "const", "none") else v1[0] == "list" and not any(is_call(x, "builtins.reversed") for x in subterms(v1)), w, f"gives {show(v)[:60]}")
        elif stage == "transform_source":
            c.require(key + ":gives", True if current(v) else False if v == X or v[0] == "tuple" else None, w, f"gives {show(v)[:60]}")
        else:
            ran = [e for e in tr if e.kind == "call" and method(e.c)]
            if ran:
                r = ran[-1].c
                want = method(r)[2] if notimpl(f, r) else r
                c.require(key + ":gives", True if v == want or carried_from(v, X) else False if v == X else None, w, f"gives {show(v)[:60]}")
            else:
                c.require(key + ":gives", True if v == X else None, w, f"gives {show(v)[:60]}")
        if not post:
            for e in tr:
                if e.kind == "endloop" and e.c in ("next", "continue") and e.a[0] == "while" and isinstance(e.node, ast.While) and bounded(e.node.test):
                    c.bad(key + ":all", where_of(e, w), f"the stage ends after some number of dialects: while {ast.unparse(e.node.test)[:60]}")
            # the last thing the finder said
            c.require(key + ":all", None if tested else True if fs and (f.get(fs[-1].c) is False or f.get(("isnone", fs[-1].c))) else False if fs and (f.get(fs[-1].c) or f.get(("isnone", fs[-1].c)) is False) else None, w, "the stage ends although there may be more dialect-imports")
    c.require(key + ":exercised", n > 0 or None, c.where(fi), "no path applies a dialect")


def bounded(test):
    """a loop condition that compares a number of things with a constant"""
    return any(isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)) and any(isinstance(y, ast.Constant) and isinstance(y.value, int) and y.value > 0 for y in [x.left] + x.comparators) for x in ast.walk(test))


def inside(t):
    """what a sorting or copying call is applied to"""
    while is_call(t, "builtins.sorted", "builtins.set", "builtins.frozenset", "builtins.reversed", "builtins.list", "builtins.tuple"):
        t = argof(t, 0)
    if is_call(t, "items", "values", "keys") and t[1][0] == "attr":
        t = t[1][1]
    return t


def keyed_by_class(ent):
    """is this entry of a dictionary stored under the class of a dialect?"""
    k = ent
    while isinstance(k, tuple) and k and (isinstance(k[0], tuple) or k[0] == "rep"):
        k = k[2] if k[0] == "rep" else k[0]
    return isinstance(k, tuple) and bool(k) and k[0] == "val"


def fcall(t):
    """the call of the finder that a term is taken from"""
    while isinstance(t, tuple) and t and t[0] in ("sub", "items", "val", "elem", "key", "carried"):
        t = t[1] if t[0] != "carried" else t[3]
    if isinstance(t, tuple) and t and t[0] == "call" and t[1][0] in ("attr", "bound") and "find_dialectimport" in t[1][2]:
        return t
    return None


def finder(c):
    ix = c.ix
    fi = ix.find_method(DE, "find_dialectimport_ast")
    T = P(fi.params()[1])
    n = 0
    for o in c.paths(fi, opaque=["get_macros", "ismacroimport"]):
        tr, f, w, v = o.state.trace, o.state.facts, at(c, fi, o), o.value
        if o.kind != "return":
            continue
        tests = [(k, b) for k, b in f.items() if is_call(k, "ismacroimport")]
        for k, b in tests:
            c.require("C23:find:magic", argof(k, "magicname", 1) == const("dialects") or None if argof(k, "magicname", 1) is not None else False, w, "looks for macro-imports instead of dialect-imports")
        hit = [k for k, b in tests if b]
        muts = [e for e in tr if e.kind in ("setitem", "delitem", "setattr", "delattr")]
        if v == NONE:
            c.require("C23:find:none", False if hit else True, w, "a dialect-import that was found is not reported")
            over = [e for e in tr if e.kind in ("loop", "endloop") and isinstance(e.a, tuple) and contains(e.a, attr(T, "body"))]
            early = [e for e in over if e.kind == "endloop" and e.c in ("return", "break")]
            c.require("C23:find:all", not early and not any(partial(e.a[1] if e.a[0] == "enumerate" else e.a, attr(T, "body")) for e in over), w, "the search ends before all top-level statements have been looked at")
            c.require("C23:find:untouched", not muts, w, "the tree is changed although there is no dialect-import")
            continue
        g = [e for e in tr if e.kind == "call" and is_call(e.c, "get_macros")]
        if len(g) != 1:
            c.unknown("C23:find:bindings", w, f"{len(g)} calls")
            continue
        n += 1
        G, st = g[0].c, argof(g[0], "macroimport", 0)
        c.require("C23:find:found", True if hit and argof(hit[-1], "statement", 0) == st else None if st[0] != "elem" else False, w, "the statement is used without having been tested")
        c.require("C23:find:asname", argof(G, "allow_asname") == FALSE or (False if argof(G, "allow_asname") in (None, TRUE) else None), w, "as-names of dialects are accepted")
        if v[0] == "tuple" and len(v[1]) == 4:
            c.require("C23:find:result", v[1][0] == ("sub", G, const(0)) and v[1][1] == ("sub", G, const(1)) or None, w, show(v)[:60])
            for j, an in ((2, "lineno"), (3, "col_offset")):
                has = f.get(("hasattr", st, an))
                c.require("C23:find:location", v[1][j] == attr(st, an) if has in (True, None) else v[1][j] == NONE or None, w, f"the {an} of the dialect-import is given as {show(v[1][j])[:40]}")
        if not muts:
            c.bad("C23:replaced", w, "the dialect-import stays in the tree")
        for e in muts:
            if e.kind == "setitem" and e.a == attr(T, "body"):
                idx = e.b
                c.require("C23:replaced:place", True if idx[0] == "index" and idx[1] == attr(T, "body") else False if idx[0] == "const" else None, where_of(e, w), f"statement {show(idx)} is replaced")
                k = norm_ctor(unwrap(e.c, "ast.copy_location", "mcpyrate.astfixers.fix_locations"))
                if k is None:
                    c.unknown("C23:replaced:import", where_of(e, w), show(e.c)[:60])
                    continue
                c.require("C23:replaced:import", k[0] == "Import", where_of(e, w), f"the dialect-import becomes a {k[0]}")
                names = k[1].get("names")
                if k[0] == "Import" and names is not None and names[0] == "list" and len(names[1]) == 1:
                    a = norm_ctor(unwrap(names[1][0], "ast.copy_location"))
                    c.require("C23:replaced:module", True if a and a[1].get("name") == ("sub", G, const(0)) else False if a and (a[1].get("name") == attr(st, "module") or a[1].get("name", NONE)[0] == "const") else None, where_of(e, w), "the module that is imported is not the module of the dialects")
                    c.require("C23:replaced:asname", bool(a) and a[1].get("asname", NONE) == NONE, where_of(e, w), "as-name")
                else:
                    c.unknown("C23:replaced:module", where_of(e, w), show(e.c)[:60])
                loc = is_call(e.c, "ast.copy_location") and argof(e.c, "old_node", 1) == st
                c.require("C23:replaced:location", loc or None, where_of(e, w), "location")
            elif e.kind in ("delitem",):
                c.bad("C23:replaced", where_of(e, w), "statements are deleted")
            else:
                c.unknown("C23:replaced", where_of(e, w), f"{e.kind} {show(e.a)[:40]}")
    c.require("C23:find:exercised", n > 0 or None, c.where(fi), "")


def user(c):
    """the instances of the AST stage are the ones that postprocess, with the same expander"""
    ix = c.ix
    fi = ix.func("mcpyrate.compiler.singlephase_expand")
    for o in returns(c.paths(fi, opaque=["transform_ast", "postprocess_ast"])):
        tr, w = o.state.trace, at(c, fi, o)
        ts, ps = call_events(tr, "transform_ast", raising=False), call_events(tr, "postprocess_ast", raising=False)
        if not ts and not ps:
            continue
        c.require("C23:stages", len(ts) == 1 and len(ps) == 1, w, f"{len(ts)} AST stages and {len(ps)} postprocessing stages")
        if len(ts) == 1 and len(ps) == 1:
            c.require("C23:instances", argof(ps[0][1], "dialect_instances", 1) == ("sub", ts[0][1].c, const(1)) or None, w, "other dialects are used for postprocessing")
            c.require("C23:expander", ts[0][1].a[1] == ps[0][1].a[1], w, "another expander is used for postprocessing")
