"""Operators on quoted code expand it with the bindings of the place that asked.

Rule: all paths of the operators, of the snapshot macro and of the extraction of bindings are enumerated. The snapshot pairs every name of the asking expander's bindings with the capture of its macro, without a
condition. A run-time operator generates a call that receives the snapshot, the file name of the asking expander and the given code, each under the right parameter; an expansion-time operator works with the asking
expander itself and quotes again with it. An operator that quotes first expands, in block form, the value of the assignment that quoting made, stores the result there and answers with that assignment.
Every path that answers has tested the invocation kind (and the as-part); forcing given macros tests that there are arguments, that they are names and that these are bound, and expands the given code with those
macros under all of their names.
"""
from lib.interp import NONE, argof, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import at, call_events, returns, where_of

P = lambda n: ("param", n)
X = P("expander")
T = P("tree")
SYN = P("syntax")
B = attr(X, "bindings")
FN = attr(X, "filename")
M = "mcpyrate.metatools."


def check(c):
    with c.section("C40:snapshot"):
        snapshot(c)
    for q, rt in (("expand1r", "runtime_expand1"), ("expandr", "runtime_expand")):
        with c.section("C40:" + q):
            runtime(c, q, rt)
    with c.section("C40:stepr"):
        stepr(c)
    for q in ("expand1s", "expands"):
        with c.section("C40:" + q):
            static(c, q)
    for q, inner in (("expand1sq", "expand1s"), ("expandsq", "expands"), ("expand1rq", "expand1r"), ("expandrq", "expandr")):
        with c.section("C40:" + q):
            quoting(c, q, inner)
    with c.section("C40:extract"):
        extract(c)
    with c.section("C40:first"):
        first(c)
    c.floor(15)


def syntaxes(f, universe):
    """the invocation kinds that a path admits"""
    left = set(universe)
    for k, b in f.items():
        if not isinstance(k, tuple):
            continue
        vals = None
        if k[0] == "cmp" and k[1] in ("Eq", "NotEq", "Is") and SYN in (k[2], k[3]):
            o = k[3] if k[2] == SYN else k[2]
            if o[0] == "const":
                vals, b = {o[2]}, b == (k[1] != "NotEq")
        elif k[0] == "in" and k[1] == SYN:
            if isinstance(k[2], frozenset):
                vals = {x[2] for x in k[2] if x[0] == "const"}
        elif k[0] == "cmp" and k[1] == "In" and k[2] == SYN:
            if k[3][0] in ("tuple", "list", "set"):
                vals = {x[2] for x in k[3][1] if x[0] == "const"}
            else:
                return None
        elif SYN in k or k[0] == "call" and (k[1] == attr(SYN, k[1][2] if k[1][0] == "attr" else "") or any(v == SYN for _, v in k[2])):
            return None
        if vals is not None:
            left = left & vals if b else left - vals
    return left


UNIVERSE = ("expr", "block", "decorator", "name")


def kinds(c, key, o, fi, allowed):
    s = syntaxes(o.state.facts, UNIVERSE)
    c.require(key + ":kind", None if s is None else s <= set(allowed), at(c, fi, o), f"a use as {', '.join(sorted((s or set()) - set(allowed)))} macro is accepted")
    return s


def asnone(f):
    """is it known that there is no as-part? (None: tested in a way that is not understood)"""
    r = False
    for k, b in f.items():
        if not contains(k, const("optional_vars")):
            continue
        t = k[1] if isinstance(k, tuple) and k[0] == "isnone" else None
        if t is not None:
            if b:
                return True
        elif isinstance(k, tuple) and (k[0] == "sub" or k[0] == "call") and not b:
            return True
        elif r is False:
            r = None if not (isinstance(k, tuple) and k[0] in ("sub", "call")) else False
    return r


def rejected(c, key, fi, paths, allowed):
    """uses of other kinds end in a report, not in a failed assumption"""
    for o in paths:
        if o.kind == "raise" and is_call(o.value, "AssertionError"):
            s = syntaxes(o.state.facts, UNIVERSE)
            c.require(key + ":kind", None if s is None else s <= set(allowed), at(c, fi, o), f"a use as {', '.join(sorted((s or set()) - set(allowed)))} macro is not rejected")


def direct(k, t):
    """is the fact about t itself, not about something computed from it?"""
    return t in k or k[0] == "cmp" and any(is_call(x, "builtins.len") and argof(x, 0, 0) == t for x in k[2:]) or is_call(k) and any(v == t for _, v in k[2])


def aspart(c, key, o, fi, s):
    if s is None or "block" in s:
        a = asnone(o.state.facts)
        c.require(key + ":as", True if a else None if a is None or s is None else False, at(c, fi, o), "a block use with an as-part is accepted")


def generated(t, params):
    """arguments of a generated call: parameter -> term; None if not understood"""
    if not (t[0] == "call" and t[1] == ref("ast.Call")):
        return None
    pos, kws = argof(t, "args", 1), argof(t, "keywords", 2)
    if pos is None or kws is None or pos[0] != "list" or kws[0] != "list":
        return None
    out = {}
    for i, x in enumerate(pos[1]):
        if x[0] in ("rep", "star") or i >= len(params):
            return None
        out[params[i]] = x
    for x in kws[1]:
        if not (x[0] == "call" and x[1] == ref("ast.keyword")):
            return None
        n = argof(x, "arg", 0)
        if n is None or n[0] != "const":
            return None
        out[n[2]] = argof(x, "value", 1)
    return out


def target(t):
    """dotted name that a generated call looks up"""
    fn = argof(t, "func", 0)
    if fn is None:
        return None
    s = [x[2] for x in subterms(fn) if x[0] == "const" and x[1] == "str"] if fn[0] == "call" else []
    return s[0].split(".")[-1] if len(s) == 1 else None


def isbindings(t):
    """True: a snapshot of the asking expander; False: of something else; None: unknown"""
    if t is None:
        return False
    if is_call(t, "macro_bindings"):
        e, s = argof(t, "expander", None), argof(t, "syntax", None)
        return e == X and s in (const("name"), None)
    if t[0] == "call" and t[1] == ref("ast.Dict"):
        # made in place
        return None if contains(t, X) else False
    return None if contains(t, X) else False


def lifted(t, v):
    """True: the code for the value v"""
    if t is None:
        return False
    if is_call(t, "astify"):
        return argof(t, "x", 0) == v
    if t[0] == "call" and t[1] == ref("ast.Constant"):
        return argof(t, "value", 0) == v
    if t == v:
        return False        # a bare value is no code
    return None if contains(t, v) else False


def operands(c, key, w, g, bindings="bindings"):
    if not c.require(key + ":call", None if g is None else True, w, "the generated call is not understood"):
        return
    c.require(key + ":bindings", isbindings(g.get("bindings")), w, f"the macros known at run time are {show(g['bindings'])[:60] if g.get('bindings') else 'not given'}, not those of the asking expander")
    c.require(key + ":file", lifted(g.get("filename"), FN), w, f"the file name known at run time is {show(g['filename'])[:60] if g.get('filename') else 'not given'}")


def snapshot(c):
    fi = c.ix.func(M + "macro_bindings")
    n = 0
    for o in returns(c.paths(fi)):
        w, v = at(c, fi, o), o.value
        n += 1
        kinds(c, "C40:snapshot", o, fi, {"name"})
        if not c.require("C40:snapshot:dict", True if v[0] == "call" and v[1] == ref("ast.Dict") else False if v == NONE or v[0] == "param" else None, w, f"gives {show(v)[:60]}"):
            continue
        ks, vs = argof(v, "keys", 0), argof(v, "values", 1)
        sides = []
        for side, name, what in ((ks, "astify", "key"), (vs, "capture_value", "val")):
            key = "C40:snapshot:" + ("names" if what == "key" else "macros")
            if side is None or side[0] != "list" or len(side[1]) != 1 or side[1][0][0] != "rep":
                odd = side is not None and any(is_call(x, "builtins.sorted", "builtins.reversed", "builtins.set") for x in subterms(side))
                c.require(key, None if side is not None and not odd else False, w, "the names and the macros are not listed in the same order")
                continue
            _, src, elt, cond = side[1][0]
            base = src[1] if src[0] in ("items", "values", "keys") else src
            unordered = any(is_call(x, "builtins.sorted", "builtins.reversed", "builtins.set") or x[0] == "reversed" for x in subterms(src))
            c.require(key + ":all", (base == B) or (False if base == attr(X, "local_bindings") or contains(base, ref("mcpyrate.core.global_bindings")) else None), w, f"the snapshot is taken of {show(base)[:60]}")
            c.require(key + ":unconditional", False if cond else True, w, "some bindings are left out of the snapshot")
            sides.append((unordered, cond, src))
            want = {(k, x) for x in (base, B) for k in (("key", "elem") if what == "key" else ("val", "sub"))}
            arg = argof(elt, "x" if what == "key" else "value", 0) if is_call(elt, name) else None
            if arg is None:
                c.require(key + ":value", lifted(elt, None) if False else (None if elt[0] == "call" else False), w, f"the snapshot holds {show(elt)[:60]}")
                continue
            good = arg[:2] in want or (arg[0] == "elem" and what == "val" and src[0] == "values")
            other = arg[0] in ("key", "val", "elem") or arg[0] == "attr"
            c.require(key + ":value", True if good else False if other else None, w, f"the snapshot holds {show(arg)[:60]}")
        if len(sides) == 2:
            c.require("C40:snapshot:paired", False if sides[0][0] != sides[1][0] or sides[0][1] != sides[1][1] else True, w, "the names and the macros are not paired")
    c.require("C40:snapshot:exercised", n > 0 or None, c.where(fi), "")


def runtime(c, q, rt):
    fi = c.ix.func(M + q)
    key = "C40:" + q
    rf = c.ix.func(M + rt)
    n = 0
    for o in returns(c.paths(fi, inline=["_expandr_impl", "_mcpyrate_metatools_attr"], opaque=["_mcpyrate_attr", "macro_bindings", "astify"])):
        w, v = at(c, fi, o), o.value
        n += 1
        s = kinds(c, key, o, fi, {"expr", "block"})
        aspart(c, key, o, fi, s)
        g = generated(v, rf.params())
        operands(c, key, w, g)
        if g is not None:
            t = g.get("tree")
            c.require(key + ":tree", True if t == T else False if t is None or t[0] in ("const", "param") or lifted(t, T) else None, w, f"expands {show(t)[:60] if t else 'nothing'} at run time")
    c.require(key + ":exercised", n > 0 or None, c.where(fi), "")


def stepr(c):
    fi = c.ix.func(M + "stepr")
    key = "C40:stepr"
    n = 0
    for o in returns(c.paths(fi, inline=["_mcpyrate_metatools_attr"], opaque=["_mcpyrate_attr", "macro_bindings", "astify"])):
        w, v = at(c, fi, o), o.value
        n += 1
        kinds(c, key, o, fi, {"expr"})
        g = generated(v, ["tree"])
        if not c.require(key + ":call", None if g is None else True, w, "the generated call is not understood"):
            continue
        c.require(key + ":operator", {None: None, "step_expansion": True}.get(target(v), False), w, f"calls {target(v)}")
        t = g.get("tree")
        c.require(key + ":tree", True if t == T else False if t is None or lifted(t, T) else None, w, "the code given is not what is stepped through")
        c.require(key + ":args", lifted(g.get("args"), P("args")), w, "the macro arguments are not passed on")
        y = g.get("syntax")
        c.require(key + ":syntax", lifted(y, SYN) or lifted(y, const("expr")), w, "the invocation kind is not passed on")
        e = g.get("expander")
        if c.require(key + ":expander", None if e is None else True, w, "no expander is passed"):
            c.require(key + ":class", {None: None, "MacroExpander": True}.get(target(e) if e[0] == "call" and e[1] == ref("ast.Call") else None, False), w, "another thing than an expander is made")
            operands(c, key, w, generated(e, ["bindings", "filename"]))
    c.require(key + ":exercised", n > 0 or None, c.where(fi), "")


def static(c, q):
    fi = c.ix.func(M + q)
    key = "C40:" + q
    n = 0
    for o in returns(c.paths(fi)):
        w = at(c, fi, o)
        n += 1
        s = kinds(c, key, o, fi, {"expr", "block"})
        aspart(c, key, o, fi, s)
        for _, e in call_events(o.state.trace, "visit", "visit_once", "visit_recursively", raising=False):
            r = e.a[1] if e.a[0] in ("bound", "attr") else None
            c.require(key + ":expander", True if r == X else None if r is None else False if contains(r, B) is False or is_call(r, "MacroExpander") else None, where_of(e), f"the code is expanded by {show(r)[:60] if r else '?'}")
        for _, e in call_events(o.state.trace, "quotes.q", raising=False):
            x, y = argof(e, "expander", None), argof(e, "syntax", None)
            c.require(key + ":quoted-by", True if x == X else False if x is not None else None, where_of(e), "another expander quotes the result")
            c.require(key + ":quoted-as", True if y == SYN or y == const("expr") and s == {"expr"} else False if y is not None and y[0] == "const" else None, where_of(e), "the result is quoted as another kind of invocation")
    c.require(key + ":exercised", n > 0 or None, c.where(fi), "")


def quoting(c, q, inner):
    fi = c.ix.func(M + q)
    key = "C40:" + q
    static_ = inner.endswith("s")
    seen = set()
    rejected(c, key, fi, c.paths(fi), {"expr", "block"})
    for o in returns(c.paths(fi)):
        f, w, v, tr = o.state.facts, at(c, fi, o), o.value, o.state.trace
        s = kinds(c, key, o, fi, {"expr", "block"})
        qs = [e for _, e in call_events(tr, "quotes.q", raising=False)]
        ins = [e for _, e in call_events(tr, M + inner, raising=False)]
        if len(qs) != 1 or len(ins) != 1 or s is None:
            c.unknown(key + ":stages", w, "")
            continue
        Q, I = qs[0].c, ins[0].c
        y = argof(qs[0], "syntax", None)
        c.require(key + ":quoted-as", True if y == SYN or y is not None and y[0] == "const" and s == {y[2]} else False if y is not None and y[0] == "const" else None, where_of(qs[0]), "the code is quoted as another kind of invocation")
        a, iy = argof(ins[0], "tree", 0), argof(ins[0], "syntax", None)
        typ = next((b for k, b in f.items() if isinstance(k, tuple) and len(k) == 3 and k[0] in ("typeis", "isinst") and k[1] == Q and set(k[2]) == {"ast.Assign"}), None)
        block = s == {"block"} or typ is True
        expr = s == {"expr"} or typ is False
        st = [e for e in tr if e.kind == "setattr" and e.a == Q]
        if expr and not block:
            seen.add("expr")
            c.require(key + ":expr", True if a == Q and v == I else False if a == T or v in (Q, T, NONE) or a == attr(Q, "value") else None, w, f"expands {show(a)[:50]} and answers {show(v)[:50]}")
            c.require(key + ":expr:kind", True if iy in (SYN, const("expr")) else False if iy is not None and iy[0] == "const" else None, where_of(ins[0]), f"delegates as {show(iy)[:30] if iy else '?'}")
        elif block and not expr:
            seen.add("block")
            c.require(key + ":block:tree", True if a == attr(Q, "value") else False if a in (Q, T) else None, where_of(ins[0]), f"expands {show(a)[:50]}, not the code that the block assigns")
            put = o.state.heap.get((Q, "value")) if (Q, "value") in o.state.heap else None
            c.require(key + ":block:stored", True if put == I and v == Q else False if put is None and v in (Q, I, T, NONE) or v in (I, T, NONE) else None, w, "the expansion does not take the place of the code that the block assigns")
            opt = argof(ins[0], "optional_vars", None)
            if static_:
                c.require(key + ":block:kind", True if iy == const("expr") else False if iy in (SYN, const("block")) else None, where_of(ins[0]), "the code is quoted again as a block that has no name to be assigned to")
            else:
                c.require(key + ":block:kind", True if iy == const("expr") or opt == NONE else False if iy in (SYN, const("block")) and not setsopt(tr) else None, where_of(ins[0]), "the as-part of the quote reaches the operator, which takes none")
        else:
            # both kinds arrive here
            seen |= {"expr", "block"}
            c.require(key + ":block:tree", False if a in (Q, T) else None, where_of(ins[0]), f"in block form {show(a)[:50]} is expanded, not the code that the block assigns")
    for k in ("expr", "block"):
        c.require(f"{key}:{k}:exercised", k in seen or None, c.where(fi), "")


def setsopt(tr):
    return any(e.kind in ("setitem", "delitem") and contains(e.b, const("optional_vars")) for e in tr if e.b is not None) or any(e.kind == "call" and contains(e.a, const("optional_vars")) for e in tr)


def extract(c):
    fi = c.ix.func("mcpyrate.utils.extract_bindings")
    D, F = P(fi.params()[0]), P("functions")
    n = 0
    outs = returns(c.paths(fi))
    loops = any(e.kind == "loop" for o in outs for e in o.state.trace)
    for o in outs:
        w, v = at(c, fi, o), o.value
        n += 1
        if v == ("dict", ()) and loops:
            skipped = any(isinstance(k, tuple) and k[0] == "cmp" and b == (k[1] == "In") for k, b in o.state.facts.items())
            c.require("C40:extract:result", False if skipped else True, w, "a binding of a given macro is left out")
            continue
        if v[0] != "dict" or len(v[1]) != 1:
            c.require("C40:extract:result", False if v in (D, NONE) or v == ("dict", ()) else None, w, f"gives {show(v)[:60]}")
            continue
        k, val = v[1][0]
        if k[0] == "rep":
            _, src, k, cond = k
        else:
            src = next((e.a for e in o.state.trace if e.kind == "loop"), NONE)
            cond = tuple(x if b else ("not", x) for x, b in o.state.facts.items() if isinstance(x, tuple) and x[0] == "cmp")
        c.require("C40:extract:all", True if src == ("items", D) else False if not contains(src, D) or any(x[0] == "attr" and x[2] in ("maps", "local_bindings") for x in allterms(src)) else None, w, f"looks at {show(src)[:60]}")
        c.require("C40:extract:key", True if k[:2] == ("key", D) else False if k[0] in ("attr", "val", "const") else None, w, f"the name is {show(k)[:60]}")
        c.require("C40:extract:value", True if val[:2] == ("val", D) else False if val[0] in ("key", "const") else None, w, f"the macro is {show(val)[:60]}")
        if not cond:
            c.bad("C40:extract:which", w, "macros that are not asked for are included")
            continue
        t = cond[0]
        neg = t[0] == "not"
        t = t[1] if neg else t
        if len(cond) == 1 and t[0] == "cmp" and t[1] in ("In", "NotIn") and contains(t[3], F):
            neg ^= t[1] == "NotIn"
            if any(x[0] == "sub" and x[1] == F for x in allterms(t[3])):
                c.bad("C40:extract:which", w, "not all the given macros are looked for")
            # by identity or equality of the function itself, not by its name
            c.require("C40:extract:which", not neg and t[2][:2] == ("val", D) and t[3] in (F, ("set", (("star", F),)), ("list", (("star", F),)), ("tuple", (("star", F),))) or (False if neg or t[2][0] == "attr" or t[2][0] == "key" else None), w, f"a binding is taken if {show(cond[0])[:60]}")
        else:
            c.require("C40:extract:which", False if any(x[0] == "not" or x[0] == "key" for x in cond) and len(cond) > 1 else None, w, f"a binding is taken if {'; '.join(show(x)[:50] for x in cond)}")
    c.require("C40:extract:exercised", n > 0 or None, c.where(fi), "")


def first(c):
    fi = c.ix.func(M + "expand_first")
    key = "C40:first"
    A = P("args")
    n = 0
    allpaths = c.paths(fi)
    everything = [k for o in allpaths for k in o.state.facts] + [v for o in allpaths for k, v in o.state.heap.items()]
    istest = any(x[0] in ("typeis", "isinst") and "ast.Name" in x[2] for t in everything for x in allterms(t))
    isbound = any(x[0] == "cmp" and x[1] in ("In", "NotIn") and x[3] == B or x[0] == "in" and x[2] == B for t in everything for x in allterms(t))
    for o in returns(allpaths):
        f, w, v, tr = o.state.facts, at(c, fi, o), o.value, o.state.trace
        n += 1
        s = kinds(c, key, o, fi, {"block"})
        aspart(c, key, o, fi, s)
        given = any(k == A and b or isinstance(k, tuple) and k[0] == "cmp" and contains(k, A) and contains(k, ref("builtins.len")) for k, b in f.items())
        c.require(key + ":arguments", True if given else False if all(k == ("isnone", A) for k in f if k[0] != "new" and direct(k, A)) else None, w, "no arguments are accepted")
        # the arguments are macro-expanded with all bindings of the asking expander
        ex = [e for _, e in call_events(tr, "visit", "visit_recursively", "visit_once", raising=False) if argof(e, "tree", 0) == A]
        if c.require(key + ":hygienic", True if len(ex) == 1 else False if not ex and any(x[:2] == ("elem", A) for x in allterms(v)) else None, w, "arguments that are unquoted macros are not resolved"):
            r = ex[0].a[1]
            b = argof(r, "bindings", 0) if is_call(r, "MacroExpander") else None
            c.require(key + ":hygienic:bindings", True if b == B or r == X else False if b is not None and (b[0] == "attr" or b[0] == "ref") else None, where_of(ex[0]), f"the arguments are resolved with {show(b)[:60] if b else '?'}")
            args = ex[0].c
        else:
            continue
        # what is tested about them
        for what, pred, any_ in (("names", lambda x: x[0] in ("typeis", "isinst") and "ast.Name" in x[2], istest),
                                 ("bound", lambda x: x[0] == "cmp" and x[1] in ("In", "NotIn") and x[3] == B or x[0] == "in" and x[2] == B, isbound)):
            st = guard(o, args, pred)
            c.require(f"{key}:{what}", True if st else False if st is False or not any_ else None, w, "arguments that are no names are accepted" if what == "names" else "names that are bound to no macro are accepted")
        # the expansion proper
        if v[0] == "call" and v[1][0] == "bound" and v[1][2].endswith((".visit", ".visit_recursively")):
            r = v[1][1]
            c.require(key + ":tree", True if argof(v, "tree", 0) == T else False if argof(v, "tree", 0)[0] == "param" else None, w, f"expands {show(argof(v, 'tree', 0))[:50]}")
            if r == X:
                c.bad(key + ":macros", w, "all macros are expanded first, not those given")
                continue
            if not c.require(key + ":expander", True if is_call(r, "MacroExpander") else None, w, show(r)[:60]):
                continue
            b, fn = argof(r, "bindings", 0), argof(r, "filename", 1)
            c.require(key + ":file", True if fn == FN else False if fn is None or fn[0] == "const" else None, w, "the file name is lost")
            if is_call(b, "extract_bindings"):
                src = argof(b, "bindings", 0)
                c.require(key + ":names", True if src == B else False if src == attr(X, "local_bindings") or src[0] == "ref" else None, w, f"the names of the macros are looked for in {show(src)[:60]}")
                ms = [x for k, x in b[2] if k != "bindings" and k != 0]
                ok = None
                if len(ms) == 1 and ms[0][0] in ("list", "star", "tuple") or len(ms) == 1:
                    rep = [x for x in allterms(ms[0]) if x[0] == "rep"]
                    if len(rep) == 1:
                        _, rs, elt, cond = rep[0]
                        good = rs == args and elt[0] == "sub" and elt[1] == B and elt[2][0] == "attr" and elt[2][2] == "id" and elt[2][1][:2] == ("elem", args) and not cond
                        ok = True if good else False if rs[0] == "sub" or cond else None
                    elif ms and not rep:
                        ok = False if any(x[0] == "sub" and x[2] == const(0) for x in allterms(ms[0])) else None
                c.require(key + ":macros", ok, w, "not all the given macros are expanded first")
            else:
                c.require(key + ":macros", False if b in (B, attr(X, "local_bindings")) or b is not None and b[0] == "dict" and onlygiven(b) else None, w, "all macros are expanded first, or some names of the given ones are overlooked")
        else:
            c.require(key + ":tree", False if v in (T, NONE) or v[0] == "call" and v[1][0] == "bound" and v[1][2].endswith("visit_once") else None, w, f"gives {show(v)[:60]}")
    c.require(key + ":exercised", n > 0 or None, c.where(fi), "")


def onlygiven(b):
    """a table keyed by the argument names themselves: other names of the same macro are not in it"""
    if len(b[1]) != 1 or not (isinstance(b[1][0], tuple) and b[1][0][0][0] == "rep"):
        return False
    k = b[1][0][0][2]
    return k[0] == "attr" and k[2] == "id"


def guard(o, args, pred):
    """has the path made sure that all arguments satisfy the test? True/False (opposite)/None"""
    f, heap = o.state.facts, o.state.heap
    for k, b in f.items():
        if isinstance(k, tuple) and k[0] == "new" and k[1] == "list":
            for rep in heap.get((k, "#"), ()):
                if rep[0] != "rep" or len(rep[3]) != 1:
                    continue
                t = rep[3][0]
                neg = t[0] == "not"
                t = t[1] if neg else t
                if pred(t):
                    neg ^= t[0] == "cmp" and t[1] == "NotIn"
                    if rep[1] != args:
                        return False if rep[1] == P("args") or rep[1][0] == "sub" else None
                    return (not b) if neg else (False if b or not b else None)
        elif isinstance(k, tuple) and is_call(k, "builtins.all", "builtins.any"):
            if any(pred(x) for x in allterms(k)):
                return None
    return None


def allterms(t):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if not isinstance(x, (tuple, list)) or id(x) in seen:
            continue
        seen.add(id(x))
        if x and isinstance(x[0], str):
            out.append(x)
        todo.extend(x)
    return out
