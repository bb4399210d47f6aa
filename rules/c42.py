"""Reports list what is there, and go where they were asked to.

Rule, on the abstract paths of each reporting helper. Listing of bindings: what is looped over is all bindings exactly when they are asked for, and else the local ones; every turn of the loop writes the name and
the formatted macro of its item; where there is none, something says so; nothing colours the text unless asked. Missing locations: a node is collected exactly on the paths where it is not ignored and a checked
field is missing, with those fields, and every path goes on into the tree. Coloured text: the requested colours, the text, a reset, in this order. Console help: every print goes to the given stream or the standard
error stream, and shows the file and line, the documentation, every source line. The session's way to define a macro is checked on the syntax tree of the text that is injected. Excerpts: no more lines than
asked for. Constants: the value of the node, for every kind of constant node, and an error for others.
"""
import ast
import textwrap

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from rules.c41 import expanded
from lib.q import argof, at, raises, returns, where_of

P = lambda n: ("param", n)
S = P("self")
COL = "mcpyrate.colorizer."


def check(c):
    ix = c.ix
    for name, f in (("bindings", bindings), ("show", show_), ("locations", locations), ("colors", colors), ("excerpt", excerpt), ("macroname", macroname), ("doc", doc), ("source", source), ("origin", origin), ("define", define), ("constant", constant)):
        with c.section(f"C42:{name}"):
            f(c, ix)
    c.floor(12)


def called(e, *names):
    return e.kind == "call" and name_matches(callee(e.a), *names)


def default(fi, name):
    a = fi.node.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg == name:
            return d
    return None


def fact(o, t):
    return o.state.facts.get(t)


def bindings(c, ix):
    fi = ix.func("mcpyrate.debug.format_bindings")
    E, G, K = P("expander"), P("globals_too"), P("color")
    for name in ("globals_too", "color"):
        d = default(fi, name)
        c.require(f"C42:bindings:default:{name}", True if isinstance(d, ast.Constant) and d.value is False else False if isinstance(d, ast.Constant) else None, c.where(fi), f"{name} is not off by default")
    listed = 0
    for o in c.paths(fi):
        w, tr = at(c, fi, o), o.state.trace
        if o.kind == "raise":
            c.bad("C42:bindings:raises", w, f"listing the bindings fails with {show(o.value)[:60]}")
            continue
        want, other = ("bindings", "local_bindings") if fact(o, G) else ("local_bindings", "bindings")
        B, N = attr(E, want), attr(E, other)
        if fact(o, G) is None:
            used = [x for x in (B, N) if any(e.kind in ("loop", "assume") and contains(e.a, x) for e in tr)]
            c.require("C42:bindings:scope", False if len(used) == 1 else None, w, "the choice between local and all bindings is not honoured")
            continue
        loops = [(i, e) for i, e in enumerate(tr) if e.kind == "loop" and (contains(e.a, B) or contains(e.a, N))]
        tests = [e for e in tr if e.kind == "assume" and e.a in (B, N)]
        for e in [x for _, x in loops] + tests:
            c.require("C42:bindings:scope", contains(e.a, B) and not contains(e.a, N) or (False if contains(e.a, N) and not contains(e.a, B) else None), where_of(e, w), f"the bindings listed are those of {other}")
        out = [e for e in tr if e.kind == "call" and e.a[0] in ("attr", "bound") and e.a[2].rpartition(".")[2] in ("write", "append", "writelines", "extend", "print")] + [e for e in tr if called(e, "builtins.print")]
        if not loops and any(e.a == B and e.b is False for e in tests):
            c.require("C42:bindings:none", True if len(out) > 1 else None if not out or not is_call(o.value) and o.value[0] != "call" else False, w, "the report does not say that there is no binding")
        for i, e in loops:
            j = next((k for k in range(i + 1, len(tr)) if tr[k].kind == "endloop" and tr[k].a == e.a and tr[k].b == e.b), len(tr))
            if e.c == "comp":
                continue
            its = [x for x in subterms(e.a) if x[:1] == ("sub",) and isinstance(x[2], tuple) and x[2][:1] == ("slice",)]
            c.require("C42:bindings:every", not its, where_of(e, w), f"the listing goes over {show(e.a)[:60]}")
            elem = ("elem", e.a, e.b)
            wr = [x for x in tr[i:j] if x in out]
            skipped = any(x.kind == "assume" and contains(x.a, elem) for x in tr[i:j])
            if not wr:
                c.require("C42:bindings:every", False if skipped or j < len(tr) and j == i + 1 else None, where_of(e, w), "a binding is left out of the listing")
                continue
            listed += 1
            if any(b == "break" for b in [tr[j].c] if j < len(tr)):
                c.bad("C42:bindings:every", where_of(e, w), "the listing stops early")
            line = tuple(x.c for x in wr)
            parts = list(subterms(line))
            keyed = [x for x in parts if contains(x, elem)]
            c.require("C42:bindings:line", True if keyed else False, where_of(wr[0], w), "a line of the listing does not name its binding")
            fm = [x for x in parts if is_call(x, "mcpyrate.utils.format_macrofunction")]
            name = ("sub", elem, const(0))
            func = ("sub", elem, const(1))
            if contains(line, name) or contains(line, func):
                bare = strip(line, fm)
                c.require("C42:bindings:name", contains(bare, name) or None if not contains(bare, func) else None, where_of(wr[0], w), "the name of the binding is missing")
                if not contains(line, name) and not any(isinstance(x, tuple) and x[:1] == ("call",) and contains(x, elem) and x not in line and not is_call(x, "mcpyrate.utils.format_macrofunction", "builtins.sorted") for x in parts):
                    c.bad("C42:bindings:name", where_of(wr[0], w), "the name of the binding is missing")
                c.require("C42:bindings:macro", True if fm and contains(fm[0], func) else False if fm and contains(fm[0], name) or not contains(line, func) or not fm and (contains(line, attr(func, "__name__")) or contains(line, attr(func, "__qualname__")) or contains(line, attr(func, "__module__"))) and not (contains(line, attr(func, "__module__")) and contains(line, attr(func, "__qualname__"))) else None, where_of(wr[0], w), "the macro is not shown by its full name")
        colored = [e for e in tr if called(e, COL + "setcolor", COL + "colorize") or e.kind == "call" and e.c[0] == "attr"]
        if fact(o, K) is False:
            c.require("C42:bindings:plain", not colored, w, "there are color codes in a report that asked for none")
        head = any(contains(e.c, attr(E, "filename")) for e in out)
        c.require("C42:bindings:head", head or None, w, "")
    c.require("C42:bindings:exercised", listed > 0 or None, c.where(fi), "")


def strip(t, gone):
    if t in gone:
        return ()
    return tuple(strip(x, gone) for x in t) if isinstance(t, tuple) else t


def show_(c, ix):
    fi = ix.func("mcpyrate.debug.show_bindings")
    X = P("syntax")
    for o in c.paths(fi):
        w, tr = at(c, fi, o), o.state.trace
        isname = fact(o, ("cmp", "Eq", X, const("name")))
        if o.kind == "raise":
            c.require("C42:show:rejects", True if isname is False else False if isname else None, w, "a valid use is rejected")
            continue
        c.require("C42:show:accepts", isname if isname is not None else None, w, "a use as another kind of macro is accepted")
        pr = [e for e in tr if called(e, "builtins.print", "sys.stderr.write")]
        fb = [e for e in tr if called(e, "mcpyrate.debug.format_bindings")]
        c.require("C42:show:prints", True if pr and fb and any(contains(e.c, fb[0].c) for e in pr) else False if not any(e.kind == "call" for e in tr) else None, w, "nothing is shown")
        for e in fb:
            c.require("C42:show:expander", True if argof(e.c, "expander", 0) == P("expander") else None, where_of(e, w), "")
        for e in pr:
            if called(e, "builtins.print") and fb and contains(e.c, fb[0].c):
                f = argof(e.c, "file", None)
                c.require("C42:show:stream", True if f == ref("sys.stderr") else False if f is None or f == ref("sys.stdout") else None, where_of(e, w), "the report does not go to the standard error stream")
        c.require("C42:show:value", True if o.value == NONE else False if o.value == P("tree") or o.value[0] == "const" or fb and o.value == fb[0].c else None, w, "the use does not evaluate to nothing")


def locations(c, ix):
    q = "mcpyrate.debug.SourceLocationInfoValidator"
    init = ix.find_method(q, "__init__")
    d = default(init, "check_fields")
    if isinstance(d, (ast.List, ast.Tuple, ast.Set)):
        names = {getattr(x, "value", None) for x in d.elts}
        c.require("C42:locations:fields", {"lineno", "col_offset"} <= names or False, c.where(init), f"the fields checked by default are {sorted(map(str, names))}")
    for o in returns(c.paths(init)):
        for e in o.state.trace:
            if e.kind == "setattr" and e.a == S and e.b in ("ignore", "n", "check_fields"):
                src = [x for x in subterms(e.c) if isinstance(x, tuple) and x[:1] == ("param",)]
                c.require(f"C42:locations:{e.b}", True if P(e.b) in src else False if e.c[0] in ("const", "param") or not any(isinstance(x, tuple) and x[:1] in (("param",), ("call",), ("ref",)) for x in subterms(expanded(e.c, o.state))) else None, where_of(e, c.where(init)), f"{e.b} is {show(e.c)[:50]}")
    fi = ix.find_method(q, "examine")
    T = P(fi.params()[1])
    F, I = attr(S, "check_fields"), attr(S, "ignore")
    seen = 0
    for o in c.paths(fi):
        if o.kind == "raise":
            continue
        w, tr, heap = at(c, fi, o), o.state.trace, o.state.heap
        down = [e for e in tr if e.kind == "call" and e.a[0] in ("attr", "bound") and e.a[2].rpartition(".")[2] in ("generic_visit", "visit", "generic_withstate")]
        looped = [e for e in tr if e.kind == "loop" and contains(e.a, T)]
        c.require("C42:locations:deep", True if down else None if looped else False, w, "what is below the node is not examined")
        col = [e for e in tr if e.kind == "call" and e.a[0] in ("attr", "bound") and e.a[2].rpartition(".")[2] == "collect"]
        ign = fact(o, ("cmp", "In", T, I))
        # is a field missing on this path?
        miss = None
        for e in tr:
            if e.kind != "assume":
                continue
            m = missing(e.a, e.b, T, F, heap)
            if m is not None:
                miss = m
        if col:
            seen += 1
            c.require("C42:locations:ignored", True if ign is False else False if ign or ign is None and not any(contains(k, I) for k in o.state.facts) else None, where_of(col[0], w), "an ignored node is reported")
            if miss not in ("?", "some"):
                c.require("C42:locations:missing", miss if miss is not None else None, where_of(col[0], w), "a node is reported that lacks not one of the checked fields")
            v = argof(col[0].c, "value", 0)
            if v is not None and v[0] == "tuple" and len(v[1] if len(v) == 2 and isinstance(v[1], tuple) else v[1:]) == 3:
                it = v[1] if len(v) == 2 and isinstance(v[1], tuple) else v[1:]
                c.require("C42:locations:item", it[0] == T or None, where_of(col[0], w), "")
                c.require("C42:locations:names", names_good(it[2], T, F, heap, tr), where_of(col[0], w), f"the fields reported as missing are {show(it[2])[:80]}")
        elif ign is not True and miss is not None and miss != "?":
            c.require("C42:locations:complete", miss is False, w, "a node that lacks a checked field is not reported")
    c.require("C42:locations:exercised", seen > 0 or None, c.where(fi), "")


def reps(t, heap):
    """the one comprehension that a list consists of"""
    if t[0] == "new":
        items = heap.get((t, "#"), ())
    elif t[0] in ("list", "tuple") and len(t) == 2 and isinstance(t[1], tuple):
        items = t[1]
    else:
        return None
    return items[0] if len(items) == 1 and items[0][:1] == ("rep",) else None


def has(t, T, F, heap):
    """True: the term says that the field of this turn is there; False: that it is not"""
    if t[0] == "not":
        r = has(t[1], T, F, heap)
        return None if r is None else not r
    if is_call(t, "builtins.hasattr") and argof(t, 0) == T or t[0] == "hasattr" and t[1] == T:
        return True
    if t[0] == "elem":
        r = reps(t[1], heap) if isinstance(t[1], tuple) and t[1][0] in ("new", "list") else None
        return has(r[2], T, F, heap) if r and not r[3] else None
    return None


def missing(a, b, T, F, heap):
    """what an assumption says: True if a checked field is missing, False if none is; None if it is about something else; '?' if it is not understood"""
    while a[0] == "not":
        a, b = a[1], not b
    about = any(is_call(x, "builtins.hasattr") for x in subterms(a)) or any(isinstance(x, tuple) and x[:1] == ("new",) and contains(heap.get((x, "#"), ()), ref("builtins.hasattr")) for x in subterms(a))
    if not about:
        return None
    if is_call(a, "builtins.all", "builtins.any"):
        r = reps(argof(a, 0), heap)
        if r is None or r[3] or r[1] != F:
            return "?"
        h = has(r[2], T, F, heap)
        if h is None:
            return "?"
        every = is_call(a, "builtins.all")
        if every and h:
            return not b
        if not every and not h:
            return b
        # any field there, or every field missing: not the question
        return True if b == every else "some"
    r = reps(a, heap)
    if r is not None and r[1] == F and len(r[3]) == 1:
        h = has(r[3][0], T, F, heap)
        if h is False:
            return b
    return "?"


def names_good(t, T, F, heap, tr):
    r = reps(t, heap)
    if t == F or is_call(t, "builtins.list", "builtins.tuple") and argof(t, 0) == F or t[0] in ("new", "list") and all(x == ("star", F) for x in (heap.get((t, "#"), ()) if t[0] == "new" else t[1] if isinstance(t[1], tuple) else ((),))):
        return False
    if r is None or len(r[3]) != 1:
        return False if r is not None and not r[3] and not any(e.kind == "loop" and e.c != "comp" for e in tr) and contains(r[1], F) and r[2][:1] == ("elem",) else None
    h = has(r[3][0], T, F, heap)
    return None if h is None else not h


def flat(t):
    if t[0] == "fstr":
        return [y for x in t[1] for y in flat(x)]
    if t[0] in ("op", "binop") and t[1] == "Add":
        return flat(t[2]) + flat(t[3])
    return [t]


def colors(c, ix):
    fi = ix.func(COL + "colorize")
    for o in c.paths(fi):
        w = at(c, fi, o)
        if o.kind == "raise":
            continue
        ps = [x for x in flat(o.value) if x[0] != "const"]
        i = [k for k, x in enumerate(ps) if x == P("text")]
        if not i:
            c.require("C42:colors:text", None if contains(o.value, P("text")) else False, w, "the text is missing")
            continue
        before, after = ps[:i[0]], ps[i[-1] + 1:]
        c.require("C42:colors:set", True if any(contains(x, P("colors")) for x in before) else False if not before else None, w, "the text does not have the colors")
        rs = [x for x in after if is_call(x, COL + "setcolor") or contains(x, ref(COL + "Style")) or contains(x, ref("mcpyrate.ansi.Style"))]
        good = any(is_call(x, COL + "setcolor") and not any(k in ("*", "colors") or isinstance(k, int) for k, _ in x[2]) and argof(x, "reset", None) in (None, TRUE) or x[0] == "attr" and x[2] == "RESET_ALL" for x in rs)
        c.require("C42:colors:reset", True if good else False if not after or rs else None, w, "the colors stay in force after the text")
        for x in before:
            if is_call(x, COL + "setcolor"):
                c.require("C42:colors:start", argof(x, "reset", None) in (None, TRUE), w, "colors that were in force before stay in force in the text")
    fi = ix.func(COL + "setcolor")
    d = default(fi, "reset")
    c.require("C42:colors:default", True if isinstance(d, ast.Constant) and d.value is True else False if isinstance(d, ast.Constant) else None, c.where(fi), "colors are not reset by default")
    outs = returns(c.paths(fi))
    anyloop = any(e.kind == "loop" and contains(e.a, P("colors")) for o in outs for e in o.state.trace)
    for o in outs:
        w = at(c, fi, o)
        r = fact(o, P("reset"))
        isreset = lambda t: any(isinstance(x, tuple) and x[:1] == ("attr",) and x[2] == "RESET_ALL" for x in subterms(t)) or any(isinstance(x, tuple) and x[:1] == ("ref",) and isinstance(x[1], str) and x[1].endswith("RESET_ALL") for x in subterms(t))
        ps = flat(o.value)
        at_ = [k for k, x in enumerate(ps) if isreset(x)]
        cs = [k for k, x in enumerate(ps) if contains(x, P("colors")) or x == P("colors")]
        if r is None:
            c.require("C42:colors:when", None if any(contains(k, P("reset")) for k in o.state.facts if isinstance(k, tuple)) or contains(o.value, P("reset")) else False, w, "whether colors are reset does not depend on what is asked for")
            continue
        c.require("C42:colors:when", bool(at_) == r if o.value[0] in ("fstr", "op", "binop") or not at_ and not cs else (None if bool(at_) != r else True), w, "colors are reset when that is not asked for, or not when it is")
        c.require("C42:colors:given", True if contains(o.value, P("colors")) else None if anyloop else False, w, "the colors asked for are missing")
        if at_ and cs:
            c.require("C42:colors:order", at_[-1] < cs[0] or (at_[0] == cs[0] and None) or False, w, "the reset comes after the colors")


def excerpt(c, ix):
    fi = ix.func("mcpyrate.utils.format_context")
    N = P("n")
    for o in returns(c.paths(fi)):
        w, v = at(c, fi, o), o.value
        cuts = [x for x in subterms(v) if isinstance(x, tuple) and x[:1] == ("sub",) and isinstance(x[2], tuple) and x[2][:1] == ("slice",)]
        un = any(is_call(x, "mcpyrate.unparser.unparse_with_fallbacks", "mcpyrate.unparser.unparse") for x in subterms(v))
        c.require("C42:excerpt:text", True if un else False if v[0] == "const" else None, w, "")
        c.require("C42:excerpt:lines", True if any(x[2][1] in (NONE, const(0)) and x[2][2] == N for x in cuts) else False if cuts or not contains(v, N) and not any(contains(k, N) for k in o.state.facts) else None, w, "an excerpt does not have the first lines asked for")
        more = [(k, b) for k, b in o.state.facts.items() if isinstance(k, tuple) and k[0] == "cmp" and k[1] in ("Lt", "LtE", "Gt", "GtE") and contains(k, N)]
        dots = any(isinstance(x, tuple) and x[:2] == ("const", "str") and "..." in x[2] for x in subterms(v))
        if dots and not any(contains(k, N) for k in o.state.facts if isinstance(k, tuple)) and not contains(strip(v, cuts), N):
            c.bad("C42:excerpt:dots", w, "whether an excerpt is marked as cut does not depend on the number of lines asked for")
        for k, b in more:
            # n < number of lines
            lines = k[3] if k[2] == N else k[2] if k[3] == N else None
            if lines is None:
                continue
            op = k[1] if k[2] == N else {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[k[1]]
            cut = {("Lt", True): True, ("Lt", False): False, ("GtE", True): False, ("GtE", False): True}.get((op, b))
            if is_call(lines, "builtins.len") or lines[0] == "len":
                if cut and not cuts and not contains(v, N):
                    c.bad("C42:excerpt:lines", w, "an excerpt has more lines than asked for")
                c.require("C42:excerpt:dots", dots == cut if cut is not None else False, w, "an excerpt is marked as cut although it is not, or the other way round")


def macroname(c, ix):
    fi = ix.func("mcpyrate.utils.format_macrofunction")
    M = P(fi.params()[0])
    for o in returns(c.paths(fi)):
        w, v, f = at(c, fi, o), o.value, o.state.facts
        hm, hq = f.get(("hasattr", M, const("__module__"))), f.get(("hasattr", M, const("__qualname__")))
        hm = hm if hm is not None else next((b for k, b in f.items() if isinstance(k, tuple) and k[0] == "hasattr" and "__module__" in show(k)), None)
        hq = hq if hq is not None else next((b for k, b in f.items() if isinstance(k, tuple) and k[0] == "hasattr" and "__qualname__" in show(k)), None)
        mod = f.get(attr(M, "__module__"))
        if f.get(attr(M, "__qualname__")) is False:
            continue
        if hm and hq and mod:
            ps = flat(v)
            good = [x for x in ps if x[0] == "attr"] == [attr(M, "__module__"), attr(M, "__qualname__")]
            c.require("C42:macroname:full", True if good else False if v[0] in ("fstr", "attr") else None, w, f"the full name of a macro is {show(v)[:60]}")
        elif hm and hq and mod is False:
            c.require("C42:macroname:session", True if v == attr(M, "__qualname__") else None if contains(v, M) and not contains(v, attr(M, "__module__")) and not is_call(v, "builtins.repr", "builtins.str") else False, w, f"the name of a macro without a module is {show(v)[:60]}")
        elif hm is False or hq is False:
            c.require("C42:macroname:other", not (contains(v, attr(M, "__qualname__")) and hq is not True or contains(v, attr(M, "__module__")) and hm is not True), w, "uses a name that is not there")


def rk_source(t, interp=None, state=None):
    return is_call(t, "mcpyrate.repl.utils._get_source", "inspect.getsourcefile", "inspect.getsourcelines")


def prints(c, ix, name, key):
    fi = ix.func("mcpyrate.repl.utils." + name)
    for o in c.paths(fi, inline=["mcpyrate.repl.utils._get_source"], may_raise=rk_source):
        if o.kind == "raise" and (o.value[0] == "ref" or o.value[0] == "call" and o.value[1][0] == "ref"):
            c.bad(f"C42:{key}:raises", at(c, fi, o), "the report fails for an object whose source is not known")
            break
    for o in c.paths(fi, may_raise=rk_source):
        w, tr = at(c, fi, o), o.state.trace
        if o.kind == "raise":
            continue
        isgiven = fact(o, P("file")) if fact(o, P("file")) is not None else (not fact(o, ("isnone", P("file")))) if fact(o, ("isnone", P("file"))) is not None else None
        pr = [e for e in tr if called(e, "builtins.print")]
        for e in pr:
            f = argof(e.c, "file", None)
            if isgiven is None:
                good = False if f is None or f == ref("sys.stderr") else True if f is not None and contains(f, P("file")) and contains(f, ref("sys.stderr")) else None
            else:
                good = f == P("file") if isgiven else (f == ref("sys.stderr") or (False if f is None or f in (P("file"), ref("sys.stdout")) else None))
            c.require(f"C42:{key}:stream", good, where_of(e, w), "a line is printed to another stream than the one asked for")
        got = [e.c for e in tr if e.kind == "call" and is_call(e.c, "mcpyrate.repl.utils._get_source")]
        failed = any(e.kind == "callraise" and is_call(e.c, "mcpyrate.repl.utils._get_source") for e in tr)
        yield fi, o, w, tr, pr, got, failed


def place(c, key, w, pr, got):
    G = got[0]
    t = tuple(e.c for e in pr)
    f, n = ("sub", G, const(0)), ("sub", G, const(2))
    c.require(f"C42:{key}:place", True if contains(t, f) and contains(t, n) else False if pr and not (contains(t, f) or contains(t, n)) or contains(t, f) != contains(t, n) else None, w, "the file and line of the definition are not shown")


def doc(c, ix):
    X = P("obj")
    D = attr(X, "__doc__")
    for fi, o, w, tr, pr, got, failed in prints(c, ix, "doc", "doc"):
        if got:
            place(c, "doc", w, pr, got)
        there = fact(o, D)
        t = tuple(e.c for e in pr)
        if there:
            c.require("C42:doc:text", True if contains(t, D) else False if any(isinstance(x, tuple) and x[:1] == ("attr",) and x[2] == "__doc__" for x in subterms(t)) else None if len(pr) > (1 if got else 0) else False, w, "the documentation is not shown")
        elif there is False:
            c.require("C42:doc:none", True if len(pr) > (1 if got else 0) else None, w, "")
        if failed and not pr:
            c.bad("C42:doc:unknown", w, "nothing is shown for an object whose source is not known")


def source(c, ix):
    for fi, o, w, tr, pr, got, failed in prints(c, ix, "sourcecode", "source"):
        if failed:
            c.require("C42:source:none", True if pr else False, w, "nothing is shown for an object whose source is not known")
        if not got:
            continue
        place(c, "source", w, pr, got)
        L = ("sub", got[0], const(1))
        for i, e in enumerate(tr):
            if e.kind == "loop" and e.c != "comp" and contains(e.a, L):
                j = next((k for k in range(i + 1, len(tr)) if tr[k].kind == "endloop" and tr[k].a == e.a and tr[k].b == e.b), len(tr))
                elem = ("elem", e.a, e.b)
                inside = [x for x in tr[i:j] if x in pr]
                c.require("C42:source:lines", True if any(contains(x.c, elem) for x in inside) and e.a == L else False if not inside or e.a[0] == "sub" and e.a != L else None, where_of(e, w), "a line of the source is left out")
                for x in inside:
                    for y in subterms(x.c):
                        if isinstance(y, tuple) and y[:1] == ("call",) and y[1][:1] == ("attr",) and y[1][1] == elem:
                            c.require("C42:source:indent", False if y[1][2] in ("strip", "lstrip") else True, where_of(x, w), "the indentation of a line is lost")
                if j < len(tr) and tr[j].c == "break":
                    c.bad("C42:source:lines", where_of(e, w), "the listing stops early")


def origin(c, ix):
    fi = ix.func("mcpyrate.repl.utils._get_source")
    X = P(fi.params()[0])
    K = attr(X, "__class__")
    isk = lambda t: t == K or is_call(t, "builtins.type") and argof(t, 0) == X
    for o in c.paths(fi, may_raise=rk_source):
        w, v = at(c, fi, o), o.value
        tried = [argof(e.c, 0) for e in o.state.trace if e.kind in ("call", "callraise") and is_call(e.c, "inspect.getsourcefile", "inspect.getsourcelines")]
        if o.kind == "return" and v[0] == "tuple":
            it = v[1] if len(v) == 2 and isinstance(v[1], tuple) else v[1:]
            if len(it) == 3:
                isline = lambda x, n: x[0] == "sub" and x[2] == const(n) and is_call(x[1], "inspect.getsourcelines")
                order = [0 if is_call(x, "inspect.getsourcefile") else 1 if isline(x, 0) else 2 if isline(x, 1) else None for x in it]
                if sorted(map(str, order)) == ["0", "1", "2"] and order != [0, 1, 2]:
                    c.bad("C42:origin:parts", w, "the file, the lines and the number of the first line are mixed up")
                    continue
                gf, gl = it[0], it[1]
                c.require("C42:origin:parts", True if is_call(gf, "inspect.getsourcefile") and it[1][0] == "sub" and it[1][2] == const(0) and it[2][0] == "sub" and it[2][2] == const(1) and it[1][1] == it[2][1] and argof(gf, 0) == argof(it[1][1], 0) else False if is_call(gf, "inspect.getsourcefile") and it[1][0] == "sub" and it[2][0] == "sub" else None, w, f"the origin is {show(v)[:80]}")
        failed = [e for e in o.state.trace if e.kind == "callraise"]
        if o.kind == "raise" and is_call(v, "builtins.NotImplementedError") or o.kind == "raise" and v == ref("builtins.NotImplementedError"):
            c.require("C42:origin:class", True if any(isk(t) for t in tried) else False if set(tried) <= {X} and tried else None, w, "the class of an object is not looked at")
        if tried:
            c.require("C42:origin:first", True if tried[0] == X else False if isk(tried[0]) else None, w, "the object itself is not looked at first")
    # which failures are passed over
    for n in ast.walk(fi.node):
        if isinstance(n, ast.ExceptHandler):
            names = {getattr(x, "id", None) for x in ast.walk(n.type)} if n.type is not None else {"Exception"}
            wide = names & {"Exception", "BaseException"}
            c.require("C42:origin:failures", True if wide or {"TypeError"} <= names and names & {"OSError", "IOError", "EnvironmentError"} else False, f"{fi.file}:{n.lineno}", f"objects whose source cannot be found (fails with other than {sorted(x for x in names if x)}) make the report fail")


def define(c, ix):
    fi = ix.func("mcpyrate.repl.utils.get_makemacro_sourcecode")
    best = None
    for q in ast.walk(fi.node):
        if isinstance(q, ast.Constant) and isinstance(q.value, str) and "def " in q.value and q is not getattr(fi.node.body[0], "value", None):
            best = q
    if best is None:
        for v in fi.module.tree.body:
            for q in ast.walk(v):
                if isinstance(q, ast.Constant) and isinstance(q.value, str) and "__macro_expander__" in q.value and "def " in q.value:
                    best = q
    w = c.where(fi)
    if best is None:
        c.unknown("C42:define:form", w, "the injected text is not a literal")
        return
    w = f"{fi.file}:{best.lineno}"
    try:
        t = ast.parse(textwrap.dedent(best.value))
    except SyntaxError:
        c.bad("C42:define:syntax", w, "the text injected into a session is not valid")
        return
    f = next((x for x in t.body if isinstance(x, ast.FunctionDef)), None)
    if f is None:
        c.unknown("C42:define:form", w, "")
        return
    c.require("C42:define:name", f.name == "macro", w, f"the function is called {f.name}")
    p = (f.args.posonlyargs + f.args.args)[0].arg
    isp = lambda n: isinstance(n, ast.Name) and n.id == p
    rets = [x.value for x in ast.walk(f) if isinstance(x, ast.Return)]
    c.require("C42:define:returns", True if rets and all(r is not None and isp(r) for r in rets) else False if not rets or any(r is None or isinstance(r, ast.Constant) for r in rets) else None, w, "the decorated name does not stay bound to the function")
    puts = [(s.targets[0], s.value) for s in ast.walk(f) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript)]
    ok = [x for x, v in puts if isp(v) and "__macro_expander__" in ast.unparse(x.value) and ast.unparse(x.value).endswith("bindings")]
    keys = {ast.unparse(x.slice) for x in ok}
    c.require("C42:define:binds", True if ok and keys == {f"{p}.__name__"} else False if not ok and not any(isinstance(x, ast.Attribute) and x.attr == "bindings" for x in ast.walk(f)) or keys & {f"{p}.__qualname__", f"{p}.__module__", p} else None, w, "the function is not bound as a macro under its name")
    uses_callable = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "callable" for x in ast.walk(f))
    c.require("C42:define:callable", True if uses_callable else False if not any(isinstance(x, ast.Raise) for x in ast.walk(f)) else None, w, "something that cannot be called is bound as a macro")
    for i in [x for x in ast.walk(f) if isinstance(x, ast.If)]:
        s = ast.unparse(i.test)
        r = any(isinstance(x, ast.Raise) for x in i.body)
        if r and s.startswith("callable("):
            c.bad("C42:define:callable", w, "a function is rejected")
        if r and isinstance(i.test, ast.Compare) and "<lambda>" in s:
            c.require("C42:define:lambda", isinstance(i.test.ops[0], (ast.Eq, ast.In)) or (False if isinstance(i.test.ops[0], ast.NotEq) else None), w, "named functions are rejected")
    c.require("C42:define:lambda", True if "<lambda>" in ast.unparse(f) or any(isinstance(x, ast.Attribute) and x.attr == "isidentifier" for x in ast.walk(f)) else False, w, "a function without a name is bound as a macro")


def constant(c, ix):
    fi = ix.func("mcpyrate.astcompat.getconstant")
    T = P(fi.params()[0])
    want = {"ast.Constant": attr(T, "value"), "ast.NameConstant": attr(T, "value"), "ast.Num": attr(T, "n"), "ast.Str": attr(T, "s"), "ast.Bytes": attr(T, "s")}
    hit = set()
    for o in c.paths(fi):
        w, v = at(c, fi, o), o.value
        kinds = set()
        for k, b in o.state.facts.items():
            if b and isinstance(k, tuple) and k[0] in ("typeis", "isinst") and k[1] == T:
                kinds |= {q for q in k[2]}
        if o.kind == "raise":
            c.require("C42:constant:rejects", False if "ast.Constant" in kinds else True, w, "a constant is rejected")
            continue
        hit |= kinds
        if not kinds:
            c.require("C42:constant:others", False if v == NONE or v == T else None, w, "a node that is no constant is accepted")
        if "ast.Constant" in kinds:
            c.require("C42:constant:value", True if v == attr(T, "value") else False if v[0] in ("attr", "const") or is_call(v, "builtins.str", "builtins.repr") or v == T else None, w, f"the value of a constant is {show(v)[:60]}")
    c.require("C42:constant:known", True if "ast.Constant" in hit else None, c.where(fi), "")
