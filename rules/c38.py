"""Reporting a problem never raises another one.

Rule: (a) on all normal and exceptional paths of the tolerant unparser, the unparser being able to fail in any way, it returns: what the unparser gave for the same arguments, or a text that has the error in it.
(b) All paths of the search for a line number: a located construct gives its own; any other construct, list or mark gives the first one that the same search finds in its fields or elements, in
order; what is none of these gives nothing. (c) On all paths of the location formatter the file, that line number and, when given, the code are in the text; on those of the context formatter the first n lines
are, and a mark exactly when there are more. (d) A macro binding is described by its qualified name only where the path has tested that it has one, else by its representation. (e) No value of the strict
unparser (followed through local names, partial applications and text operations) reaches an exception, a display call, or a source code argument of a report.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, truth, where_of
from lib.shape import P

U = "mcpyrate.utils."
UN = "mcpyrate.unparser."


def check(c):
    ix = c.ix
    with c.section("C38:fallback"):
        fallback(c, ix.func(UN + "unparse_with_fallbacks"))
    with c.section("C38:lineno"):
        lineno(c, ix.func(U + "get_lineno"))
    with c.section("C38:location"):
        location(c, ix.func(U + "format_location"))
    with c.section("C38:macro"):
        macro(c, ix.func(U + "format_macrofunction"))
    with c.section("C38:context"):
        context(c, ix.func(U + "format_context"))
    with c.section("C38:strict"):
        strict(c, ix)
    c.floor(12)


def helpers(c, fi):
    return [f.qualname for f in c.ix.funcs.values() if f.module is fi.module and f.name.startswith("_") and not f.name.startswith("__") and not f.cls] + [q for q in c.ix.funcs if q.startswith(fi.qualname + ".")]


def fallback(c, fi):
    T = P("tree")
    key = "C38:fallback"
    strict = lambda t, interp, s: is_call(t, UN + "unparse")
    n = 0
    for o in c.paths(fi, inline=helpers(c, fi), may_raise=strict):
        w = at(c, fi, o)
        failed = [e for e in o.state.trace if e.kind == "callraise" and is_call(e.c, UN + "unparse")]
        done = [e for e in o.state.trace if e.kind == "call" and is_call(e.c, UN + "unparse")]
        n += 1
        if o.kind == "raise":
            c.require(f"{key}:raises", False if failed else None, w, "a failure of the unparser is passed on to the one that reports an error")
            continue
        for e in done + failed:
            want = {"tree": T, "debug": P("debug"), "color": P("color"), "expander": P("expander")}
            got = {"tree": argof(e.c, "tree", 0), "debug": argof(e.c, "debug"), "color": argof(e.c, "color"), "expander": argof(e.c, "expander")}
            for k, v in want.items():
                g = got[k]
                c.require(f"{key}:{k}", True if g == v else False if g is None or g[0] in ("const", "param") else None, where_of(e, w), f"{k} is not passed on to the unparser")
        if failed:
            if o.value[0] == "const":
                c.bad(f"{key}:text", w, "the text does not say what went wrong")
            else:
                c.require(f"{key}:text", True if any(x[0] in ("exc", "raised", "caught") or "exc" in str(x[0]) for x in subterms(o.value) if isinstance(x, tuple) and x and isinstance(x[0], str)) else None if o.value != NONE else False, w, "the text does not say what went wrong")
        elif done:
            c.require(f"{key}:result", True if o.value == done[-1].c else False if o.value[0] in ("const",) else None, w, "the unparsed text is not what is returned")
        else:
            c.unknown(f"{key}:result", w, show(o.value)[:80])
    c.require(f"{key}:some", n > 0 or None, c.where(fi), "")
    # the handlers take anything that is an error
    caught = [h for x in ast.walk(fi.node) if isinstance(x, ast.Try) for h in x.handlers]
    wide = any(h.type is None or isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException") or isinstance(h.type, ast.Tuple) and any(isinstance(y, ast.Name) and y.id in ("Exception", "BaseException") for y in h.type.elts) for h in caught)
    c.require(f"{key}:all", True if wide else False if any(is_strict(c, fi, x) for x in ast.walk(fi.node)) else None, c.where(fi), "some failures of the unparser are passed on to the one that reports an error")


def is_strict(c, fi, e):
    if isinstance(e, ast.Name) and any(isinstance(x, ast.ImportFrom) and (x.module or "").rsplit(".", 1)[-1] in ("unparser", "mcpyrate", "") and any(a.name == "unparse" and (a.asname or a.name) == e.id for a in x.names) for x in ast.walk(fi.node)):
        return True
    return isinstance(e, (ast.Name, ast.Attribute)) and c.ix.resolve_expr(fi.module, e) == UN + "unparse" and not local(fi, e)


def local(fi, e):
    """is the name bound in the function itself? (an import of the same thing inside the function counts as the same thing)"""
    if not isinstance(e, ast.Name):
        return False
    a = fi.node.args
    if e.id in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
        return True
    return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == e.id for x in ast.walk(fi.node))


def lineno(c, fi):
    T, key = P("tree"), "C38:lineno"
    AST = {"ast.AST", "_ast.AST"}
    n = 0
    for o in c.paths(fi, inline=helpers(c, fi), max_paths=20000):
        w, f, v, tr = at(c, fi, o), o.state.facts, o.value, o.state.trace
        if o.kind == "raise":
            c.require(f"{key}:raises", None, w, "")
            continue
        n += 1
        has = f.get(("hasattr", T, "lineno"))
        own = attr(T, "lineno")
        if v == own or v[0] == "getattr" and v[1] == T and v[2] == "lineno":
            c.require(f"{key}:own", True if has or v[0] == "getattr" else False if has is False or not guarded(fi, f, "lineno") else None, w, "the line number of a construct that has none is taken")
            continue
        if has or any(k == own and b is True for k, b in f.items()):
            c.require(f"{key}:own", False if v == NONE or v[0] == "const" or is_call(v, fi.qualname) else None, w, f"a construct that has a line number is reported at {show(v)[:60]}")
            continue
        kind = None
        for k, b in f.items():
            if k[0] in ("isinst",) and k[1] == T and b:
                kind = "list" if "builtins.list" in k[2] else "mark" if any("Marker" in str(x) for x in k[2]) else "ast" if AST & set(k[2]) else kind
                if kind == "list" and len(set(k[2])) > 1 and not set(k[2]) <= {"builtins.list", "builtins.tuple"}:
                    kind = None
        loops = [e for e in tr if e.kind == "loop"]
        ends = {e.c for e in tr if e.kind == "endloop"}
        calls = [e for e in tr if e.kind == "call" and is_call(e.c, fi.qualname)]
        # what is searched
        for e in calls:
            a = argof(e.c, "tree", 0)
            good = source(a, T)
            c.require(f"{key}:searched", True if good else False if a == T else None, where_of(e, w), f"the search goes on in {show(a)[:60]}")
        if is_call(v, fi.qualname):
            a = argof(v, "tree", 0)
            g = source(a, T)
            if g == "body":
                c.require(f"{key}:mark", True if kind == "mark" or kind is None else None, w, "only the body is searched")
            elif g == "elem":
                t = truth(v, f)
                none = f.get(("isnone", v))
                c.require(f"{key}:first", True if t or none is False else False if t is None and none is None else None, w, "the search gives up after the first field or element")
            else:
                c.unknown(f"{key}:found", w, show(a)[:60])
            continue
        if v == NONE:
            found = [e for e in calls if truth(e.c, f) is True or f.get(("isnone", e.c)) is False]
            if found:
                c.require(f"{key}:lost", False if not any(e.kind == "assign" for e in tr) else None, w, "a line number that the search found is not returned")
                continue
            if kind is None:
                isno = [k for k, b in f.items() if k[0] == "isinst" and k[1] == T and b is False]
                neg = {x for k in isno for x in k[2]}
                lists = "builtins.list" in neg or any(isinstance(k, tuple) and k and k[0] not in ("isinst", "hasattr") and contains(k, T) for k in f) or any(isinstance(x, ast.Try) for x in ast.walk(fi.node))
                c.require(f"{key}:nothing", True if AST & neg and "builtins.list" in neg else False if not lists and not loops and not calls and AST & neg else None, w, "line numbers inside a list are not searched for")
                continue
            it = [e for e in loops if e.a == T or over(e.a, T)]
            tried = bool(it) or any(e.kind == "call" and is_call(e.c, "ast.iter_fields", "ast.iter_child_nodes") for e in tr) or kind == "list" and "list-loop" and bool(loops)
            if calls:
                c.require(f"{key}:all", False if "break" in ends or "return" in ends else True, w, "the search gives up after the first field or element")
            elif loops and calls == []:
                c.require(f"{key}:all", None, w, "")
            else:
                # zero iterations, or no search at all
                c.require(f"{key}:inside", True if tried or zero(fi, kind) else False if not zero(fi, kind) else None, w, f"line numbers inside a {'list' if kind == 'list' else 'construct'} are not searched for")
            continue
        if is_call(v, "builtins.next") or v[0] in ("rep", "carried", "or", "ifexp"):
            c.unknown(f"{key}:value", w, show(v)[:80])
            continue
        c.require(f"{key}:value", False if v[0] == "const" else None, w, f"the line number found is {show(v)[:60]}")
    c.require(f"{key}:some", n > 0 or None, c.where(fi), "")
    # the fields are searched in order, and by the same search
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Call) and c.ix.resolve_expr(fi.module, x.func) in ("ast.walk",):
            c.bad(f"{key}:order", f"{fi.file}:{x.lineno}", "the search is breadth first")
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("reversed", "sorted", "min", "max"):
            c.bad(f"{key}:order", f"{fi.file}:{x.lineno}", "the search is not in the order of the source")
        if isinstance(x, ast.Call) and c.ix.resolve_expr(fi.module, x.func) == "ast.iter_child_nodes":
            c.bad(f"{key}:fields", f"{fi.file}:{x.lineno}", "fields that hold lists of lists, or no nodes, are not searched")
        if isinstance(x, ast.Attribute) and x.attr in ("end_lineno", "col_offset"):
            c.bad(f"{key}:attribute", f"{fi.file}:{x.lineno}", f"{x.attr} is used")


def zero(fi, kind):
    """does the function have a loop that a path with no element may have gone through?"""
    for x in ast.walk(fi.node):
        if isinstance(x, (ast.For, ast.comprehension, ast.GeneratorExp)):
            it = getattr(x, "iter", None)
            if it is None:
                continue
            txt = ast.unparse(it)
            if kind == "list" and txt == "tree" or kind in ("ast", "mark") and "tree" in txt and txt != "tree":
                return True
            if kind == "list" and txt not in ("tree",) and "fields" not in txt:
                return True
            if not txt.startswith(("tree", "ast.", "iter_")):
                return True
        if isinstance(x, ast.While):
            return True
    return False


def over(t, T):
    return contains(t, T)


def guarded(fi, facts, name):
    """may something that is not understood have tested for the attribute?"""
    return any(isinstance(x, ast.Try) for x in ast.walk(fi.node)) or any(const(name) in subterms(k) or any(x == name for x in subterms(k)) for k in facts)


def source(a, T):
    """what of the tree an argument of the search is"""
    if a is None:
        return None
    if a == attr(T, "body"):
        return "body"
    if a[0] == "elem" and a[1] == T:
        return "elem"
    for x in subterms(a):
        if isinstance(x, tuple) and x and x[0] == "elem" and contains(x, T):
            return "elem"
    if contains(a, T) and a[0] in ("getattr", "sub", "carried"):
        return "elem"
    return None


def parts(v):
    """the pieces of a text"""
    if v[0] == "fstr":
        return [y for x in v[1] for y in parts(x)]
    if v[0] == "op" and v[1] == "Add":
        return parts(v[2]) + parts(v[3])
    if v[0] == "fmt":
        return [y for x in v[1:] if isinstance(x, tuple) for y in parts(x)]
    return [v]


def location(c, fi):
    key = "C38:location"
    S = P("sourcecode")
    for o in c.paths(fi, inline=helpers(c, fi)):
        w, f, v = at(c, fi, o), o.state.facts, o.value
        if o.kind != "return":
            c.require(f"{key}:raises", None, w, "")
            continue
        t = truth(S, f)
        has = f.get(("isnone", S))
        shown = contains(v, S)
        c.require(f"{key}:file", True if contains(v, P("filename")) else False if v[0] in ("fstr", "const", "op", "join") else None, w, "the file is not in the report")
        ln = [x for x in subterms(v) if isinstance(x, tuple) and is_call(x, U + "get_lineno")]
        direct = contains(v, attr(P("tree"), "lineno")) or any(isinstance(x, tuple) and x and x[0] == "getattr" and x[1] == P("tree") for x in subterms(v))
        c.require(f"{key}:line", True if any(argof(x, "tree", 0) == P("tree") for x in ln) else False if direct or not contains(v, P("tree")) and v[0] in ("fstr", "const", "op") else None, w,
                  "the line number reported is not the one that the search finds in the construct")
        if t is False or has is True:
            c.require(f"{key}:none", not shown or None, w, "code that was not given is shown")
            if NONE in parts(v):
                c.bad(f"{key}:none", w, "code that was not given is shown")
        else:
            c.require(f"{key}:code", True if shown else False if t or has is False else None, w, "the code is not in the report")
            if t is None and has is None and shown and not any(contains(k, S) and k != S for k in f):
                c.bad(f"{key}:none", w, "code that was not given is shown")
            elif t is None and has is None and not any(k == S or k == ("isnone", S) for k in f):
                tests = [e for e in o.state.trace if e.kind == "assume" and e.a[0] in ("cmp", "in") or e.kind == "call" and contains(e.c, S)]
                c.require(f"{key}:none", False if tests else None, w, "code that was not given is looked into")
        if t is False:
            for e in o.state.trace:
                if e.kind == "assume" and isinstance(e.a, tuple) and e.a != S and e.a[0] in ("cmp", "in", "contains") and contains(e.a, S) and has is None:
                    first = next((x for x in o.state.trace if x.kind == "assume" and x.a == S), None)
                    if first is not None and o.state.trace.index(e) < o.state.trace.index(first):
                        c.bad(f"{key}:none", w, "code that was not given is looked into")


def macro(c, fi):
    key = "C38:macro"
    F = P("function")
    n = 0
    for o in c.paths(fi, inline=helpers(c, fi)):
        w, f, v = at(c, fi, o), o.state.facts, o.value
        if o.kind != "return":
            c.require(f"{key}:raises", None, w, "")
            continue
        n += 1
        used = {x[2] for x in subterms(v) if isinstance(x, tuple) and x and x[0] == "attr" and x[1] == F}
        used |= {k[2] for k in f if isinstance(k, tuple) and k and k[0] == "attr" and k[1] == F}
        for a in sorted(used):
            known = f.get(("hasattr", F, a))
            guarded = any(isinstance(x, ast.Try) for x in ast.walk(fi.node)) or any(isinstance(k, tuple) and k and k[0] in ("isinst", "call") and contains(k, F) for k in f)
            c.require(f"{key}:has:{a}", True if known else False if known is False or not guarded else None, w, f"{a} of a bound value that may not have it is used")
        if truth(attr(F, "__module__"), f) is False or f.get(("isnone", attr(F, "__module__"))) is True:
            c.require(f"{key}:nomodule", True if attr(F, "__qualname__") == v else False if contains(v, attr(F, "__module__")) else None, w, "the missing module of a macro is in its name")
        elif f.get(("hasattr", F, "__module__")) is False or f.get(("hasattr", F, "__qualname__")) is False:
            c.require(f"{key}:repr", True if is_call(v, "builtins.repr", "builtins.str") and argof(v, 0) == F or v[0] == "fstr" and contains(v, F) else False if v == NONE or v[0] == "const" or any(x in used for x in ("__name__", "__module__", "__qualname__")) else None, w,
                      "a value that is no function is not described")
        elif used and f.get(attr(F, "__qualname__")) is not False:
            want = [attr(F, "__module__"), const("."), attr(F, "__qualname__")]
            got = parts(v)
            if truth(attr(F, "__module__"), f) is None and f.get(("isnone", attr(F, "__module__"))) is None and got == want:
                c.require(f"{key}:nomodule", False if not any(isinstance(k, tuple) and k and k[0] not in ("hasattr",) for k in f) else None, w, "the missing module of a macro is in its name")
            c.require(f"{key}:name", True if got == want else False if "__qualname__" not in used or "__module__" not in used or [x for x in got if x[0] == "attr"] != [want[0], want[2]] else None, w, f"a macro is named {show(v)[:60]}")
        else:
            c.unknown(f"{key}:name", w, show(v)[:60])
    c.require(f"{key}:some", n > 0 or None, c.where(fi), "")


def context(c, fi):
    key = "C38:context"
    N = P("n")
    for o in c.paths(fi, inline=helpers(c, fi)):
        w, f, v = at(c, fi, o), o.state.facts, o.value
        if o.kind != "return":
            c.require(f"{key}:raises", None, w, "")
            continue
        texts = [x for x in subterms(v) if isinstance(x, tuple) and is_call(x, UN + "unparse_with_fallbacks", UN + "unparse")]
        for t in texts:
            c.require(f"{key}:tolerant", is_call(t, UN + "unparse_with_fallbacks"), w, "code that cannot be unparsed makes the report fail")
            c.require(f"{key}:tree", True if argof(t, "tree", 0) == P("tree") else None, w, "")
        if not texts:
            c.unknown(f"{key}:code", w, show(v)[:80])
            continue
        lines = [x for x in subterms(v) if isinstance(x, tuple) and x and (x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("split", "splitlines"))]
        L = lines[0] if lines else None
        cut = [x for x in subterms(v) if isinstance(x, tuple) and len(x) == 3 and x[0] == "sub" and x[1] == L and x[2][0] == "slice"]
        if L is None:
            c.unknown(f"{key}:lines", w, show(v)[:80])
            continue
        dots = any(isinstance(x, tuple) and x and x[0] == "const" and isinstance(x[-1], str) and "..." in x[-1] for x in subterms(v))
        more = None
        for k, b in f.items():
            m = compare(k, L, N)
            if m is not None:
                more = (m if b else {"gt": "le", "le": "gt", "ge": "lt", "lt": "ge"}[m])
        for x in cut:
            lo, hi, st = x[2][1], x[2][2], x[2][3] if len(x[2]) > 3 else NONE
            good = lo in (NONE, const(0)) and hi == N and st in (NONE, const(1))
            c.require(f"{key}:first", True if good else False if hi != N or lo not in (NONE, const(0)) else None, w, f"the lines shown are {show(x[2])[:40]}")
        if not cut:
            c.require(f"{key}:first", True if more in ("le", "lt") else False if more == "gt" and any(contains(x, L) for x in [v]) and not any(isinstance(x, tuple) and x and x[0] in ("rep", "call") and contains(x, L) and x != L for x in subterms(v)) else None, w, "all lines are shown")
        if more is None:
            other = [k for k in f if isinstance(k, tuple) and k and k[0] == "cmp" and any(is_call(x, "builtins.len") and argof(x, 0) == L for x in k[1:] if isinstance(x, tuple)) and any(isinstance(x, tuple) and x and x[0] == "const" for x in k[1:])]
            c.require(f"{key}:mark", False if dots and not f or other else None, w, "the mark for missing lines is there though nothing is missing")
        elif more == "gt":
            somewhere = [e for e in o.state.trace if e.kind in ("listop", "call", "setitem", "augassign") and any(isinstance(x, tuple) and x and x[0] == "const" and isinstance(x[-1], str) and "..." in x[-1] for y in (e.a, e.b, e.c) if isinstance(y, tuple) for x in subterms(y))]
            c.require(f"{key}:mark", True if dots else None if somewhere else False, w, "lines are missing and there is no mark for them")
        elif more in ("le", "lt"):
            if more == "lt" and not dots or more == "le":
                c.require(f"{key}:mark", not dots, w, "the mark for missing lines is there though nothing is missing")
        elif more == "ge":
            c.require(f"{key}:mark", False if dots else None, w, "the mark for missing lines is there though nothing is missing")


def compare(k, L, N):
    if not (isinstance(k, tuple) and len(k) == 4 and k[0] == "cmp"):
        return None
    op, a, b = None, None, None
    for x in k[1:]:
        if isinstance(x, str):
            op = x
        elif a is None:
            a = x
        else:
            b = x
    length = lambda t: is_call(t, "builtins.len") and argof(t, 0) == L
    table = {"Gt": "gt", "GtE": "ge", "Lt": "lt", "LtE": "le"}
    flip = {"gt": "lt", "ge": "le", "lt": "gt", "le": "ge"}
    if op not in table:
        return None
    if length(a) and b == N:
        return table[op]
    if a == N and length(b):
        return flip[table[op]]
    return None


# ---- where the strict unparser's text goes

DISPLAY = ("builtins.print", "mcpyrate.colorizer.colorize", "warnings.warn")


def strict(c, ix):
    n = 0
    for fi in sorted(ix.funcs.values(), key=lambda f: f.qualname):
        if fi.module.name == "mcpyrate.unparser":
            continue
        inner = {id(y) for x in ast.walk(fi.node) if x is not fi.node and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) for y in ast.walk(x)}
        body = [x for x in ast.walk(fi.node) if id(x) not in inner]
        makers = set()   # local names of partial applications of the strict unparser
        tainted = set()
        def uses(e):
            for x in ast.walk(e):
                if isinstance(x, ast.Call):
                    if is_strict(c, fi, x.func) or isinstance(x.func, ast.Name) and x.func.id in makers:
                        return True
                    if ix.resolve_expr(fi.module, x.func) in ("builtins.map", "map") and x.args and (is_strict(c, fi, x.args[0]) or isinstance(x.args[0], ast.Name) and x.args[0].id in makers):
                        return True
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in tainted:
                    return True
            return False
        changed = True
        while changed:
            changed = False
            for x in body:
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and x.value is not None:
                    tg = x.targets if isinstance(x, ast.Assign) else [x.target]
                    names = {y.id for t in tg for y in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, (ast.Tuple, ast.List)) else []) if isinstance(y, ast.Name)}
                    v = x.value
                    alts = [v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]
                    if any(is_strict(c, fi, a) or isinstance(a, ast.Call) and ix.resolve_expr(fi.module, a.func) == "functools.partial" and a.args and is_strict(c, fi, a.args[0]) for a in alts):
                        if names - makers:
                            makers |= names
                            changed = True
                    elif uses(v) and names - tainted and textual(v):
                        tainted |= names
                        changed = True
        for x in body:
            what = None
            if isinstance(x, ast.Raise):
                what, es = "an exception", [y for y in (x.exc,) if y]
            elif isinstance(x, ast.Call):
                q = ix.resolve_expr(fi.module, x.func)
                name = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
                if q in DISPLAY or name in ("print", "warn", "showsyntaxerror") or name == "write" and isinstance(x.func, ast.Attribute) and not fi.module.name.endswith("unparser"):
                    what, es = "a display", x.args + [k.value for k in x.keywords]
                elif q in (U + "format_location",):
                    what, es = "a location report", x.args[1:] + [k.value for k in x.keywords if k.arg == "sourcecode"]
                else:
                    es = [k.value for k in x.keywords if k.arg == "sourcecode"]
                    what = "the source code for error reports" if es else None
            if what is None:
                continue
            if any(isinstance(y, ast.Name) and y.id in ("print",) for e in es for y in ()):
                continue
            n += 1
            if any(uses(e) for e in es):
                c.bad("C38:strict", f"{fi.file}:{x.lineno}", f"text of the unparser that fails for malformed trees goes into {what}")
            else:
                c.ok("C38:strict", f"{fi.file}:{x.lineno}")
    # the return value of a maker that is passed on
    c.require("C38:strict:some", n > 0 or None, "mcpyrate", "")


def textual(v):
    """may the value be (part of) the text?"""
    if isinstance(v, ast.Call):
        f = v.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "ast":
            return False
        if isinstance(f, ast.Name) and f.id in ("len", "compile", "hash"):
            return False
    return not isinstance(v, (ast.Compare,))
