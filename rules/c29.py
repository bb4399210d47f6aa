"""Both interactive consoles treat macro input alike.

Rule: one set of conditions is applied to the input handlers of both consoles, on every path and with every stage (parsing, macro-import,
expansion, postprocessing, compilation) succeeding or raising. Before macro-imports are looked up, the stand-in module of the session has
been emptied, filled with the names of the session and then with its own metadata; the lookup reloads modules and knows the stand-in; bindings
that were found are merged into those of the one expander of the session and noted, before the input is expanded with that expander;
what is expanded and postprocessed is what is run. A path on which a stage raised ends as the console's way of refusing input, reports
the error and runs nothing. When bindings were noted, every bound macro is imported into the session under its bound name.
"""
import ast
import textwrap

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, call_events, returns, truth, where_of
from lib.shape import P

CON = "mcpyrate.repl.console.MacroConsole"
TRA = "mcpyrate.repl.iconsole.InteractiveMacroTransformer"
EXT = "mcpyrate.repl.iconsole.IMcpyrateExtension"
SM = ref("sys.modules")
S = P("self")
FM, GP = "mcpyrate.expander.find_macros", "mcpyrate.core.global_postprocess"


def meth(t, *names):
    return t[1][1] if t is not None and t[0] == "call" and t[1][0] in ("attr", "bound") and _last(t[1][2]) in names else None


def _last(x):
    return x.rsplit(".", 1)[-1] if isinstance(x, str) else x


def stages(t, interp=None, state=None):
    return t[0] == "call" and (is_call(t, FM, GP, "ast.parse", "builtins.compile") or meth(t, "visit") is not None and meth(t, "visit") != S)


def check(c):
    ix = c.ix
    flags = {}
    for name, cls, m, exp, ses in (("console", CON, "_refresh_macro_functions", attr(S, "expander"), attr(S, "locals")),
                              ("iconsole", EXT, "_refresh_macro_functions", attr(attr(S, "macro_transformer"), "expander"), attr(attr(S, "shell"), "user_ns"))):
        with c.section(f"C29:{name}:objects"):
            flags[name] = refresh(c, name, cls, find(ix, cls, m), exp, ses)
    with c.section("C29:console:input"):
        handler(c, "console", ix.find_method(CON, "runsource"), CON, attr(S, "expander"), attr(S, "locals"), attr(S, "magic_module_metadata"), flags.get("console"))
    with c.section("C29:iconsole:input"):
        x = attr(S, "_ipyextension")
        handler(c, "iconsole", ix.find_method(TRA, "visit"), TRA, attr(S, "expander"), attr(attr(x, "shell"), "user_ns"), attr(x, "magic_module_metadata"), flags.get("iconsole"))
    with c.section("C29:console:start"):
        start(c, "console", ix.find_method(CON, "__init__"), CON)
    with c.section("C29:iconsole:start"):
        start(c, "iconsole", ix.find_method(EXT, "__init__"), EXT)
        ini = ix.find_method(TRA, "__init__")
        for o in returns(c.paths(ini, selfcls=TRA)):
            v = o.state.heap.get((S, "expander"))
            c.require("C29:iconsole:start:expander", True if v is not None and is_call(v, "MacroExpander") else False if v is None else None, at(c, ini, o), "the session has no expander")
    with c.section("C29:macro"):
        declare(c, ix.func("mcpyrate.repl.utils.get_makemacro_sourcecode"))
    c.floor(30)


def declare(c, fi):
    """the function that makes a function of the session a macro"""
    text = [x.value for x in ast.walk(fi.node) if isinstance(x, ast.Constant) and isinstance(x.value, str) and "def macro(" in x.value]
    if len(text) != 1:
        c.unknown("C29:macro", c.where(fi), "the text of the function is not found")
        return
    m = c.ix.add_source("_client29", textwrap.dedent(text[0]))
    g = m.functions["macro"]
    F = P(g.params()[0])
    n = 0
    for o in returns(c.paths(g)):
        tr, w = o.state.trace, c.where(fi)
        n += 1
        c.require("C29:macro:result", o.value == F, w, f"`macro` used as a decorator gives {show(o.value)[:50]}")
        put = [(e.b, e.c) for e in tr if e.kind == "setitem" and e.a[0] == "attr" and e.a[2] in ("bindings", "local_bindings")]
        late = [e for e in tr if e.kind == "call" and meth(e.c, "setdefault") is not None]
        for e in late:
            c.bad("C29:macro:bound", w, "a macro that is defined again keeps its old definition")
        if not put and not late:
            c.require("C29:macro:bound", None if any(e.kind == "call" and meth(e.c, "update") is not None for e in tr) else False, w, "the function does not become a macro of the session")
        for k, v in put:
            c.require("C29:macro:bound", k == attr(F, "__name__") and v == F, w, f"{show(v)[:40]} becomes the macro {show(k)[:40]}")
    c.require("C29:macro:exercised", n > 0 or None, c.where(fi), "")


def find(ix, cls, name):
    return ix.find_method(cls, name)


def _whole(t, e, st):
    """the value with what is known of its elements"""
    if isinstance(t, tuple) and t and t[0] == "new":
        return (t, st.heap.get((t, "#"), ()))
    return t if isinstance(t, tuple) else ()


def handler(c, name, fi, cls, E, session, meta, flag):
    K = f"C29:{name}:"
    B = {attr(E, "bindings"), attr(E, "local_bindings")}
    owner = S if name == "console" else attr(S, "_ipyextension")
    n = 0
    for o in c.paths(fi, selfcls=cls, may_raise=stages, max_paths=60000):
        tr, f, w = o.state.trace, o.state.facts, at(c, fi, o)
        for e in tr:
            if e.kind == "call" and meth(e.c, "clear", "pop", "popitem") in B or e.kind == "delitem" and e.a in B:
                c.bad(K + "keep", where_of(e, w), "earlier bindings are dropped")
            if e.kind == "setattr" and e.a == E and e.b in ("bindings", "local_bindings"):
                c.require(K + "keep", None if any(contains(e.c, b) for b in B) else False, where_of(e, w), "earlier bindings are replaced")
            if e.kind == "setattr" and e.a == S and e.b == "expander":
                c.require(K + "keep", None if contains(e.c, E) else False, where_of(e, w), "the session gets another expander")
        fm = [(i, e) for i, e in enumerate(tr) if e.kind in ("call", "callraise") and is_call(e.c if e.kind == "call" else e.c, FM)]
        failed = [e for e in tr if e.kind == "callraise"]
        vis = [(i, e) for i, e in enumerate(tr) if e.kind in ("call", "callraise") and meth(e.c, "visit", "visit_recursively", "visit_once") == E]
        gps = [(i, e) for i, e in enumerate(tr) if e.kind in ("call", "callraise") and is_call(e.c, GP)]
        if not fm and not vis and not gps:
            continue
        n += 1
        # macro-imports
        if not fm:
            if not failed:
                c.bad(K + "imports", w, "macro-imports are not looked up")
        for i, e in fm:
            ww = where_of(e, w)
            c.require(K + "reload", argof(e, "reload") == TRUE or (False if argof(e, "reload") in (None, FALSE, NONE) or contains(argof(e, "reload"), S) else None), ww, "macro modules are not reloaded")
            sm = argof(e, "self_module")
            c.require(K + "self", sm not in (None, NONE), ww, "the session itself is unknown to the lookup of macro-imports")
            up = []
            for j, x in enumerate(tr[:i]):
                if x.kind == "call" and meth(x.c, "clear", "update") is not None and contains(meth(x.c, "clear", "update"), SM):
                    up.append((_last(x.c[1][2]), argof(x.c, 0)))
                elif x.kind == "augassign" and contains(x.a, SM):
                    up.append(("?", None))
                elif x.kind == "setitem" and (x.a == SM or contains(x.a, SM)):
                    up.append(("?", None))
                elif x.kind == "call" and is_call(x.c, "create_module"):
                    up.append(("?", None))
            k = [("c" if a == "clear" else "s" if b == session else "m" if b == meta else "?") for a, b in up]
            if "?" in k:
                c.unknown(K + "session", ww, "")
            else:
                s = "".join(k)
                good = "c" in s and "s" in s and "m" in s and s.index("c") < s.index("s") and s.rindex("c") < s.index("s") and s.rindex("m") > s.rindex("s")
                c.require(K + "session", good, ww, "the module that stands for the session does not have the session's names (and its own metadata)" if s else "macros of the session cannot be imported")
        # merging
        if fm and fm[-1][1].kind == "call":
            i, e = fm[-1]
            R = e.c
            found = truth(R, f)
            upd = [(j, x) for j, x in enumerate(tr) if j > i and (x.kind == "call" and meth(x.c, "update") in B and argof(x.c, 0) == R or x.kind == "augassign" and x.a in B)]
            loops = any(x.kind == "loop" and contains(x.a, R) for x in tr)
            anyset = any(x.kind in ("setitem",) and x.a in B or x.kind == "setattr" and x.a == E for x in tr[i:])
            if found is not False:
                older = [x for x in tr[i:] if x.kind == "assume" and isinstance(x.a, tuple) and x.a[0] == "cmp" and x.a[1] in ("In", "NotIn") and x.a[3] in B or x.kind == "call" and meth(x.c, "setdefault") is not None and meth(x.c, "setdefault") in B
                         or x.kind == "call" and meth(x.c, "update") in B and any(isinstance(y, tuple) and len(y) == 4 and y[0] == "cmp" and y[1] == "In" and y[3] in B for y in subterms(_whole(argof(x.c, 0), x, o.state)))]
                if not upd and older:
                    c.bad(K + "merge", where_of(older[0], w), "a macro that is imported again under the same name stays the one that was there before")
                c.require(K + "merge", True if upd and (not vis or upd[0][0] < vis[0][0]) else None if loops or anyset else False, where_of(e, w), "bindings that were found are not merged before the input is expanded")
                if flag:
                    fs = [x for x in tr[i:] if x.kind == "setattr" and x.b == flag and x.a == owner]
                    c.require(K + "noted", True if fs and fs[-1].c in (TRUE, R) else False if not fs or fs[-1].c == FALSE or _difference(fs[-1].c, o.state, set(B) | {R}) else None, where_of(e, w), "new bindings are not noted")
            elif flag:
                fs = [x for x in tr[i:] if x.kind == "setattr" and x.b == flag and x.c == FALSE]
                ref_ = [x for x in tr if x.kind == "loop"]
                c.require(K + "noted", not fs or bool(ref_) or None, where_of(e, w), "")
        # expansion
        T = argof(fm[-1][1], "tree", 0) if fm else None
        for i, e in vis:
            ww = where_of(e, w)
            a = argof(e, "tree", 0)
            c.require(K + "expand", True if a == T else None, ww, "")
            c.require(K + "order", bool(fm) and fm[0][0] < i or (None if failed else False), ww, "the input is expanded before its macro-imports are looked up")
        for i, e in gps:
            a = argof(e, "tree", 0)
            c.require(K + "postprocess", True if a is not None and any(contains(a, x.c) for _, x in vis) else False if a is not None and a == T else None, where_of(e, w), "something else than the expansion is postprocessed")
        # the end
        run = [(i, e) for i, e in enumerate(tr) if e.kind in ("call", "callraise") and meth(e.c, "runcode") == S]
        swallowed = failed and all(is_call(e.c, "ast.parse", "builtins.compile") and not (fm or vis) for e in failed)
        if failed and not swallowed:
            e = failed[-1]
            st = show(e.c)[:60]
            if o.kind == "raise":
                good = name == "iconsole" and (is_call(o.value, "IPython.core.error.InputRejected") or "InputRejected" in show(o.value)[:60])
                c.require(K + "refused", good, where_of(e, w), f"an error in {st} ends the session" if name == "console" else f"an error in {st} is not reported as refused input")
            else:
                c.require(K + "refused", False if name == "iconsole" or o.value == TRUE else True if o.value == FALSE or o.value == NONE else None, where_of(e, w), f"an input that fails in {st} is not refused")
                if name == "console":
                    later = [x for x in tr[tr.index(e):] if x.kind == "call" and (meth(x.c, "showsyntaxerror", "showtraceback", "write") == S or is_call(x.c, "builtins.print", "traceback.print_exc", ".write"))]
                    c.require(K + "reported", bool(later), where_of(e, w), f"an error in {st} is not reported")
            c.require(K + "not-run", not run, where_of(e, w), f"an input that fails in {st} is run")
        elif not failed:
            if name == "console":
                c.require(K + "run", len(run) == 1 or (None if o.kind != "return" else False), w, f"the input is run {len(run)} times")
                for i, e in run:
                    code = argof(e, 0, "code")
                    src = argof(code, 0, "source") if is_call(code, "builtins.compile") else None
                    c.require(K + "run", True if src is not None and gps and contains(src, gps[-1][1].c) else False if not gps or src is not None and not contains(src, vis[-1][1].c if vis else S) and src in (T, P("source")) else False if src is not None and vis and contains(src, vis[-1][1].c) and not contains(src, gps[-1][1].c) else None, where_of(e, w), "what is run is not the finished expansion")
                    if fm and truth(fm[-1][1].c, f) is not False:
                        rf = [x for x in tr[i:] if x.kind == "call" and "refresh" in str(x.c[1][-1]) or x.kind == "loop"]
                        fl = any(isinstance(k, tuple) and flag and contains(k, attr(S, flag)) for k in f)
                        c.require(K + "objects", True if rf else None if fl else False, where_of(e, w), "the macros do not become available as run-time objects")
            elif o.kind == "return":
                c.require(K + "run", True if gps and (o.value == gps[-1][1].c) else False if o.value == T or vis and o.value == vis[-1][1].c else None, w, f"gives {show(o.value)[:60]}")
    c.require(K + "exercised", n > 0 or None, c.where(fi), "")


def refresh(c, name, cls, fi, E, session):
    """name of the flag that tells whether there is anything to do"""
    K = f"C29:{name}:objects"
    B = attr(E, "bindings")
    its = []
    flag = None
    outs = c.paths(fi, selfcls=cls, iters=its, inline=[], max_paths=20000, may_raise=lambda t, i=None, s=None: t[0] == "call" and meth(t, "_internal_execute", "run_cell") is not None)
    for o in outs:
        for k, b in o.state.facts.items():
            if isinstance(k, tuple) and k[0] == "attr" and k[1] == S and b is False and not any(e.kind == "loop" for e in o.state.trace):
                flag = k[2]
    for o in outs:
        if flag and truth(attr(S, flag), o.state.facts) is False:
            c.require(K + ":flag", not any(e.kind == "loop" for e in o.state.trace), at(c, fi, o), "")
            continue
        if flag:
            v = o.state.heap.get((S, flag))
            c.require(K + ":flag", v == FALSE or (None if o.kind != "return" else None if v is None else False), at(c, fi, o), "")
    n = 0
    for it, serial, k, st, fid in its:
        if not contains(it, B) and not any(contains(it, x) for x in (attr(E, "local_bindings"),)):
            continue
        n += 1
        tr, f = st.trace, st.facts
        lo = max(i for i, e in enumerate(tr) if e.kind == "loop" and e.b == serial)
        body = tr[lo:]
        w = where_of(tr[lo], c.where(fi))
        ex = [e for e in body if e.kind in ("call", "callraise") and meth(e.c, "_internal_execute", "run_cell") is not None or e.kind in ("call", "callraise") and callee(e.a) == "functools.partial()" or e.kind in ("call", "callraise") and executes(e.c)]
        if k in ("break", "return"):
            c.bad(K + ":all", w, "only some of the macros become available")
        key, val = ("key", B, serial), ("val", B, serial)
        put = [e for e in body if e.kind == "setitem" and e.a == session]
        put += [e for e in body if e.kind == "call" and meth(e.c, "push", "update", "setdefault") is not None and contains(e.c, val)]
        if ex and not put:
            for e in ex:
                src = flatten(argof(e.c, "source", "raw_cell", 0))
                text = [y for x in src for y in subterms(x) if isinstance(y, tuple) and y and y[0] == "attr" and y[2] in ("__qualname__", "__name__")]
                c.require(K + ":import", False if text else None, where_of(e, w), "a macro whose qualified name cannot be imported does not become available")
            continue
        if not put:
            # skipped: only if it has no module or name
            test = any(b is False and isinstance(x, tuple) and (x[0] == "hasattr" and x[2] in ("__module__", "__qualname__") or x[0] == "attr" and x[2] in ("__module__", "__qualname__")) for x, b in f.items())
            there = any(b and isinstance(x, tuple) and x[0] in ("cmp", "in") and x[-1] == session and key in x for x, b in f.items())
            c.require(K + ":all", True if test else False if there else None, w, "a macro is left out")
            continue
        for e in put:
            if e.kind == "call" and meth(e.c, "setdefault") == session:
                c.bad(K + ":bound", where_of(e, w), "an object of that name that is there already stays")
                continue
            if e.kind != "setitem":
                c.unknown(K + ":bound", where_of(e, w), "")
                continue
            c.require(K + ":name", True if e.b == key else False if e.b[0] == "attr" and e.b[1] == val or e.b[0] == "const" else None, where_of(e, w), f"the macro becomes available as {show(e.b)[:50]}")
            c.require(K + ":bound", True if e.c == val else False if e.c[0] == "attr" and e.c[1] == val or e.c[0] == "const" else None, where_of(e, w), f"what becomes available is {show(e.c)[:50]}")
    c.require(K + ":exercised", n > 0 or (False if all(not any(e.kind == "loop" for e in o.state.trace) for o in outs) and all(not e for e in [any(x.kind == "call" for x in o.state.trace) for o in outs]) else None), c.where(fi), "macros never become available as run-time objects")
    return flag


def executes(t):
    """a call of a partial application of the shell's run_cell"""
    return t[0] == "call" and (is_call(t[1], "functools.partial") and any(isinstance(x, tuple) and x and x[0] in ("attr",) and x[2] == "run_cell" for x in subterms(t[1])))


def flatten(t):
    """the pieces of a string expression"""
    if t is None:
        return []
    if t[0] == "fstr":
        return [y for x in t[1] for y in flatten(x)]
    if t[0] == "op" and t[1] == "Add":
        return flatten(t[2]) + flatten(t[3])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and t[1][1][0] == "const":
        x = argof(t, 0)
        if x[0] in ("list", "tuple"):
            out = []
            for i, y in enumerate(x[1]):
                out += ([t[1][1]] if i else []) + flatten(y)
            return out
    return [t]


def start(c, name, fi, cls):
    K = f"C29:{name}:start"
    for o in returns(c.paths(fi, selfcls=cls)):
        tr, w = o.state.trace, at(c, fi, o)
        made = [(i, e) for i, e in enumerate(tr) if e.kind == "call" and is_call(e.c, "create_module")]
        c.require(K + ":module", len(made) == 1 or (None if made else False), w, "no module stands for the session")
        for i, e in made:
            M = e.c
            meta = [x for x in tr if x.kind == "setattr" and contains(x.c, attr(M, "__dict__"))]
            v = meta[0].c if meta else None
            c.require(K + ":metadata", True if is_call(v, "copy.copy", "copy.deepcopy", "builtins.dict", ".copy") else False if v == attr(M, "__dict__") else None, where_of(e, w), "the metadata of the module that stands for the session is emptied with it")
        ns = [e for e in tr if e.kind == "setitem" and e.b == const("__macro_expander__")]
        c.require(K + ":expander", bool(ns) or None, w, "")
        if name == "iconsole":
            reg = [e for e in tr if e.kind == "call" and (meth(e.c, "append", "insert") is not None) and "ast_transformers" in show(meth(e.c, "append", "insert"))]
            lst = [e for e in tr if e.kind == "listop" or e.kind == "watch"]
            c.require(K + ":transformer", True if reg else None, w, "")
            ev = [e for e in tr if e.kind == "call" and meth(e.c, "register") is not None]
            c.require(K + ":objects", True if ev and any(argof(e.c, 0) == const("post_run_cell") or argof(e.c, "event") == const("post_run_cell") for e in ev) else False if not ev else None, w, "macros never become available as run-time objects")


def _difference(t, st, B, depth=0):
    """is t about what one of the terms of B has beyond something else?"""
    if depth > 6:
        return False
    for x in subterms(t):
        if not isinstance(x, tuple) or len(x) < 3:
            continue
        if x[0] == "op" and x[1] == "Sub":
            sides = [x[2]] + [y for y in st.heap.get((x[2], "#")) or () if isinstance(y, tuple)]
            if any(contains(y, b) for y in sides for b in B):
                return True
        if x[0] == "new":
            if any(_difference(y, st, B, depth + 1) for y in st.heap.get((x, "#")) or () if isinstance(y, tuple)):
                return True
    return False
