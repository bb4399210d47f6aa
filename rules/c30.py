"""The command-line runner imports the program as the main module.

Rule: all paths of running a module as main (with the execution of its code succeeding or raising) and of the command line are
enumerated. The name of the spec and of its loader is set to that of the main module before the module is made; its package is empty for a
script, the parent for a module in a package, the package itself for a package; the module replaces the main module before its
code runs, and if that raises, the main module read before the replacement is put back and the error goes on. The command line puts
the directory of the script (or the current one) first on the search path, unless it is first already, before the name of the module is
computed and run. The modules of the runner and of the consoles load the import hooks when they are imported.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, call_events, returns, truth, where_of
from lib.shape import P

MP = "mcpyrate.repl.macropython."
SM, MAIN = ref("sys.modules"), const("__main__")


def runs(t, interp=None, state=None):
    return t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("exec_module", "load_module")


def check(c):
    ix = c.ix
    with c.section("C30:module"):
        as_main(c, ix.func(MP + "import_module_as_main"))
    with c.section("C30:main"):
        main(c, ix.func(MP + "main"))
    with c.section("C30:activate"):
        for m in ("mcpyrate.repl.macropython", "mcpyrate.repl.console", "mcpyrate.repl.iconsole"):
            seen = reach(ix, m)
            c.require("C30:activate", "mcpyrate.activate" in seen or (None if late(ix, m) else False), ix.modules[m].relpath, f"{m} does not enable the macro expander when it is imported")
    c.floor(20)


def imported(ix, name):
    """modules of the package imported at module level by a module (executed when it is imported)"""
    m = ix.modules[name]
    out = set()

    def go(body):
        for st in body:
            if isinstance(st, ast.Import):
                out.update(a.name for a in st.names)
            elif isinstance(st, ast.ImportFrom):
                pk = name.split(".") if m.ispkg else name.split(".")[:-1]
                if st.level:
                    pk = pk[:len(pk) - st.level + 1]
                    base = ".".join(pk + ([st.module] if st.module else []))
                else:
                    base = st.module
                out.add(base)
                out.update(f"{base}.{a.name}" for a in st.names)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and "__main__" in ast.dump(st.test):
                    continue
                for f in ("body", "orelse", "finalbody"):
                    go(getattr(st, f, []) or [])
    go(m.tree.body)
    return {x for x in out if x in ix.modules}


def reach(ix, name):
    seen, todo = set(), [name]
    while todo:
        n = todo.pop()
        for x in imported(ix, n):
            if x not in seen and x != "mcpyrate":
                seen.add(x)
                todo.append(x)
    return seen


def late(ix, name):
    """the hooks are enabled inside a function"""
    return any(isinstance(n, (ast.Name, ast.Attribute, ast.alias)) and "activate" in ast.dump(n) for n in ast.walk(ix.modules[name].tree))


def as_main(c, fi):
    N, SC = P("name"), P("script_mode")
    n = 0
    for o in c.paths(fi, may_raise=runs, reads=True, max_paths=60000):
        tr, f, w = o.state.trace, o.state.facts, at(c, fi, o)
        ex = [(i, e) for i, e in enumerate(tr) if e.kind in ("call", "callraise") and runs(e.c)]
        sets = [(i, e) for i, e in enumerate(tr) if e.kind == "setitem" and e.a == SM]
        gets = [(i, e) for i, e in enumerate(tr) if e.kind == "getitem" and e.a == SM and e.b == MAIN or e.kind == "call" and is_call(e.c, "sys.modules.get") and argof(e.c, 0) == MAIN]
        mods = [(i, e) for i, e in enumerate(tr) if e.kind == "call" and is_call(e.c, "importlib.util.module_from_spec", "types.ModuleType")]
        if not mods:
            continue
        mi, M = mods[-1][0], mods[-1][1].c
        spec = argof(M, "spec", 0)
        if not is_call(M, "importlib.util.module_from_spec"):
            c.unknown("C30:module:made", w, "")
            continue
        n += 1
        # names
        names = [(i, e) for i, e in enumerate(tr) if e.kind == "setattr" and e.b == "name"]
        for what, obj in (("spec", spec), ("loader", attr(spec, "loader"))):
            if what == "loader" and truth(obj, f) is not True:
                continue
            mine = [(i, e) for i, e in names if e.a == obj]
            late_ = [i for i, e in mine if i > mi]
            mod = any(e.kind == "setattr" and e.a == M and e.b == "__name__" and e.c == MAIN for e in tr)
            c.require("C30:module:name", True if mine and mine[-1][1].c == MAIN and not (late_ and what == "spec" and not mod) else False if not mine and not (what == "spec" and mod) or mine and mine[-1][1].c[0] == "const" or late_ and not mod else None, w, f"the {what} of the program does not carry the name of the main module")
        # package
        sc = truth(SC, f)
        pk = [e for e in tr if e.kind == "setattr" and e.a == M and e.b == "__package__"]
        v = pk[-1].c if pk else None
        dots = next((b for k, b in f.items() if isinstance(k, tuple) and k[0] == "cmp" and k[1] == "In" and k[2] == const(".")), None)
        if sc:
            c.require("C30:module:script-package", True if v == const("") or v == NONE else False, w, f"the package of a script is {show(v)[:60] if v else 'not set'}")
            c.require("C30:module:script-name", dots is False or (None if dots is None else False), w, "a script is looked up under a dotted name")
        elif sc is False and dots is True:
            par = [x for x in subterms(v) if isinstance(x, tuple) and x and x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("rpartition", "rsplit", "partition", "split")] if v else []
            falsy = [k for k, b in f.items() if isinstance(k, tuple) and k[0] == "attr" and k[2] == "submodule_search_locations" and b is False]
            if v is None and falsy:
                c.unknown("C30:module:package", w, "")
            else:
                good = v is not None and v[0] == "sub" and v[2] == const(0) and par and par[0][1][2] in ("rpartition", "rsplit")
                own = v is not None and is_call(v, "importlib.util.resolve_name")
                c.require("C30:module:package", True if good else None if own and falsy else False if v is None or v[0] in ("const", "param") or par or own else None, w, f"the package of a module in a package is {show(v)[:60] if v else 'not set'}")
        elif sc is False and dots is False:
            init = next((b for k, b in f.items() if isinstance(k, tuple) and k[0] == "call" and k[1][0] == "attr" and k[1][2] == "endswith" and "__init__.py" in str(k[2])), None)
            if init:
                c.require("C30:module:package", True if v is not None and (is_call(v, "importlib.util.resolve_name") or v == N) else False if v is None or v[0] == "const" else None, w, f"the package of a package is {show(v)[:60] if v else 'not set'}")
            else:
                c.require("C30:module:package", True if v is None or v in (NONE, const("")) else None, w, "")
        # replacing
        for i, e in ex:
            ww = where_of(e, w)
            before = [x for j, x in sets if j < i and x.b == MAIN]
            c.require("C30:module:main", bool(before) and before[-1].c == M, ww, "the code runs before the module is the main module")
            a = argof(e, 0, "module")
            c.require("C30:module:run", True if a == M else None, ww, "")
            si = next((j for j, x in sets if x.b == MAIN), None)
            if e.kind == "callraise":
                after = [x for j, x in sets if j > i and x.b == MAIN]
                early = [j for j, x in gets if si is not None and j < si]
                lateg = [j for j, x in gets if si is not None and j > si]
                if not after:
                    c.bad("C30:module:restore", ww, "after a failure the program stays the main module")
                else:
                    r = after[-1].c
                    orig = r == ("sub", SM, MAIN) or is_call(r, "sys.modules.get")
                    c.require("C30:module:restore", True if orig and early and not lateg else False if not orig and (r[0] in ("const", "free", "ref") or r == M or r[0] == "sub" and r[1] == SM and r[2][0] == "const") or lateg and not early else None, ww, f"after a failure the main module is {show(r)[:60]}")
                c.require("C30:module:error", o.kind == "raise", ww, "a failure of the program is hidden")
                if o.kind == "raise":
                    same = o.value == ("exc", e.c) or contains(o.value, ("exc", e.c))
                    c.require("C30:module:error", same or None, ww, f"a failure of the program becomes {show(o.value)[:60]}")
            else:
                last = [x for j, x in sets if x.b == MAIN]
                if o.kind == "return":
                    c.require("C30:module:stays", bool(last) and last[-1].c == M, ww, "after success the program is not the main module")
                    c.require("C30:module:result", True if o.value == M else None, ww, "")
        for e in tr:
            if e.kind in ("call", "callraise") and is_call(e.c, "import_module_as_main"):
                c.bad("C30:module:submodule", where_of(e, w), f"{show(argof(e, 'name', 0))[:60]} is run as the main module instead of being imported under its own name")
        if not ex:
            for j, x in sets:
                c.require("C30:module:main", x.c != M or None, where_of(x, w), "")
    c.require("C30:module:exercised", n > 0 or None, c.where(fi), "")


def cut(a, F):
    """only a part of the path F is left"""
    return any(x[0] == "attr" and x[2] in ("name", "stem", "suffix", "parent", "parts") and contains(x[1], F) or is_call(x, "os.path.basename") and contains(x, F)
               for x in subterms(a) if isinstance(x, tuple) and len(x) > 2)


def main(c, fi):
    n = 0
    seen = set()
    for o in c.paths(fi, max_paths=60000, reads=True):
        tr, f, w = o.state.trace, o.state.facts, at(c, fi, o)
        ends = [i for i, e in enumerate(tr) if e.kind == "call" and is_call(e.c, "sys.exit")]
        if ends:
            continue
        im = [(i, e) for i, e in enumerate(tr) if e.kind == "call" and is_call(e.c, "import_module_as_main")]
        opts = next((e.c for e in tr if e.kind == "call" and e.c[0] == "call" and e.c[1][0] == "attr" and e.c[1][2] in ("parse_args", "parse_known_args")), None)
        if opts is None:
            c.unknown("C30:main", w, "")
            continue
        if not im:
            inter = [e for e in tr if e.kind == "call" and e.c[0] == "call" and e.c[1][0] in ("attr", "bound") and str(e.c[1][2]).endswith("interact")]
            c.require("C30:main:something", bool(inter) or o.kind == "raise" or None, w, "")
            continue
        F, Mo = attr(opts, "filename"), attr(opts, "module")
        n += 1
        if len(im) > 1:
            c.bad("C30:main:once", w, "the program is run twice")
        i, e = im[0]
        ww = where_of(e, w)
        script = argof(e, "script_mode")
        name = argof(e, "name", 0)
        front = [(j, x) for j, x in enumerate(tr) if x.kind in ("call", "listop") and (x.kind == "call" and is_call(x.c, "sys.path.insert") or x.kind == "listop" and x.a == ref("sys.path"))]
        zero = [(j, argof(x.c, 1)) for j, x in front if x.kind == "call" and argof(x.c, 0) == const(0)]
        other = [x for j, x in front if not (x.kind == "call" and argof(x.c, 0)[0] == "const")]
        other += [x for x in tr if x.kind in ("setitem", "delitem") and x.a == ref("sys.path") or x.kind == "setattr" and x.a == ref("sys") and x.b == "path" or x.kind == "global"]
        already = [k[3] if k[2] == ("sub", ref("sys.path"), const(0)) else k[2] for k, b in f.items() if isinstance(k, tuple) and k[0] == "cmp" and (k[1] == "Eq" and b or k[1] == "NotEq" and not b) and ("sub", ref("sys.path"), const(0)) in (k[2], k[3])]
        first = zero[-1][1] if zero else already[-1] if already else None
        when = zero[-1][0] if zero else 0
        if other:
            c.unknown("C30:main:path", ww, "")
            first = None
        elif first is None:
            c.bad("C30:main:path", ww, "the search path does not begin with the directory of the program")
        isf, ism = truth(F, f), truth(Mo, f)
        if script == TRUE:
            c.require("C30:main:which", True if isf and ism is False else False if isf is False else None, ww, "a script is run though none is given")
            if first is not None:
                par = contains(first, F) and any(isinstance(x, tuple) and len(x) == 3 and x[0] == "attr" and x[2] == "parent" or is_call(x, "os.path.dirname") for x in subterms(first))
                cwd = not contains(first, F)
                absl = any(isinstance(x, tuple) and x and x[0] == "call" and (x[1][0] == "attr" and x[1][2] in ("resolve", "absolute") or is_call(x, "os.path.abspath", "os.path.realpath")) for x in subterms(first))
                text = first[0] == "call" and (is_call(first, "builtins.str", "os.fspath", "os.path.dirname"))
                c.require("C30:main:path", False if contains(first, const("__pypackages__")) else True if par and absl and text else False if cwd or first[0] == "const" else None, ww, f"the search path of a script begins with {show(first)[-60:]}")
            rel = [(j, x) for j, x in enumerate(tr) if x.kind == "call" and is_call(x.c, "relativize")]
            for j, x in rel:
                a = argof(x.c, "filename", 0)
                c.require("C30:main:relative", False if not contains(a, F) or cut(a, F) else True, where_of(x, ww), "something else than the script is looked up on the search path")
                c.require("C30:main:relative", j > when, where_of(x, ww), "the name of the script is computed before its directory is on the search path")
            if rel:
                part = [y for y in subterms(name) if isinstance(y, tuple) and y and y[0] == "sub" and y[1] == rel[-1][1].c]
                c.require("C30:main:name", True if part and all(y[2] == const(1) for y in part) else False if part else None, ww, "the name of the module is not that of the script relative to its directory")
            for y in subterms(name):
                if isinstance(y, tuple) and y and y[0] == "sub" and y[2][0] == "slice":
                    hi = y[2][2] if len(y[2]) > 2 else None
                    suf = [k[2][0][1][2] for k, b in f.items() if b and isinstance(k, tuple) and k[0] == "call" and k[1][0] == "attr" and k[1][2] == "endswith" and k[1][1] == y[1] and k[2] and k[2][0][1][0] == "const"]
                    if len(suf) == 1 and hi is not None and hi[0] == "const" and y[2][1] == NONE:
                        c.require("C30:main:suffix", -hi[2] == len(suf[0]), ww, f"{-hi[2]} characters are cut off for the suffix {suf[0]}")
                    else:
                        c.unknown("C30:main:suffix", ww, "")
        elif script == FALSE:
            c.require("C30:main:which", True if ism and isf is False else False if ism is False else None, ww, "a module is run though none is given")
            c.require("C30:main:name", True if name == Mo else None if contains(name, Mo) else False, ww, f"the module that is run is {show(name)[:50]}")
            if first is not None:
                cwd = any(is_call(x, "os.getcwd", "pathlib.Path.cwd") for x in subterms(first)) or first == const("")
                c.require("C30:main:path", False if contains(first, const("__pypackages__")) else True if cwd and not contains(first, F) and not any(isinstance(x, tuple) and len(x) == 3 and x[0] == "attr" and x[2] == "parent" for x in subterms(first)) else False if contains(first, F) or contains(first, Mo) else None, ww, f"the search path of a module begins with {show(first)[-60:]}")
        else:
            c.unknown("C30:main:which", ww, "")
        c.require("C30:main:before", when < i, ww, "the search path is set after the program has run")
    c.require("C30:main:exercised", n > 0 or None, c.where(fi), "")
