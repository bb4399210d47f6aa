"""Enabling and disabling the import hooks are exact inverses.

Rule: the paths of enabling and of disabling are turned into transitions on an abstract state (the attributes of the standard
source loader; the globals of the module), the top level of the module gives the initial state, and all sequences of enabling and
disabling up to a fixed length (normally until no new state appears) are explored: after enabling, exactly the compilation hook and the
timestamp hook are set, to the hooks of the package; after disabling, every attribute has the value that it had before the module was
run. The timestamp hook asks the standard one, captured when the module was run, for files of the standard library and for files that are not Python
sources, and only for these; the set of files of the standard library has each source file under the directory of the standard library except third-party packages.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, call_events, returns, truth, where_of
from lib.shape import P

MA, MI = "mcpyrate.activate", "mcpyrate.importer"
HOOKS = {"source_to_code": ref(MI + ".source_to_xcode"), "path_stats": ref(MI + ".path_xstats")}
DEPTH = 6


class Unknown(Exception):
    pass


def loader(t):
    return t[0] == "ref" and t[1].endswith(".SourceFileLoader")


class Env:
    """attributes of the loader and globals of the module"""
    def __init__(self, attrs=(), globs=()):
        self.attrs, self.globs = dict(attrs), dict(globs)

    def key(self):
        return tuple(sorted(self.attrs.items(), key=str)), tuple(sorted(self.globs.items(), key=str))

    def attr(self, n):
        return self.attrs.get(n, ("orig", n))

    def ev(self, t):
        k = t[0]
        if k in ("const", "orig", "closure"):
            return t
        if k == "ref":
            mod, _, name = t[1].rpartition(".")
            if mod.endswith(".SourceFileLoader"):
                return self.attr(name)
            if mod == MA and name in self.globs:
                if self.globs[name] is None:
                    raise Unknown(t)
                return self.globs[name]
            return t
        if k == "attr":
            if loader(t[1]):
                return self.attr(t[2])
            raise Unknown(t)
        if k == "isnone":
            v = self.ev(t[1])
            return TRUE if v == NONE else FALSE
        if k == "not":
            return const(not self.tr(t[1]))
        if k == "cmp":
            a, b = self.ev(t[2]), self.ev(t[3])
            if t[1] in ("Eq", "Is"):
                if a[0] == b[0] == "const":
                    return const(a[2] == b[2])
                return const(a == b)
            if a[0] == b[0] == "const" and t[1] in ("Lt", "LtE"):
                return const(a[2] < b[2] if t[1] == "Lt" else a[2] <= b[2])
        if k == "op" and t[1] in ("Add", "Sub") and len(t) == 4:
            a, b = self.ev(t[2]), self.ev(t[3])
            if a[0] == b[0] == "const" and isinstance(a[2], (int, bool)) and isinstance(b[2], (int, bool)):
                return const(a[2] + b[2] if t[1] == "Add" else a[2] - b[2])
        if k == "call" and is_call(t, "builtins.bool"):
            return const(self.tr(argof(t, 0)))
        raise Unknown(t)

    def tr(self, t):
        v = self.ev(t)
        return bool(v[2]) if v[0] == "const" else True


def check(c):
    ix = c.ix
    with c.section("C31:inverse"):
        inverse(c, ix)
    with c.section("C31:stats"):
        stats(c, ix)
    c.floor(6)


def step(env, paths):
    """state after the call, and the path taken"""
    for o in paths:
        try:
            if all(env.tr(e.a) == e.b for e in o.state.trace if e.kind == "assume"):
                break
        except Unknown:
            raise
    else:
        raise Unknown("no path")
    if o.kind != "return":
        raise Unknown(o.value)
    new = Env(env.attrs, env.globs)
    for e in o.state.trace:
        if e.kind == "setattr":
            if not loader(e.a):
                raise Unknown(e.a)
            new.attrs[e.b] = env.ev(e.c)
        elif e.kind == "global":
            new.globs[e.a.rsplit(".", 1)[1]] = env.ev(e.b)
        elif e.kind in ("call", "callraise", "delattr", "setitem", "delitem", "loop"):
            raise Unknown(e.kind)
    return new, o


def initial(c, ix, fns):
    m = ix.modules[MA]
    env = Env()

    def value(v):
        if isinstance(v, ast.Constant):
            return const(v.value)
        if isinstance(v, ast.Call) and ix.resolve_expr(m, v.func) == "builtins.getattr" and len(v.args) == 2 and isinstance(v.args[1], ast.Constant):
            r = (ix.resolve_expr(m, v.args[0]) or "") + "." + str(v.args[1].value)
        else:
            r = ix.resolve_expr(m, v) if isinstance(v, (ast.Name, ast.Attribute)) else None
        if r is None:
            return None
        try:
            return env.ev(ref(r))
        except Unknown:
            return None
    called = False
    for st in m.tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Pass)):
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                if isinstance(t, ast.Name):
                    if t.id != "__all__" and st.value is not None:
                        env.globs[t.id] = value(st.value)
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts) and all(isinstance(x, ast.Name) for x in t.elts):
                    vs = [value(v) for v in st.value.elts]
                    env.globs.update(zip([x.id for x in t.elts], vs))
                else:
                    raise Unknown(ast.unparse(st))
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            r = ix.resolve_expr(m, st.value.func)
            if r in fns:
                env, _ = step(env, fns[r])
                called = True
                continue
        raise Unknown(ast.unparse(st))
    return env, called


def inverse(c, ix):
    on, off = ix.func(MA + ".activate"), ix.func(MA + ".deactivate")
    fns = {f.qualname: c.paths(f, reads=True) for f in (on, off)}
    for q, ps in fns.items():
        for o in ps:
            for e in o.state.trace:
                if e.kind == "delattr" and loader(e.a):
                    c.bad("C31:inverse:deleted", where_of(e), f"deletes {e.b} of the loader: what was there before is not put back, and a second time it fails")
                if e.kind == "setattr" and not loader(e.a) and e.a[0] == "ref" and not e.a[1].startswith("mcpyrate."):
                    c.bad("C31:inverse:other", where_of(e), f"sets {show(e.a)}.{e.b}")
    try:
        env, called = initial(c, ix, fns)
        c.require("C31:inverse:enabled", called or None, ix.modules[MA].relpath, "importing the module does not enable the hooks")
        seen, todo = set(), [(env, 0)]
        while todo:
            e, d = todo.pop()
            if e.key() in seen or d > DEPTH:
                continue
            seen.add(e.key())
            for f in (on, off):
                new, o = step(e, fns[f.qualname])
                if f is on:
                    for n in sorted(set(new.attrs) | set(HOOKS)):
                        v = new.attr(n)
                        good = v == HOOKS[n] if n in HOOKS else v == ("orig", n)
                        if not good and n in HOOKS and v[0] != "orig":
                            good = False if v in HOOKS.values() or v == NONE else None
                        c.require("C31:inverse:on", good, at(c, f, o), f"after enabling, {n} of the loader is {show(v) if v[0] != 'orig' else 'the original'}")
                else:
                    for n in sorted(set(new.attrs) | set(HOOKS)):
                        v = new.attr(n)
                        c.require("C31:inverse:off", v == ("orig", n), at(c, f, o), f"after disabling, {n} of the loader is {show(v) if v[0] != 'orig' else 'the original ' + v[1]}")
                todo.append((new, d + 1))
    except Unknown as x:
        c.unknown("C31:inverse:form", c.where(on), str(x)[:200])


def standard(ix, v):
    """the standard timestamp function: "captured", "looked up" or None"""
    if not (isinstance(v, tuple) and v and v[0] == "call" and v[1][0] == "ref"):
        return None
    d = v[1][1]
    if d.endswith(".SourceFileLoader.path_stats"):
        return "looked up"
    m, x = ix.global_value(d)
    if m is not None:
        r = ix.resolve_expr(m, x) if isinstance(x, ast.Attribute) else None
        if r and r.endswith(".SourceFileLoader.path_stats"):
            return "captured"
    return None


def stats(c, ix):
    fi = ix.func(MI + ".path_xstats")
    S, PT = P("self"), P("path")
    sets = set()
    for o in returns(c.paths(fi)):
        f, w = o.state.facts, at(c, fi, o)
        py = std = None
        other = False
        for k, b in f.items():
            if not contains(k, PT):
                continue
            if k[0] == "call" and k[1] == attr(PT, "endswith"):
                if argof(k, 0) == const(".py"):
                    py = b
                else:
                    other = True
                    a = argof(k, 0)
                    if a[0] == "tuple" and any(x[0] == "const" and x != const(".py") for x in a[1]):
                        c.bad("C31:stats:extension", w, f"a Python source is taken to end in {show(a)}")
                    if a[0] == "const":
                        c.require("C31:stats:extension", False if ".py".endswith(a[2]) or not a[2].startswith(".py") else None, w, f"a Python source is taken to end in {a[2]!r}")
            elif k[0] == "cmp" and k[1] == "Eq" and k[2][0] == "sub" and k[2][1] == PT and k[3] == const(".py"):
                py = b
            elif k[0] == "cmp" and k[1] == "In" and k[2] == PT:
                std = b
                if k[3][0] == "ref":
                    sets.add(k[3][1])
            elif k[0] == "cmp" and k[1] == "In" and k[3][0] == "ref" and any(is_call(x, "os.path.basename", "os.path.split") or isinstance(x, tuple) and x and x[0] == "attr" and x[2] in ("name", "stem") for x in subterms(k[2])):
                c.bad("C31:stats:stdlib", w, "a file of the standard library is recognised by its name alone")
                other = True
            elif k[0] == "cmp" and k[1] == "In" and k[2][0] == "const" and k[3] == PT:
                c.bad("C31:stats:extension", w, "a Python source is recognised by a part of its path")
                other = True
            else:
                other = True
        v = o.value
        how = standard(ix, v)
        if how:
            c.require("C31:stats:captured", True if how == "captured" else False, w, "the standard timestamp function is looked up where the hook itself is installed")
            if how == "captured":
                c.require("C31:stats:args", [x for _, x in v[2]] == [S, PT], w, f"the standard timestamp function gets {show(v)[:100]}")
            c.require("C31:stats:only", True if std or py is False else None if other or std is None and py is None and not f else False, w,
                      "a Python source outside of the standard library gets the standard timestamp")
        elif v[0] in ("dict", "new") and any(standard(ix, x) for x in subterms(v) if isinstance(x, tuple) and x and x[0] == "call"):
            c.bad("C31:stats:kept", w, f"the standard timestamp record is changed: {show(v)[:80]}")
        elif is_call(v, MI + ".path_stats"):
            c.require("C31:stats:nonpy", py if py else False if py is False else None if other else False, w, "a file that is not a Python source does not keep the standard timestamp")
            c.require("C31:stats:stdlib", True if std is False else None if std is None and other else False, w, "a file of the standard library does not keep the standard timestamp")
        else:
            c.unknown("C31:stats:value", w, show(v)[:80])
    for d in sorted(sets):
        m, x = ix.global_value(d)
        r = ix.resolve_expr(m, x.func) if m is not None and isinstance(x, ast.Call) else None
        if r in ix.funcs:
            with c.section("C31:stdlib"):
                stdlib(c, ix.func(r))


def stdlib(c, fi):
    n = 0
    pruned = found = False
    for o in returns(c.paths(fi)):
        w = at(c, fi, o)
        walks = [e for e in o.state.trace if e.kind == "call" and is_call(e.c, "os.walk")]
        if not walks:
            c.unknown("C31:stdlib:walk", w, "")
            continue
        root = argof(walks[0].c, 0)
        good = is_call(root, "os.path.dirname") and argof(root, 0) and argof(root, 0)[0] == "ref" and argof(root, 0)[1].endswith(".__file__") or None
        if good and argof(root, 0) != ref("os.__file__"):
            good = None if not argof(root, 0)[1].startswith("mcpyrate") else False
        if is_call(root, "os.path.dirname") and is_call(argof(root, 0), "os.path.dirname") and argof(argof(root, 0), 0) == ref("os.__file__"):
            good = False
        c.require("C31:stdlib:root", good, w, f"the standard library is looked for in {show(root)[:80]}")
        W = walks[0].c
        loops = [e for e in o.state.trace if e.kind == "loop" and e.a == W]
        if not loops:
            continue
        el = ("elem", W, loops[0].b)
        dirs, files = ("sub", el, const(1)), ("sub", el, const(2))
        for e in o.state.trace:
            # directories that are left out
            if e.kind == "setitem" and e.a == dirs:
                names = [x[2] for x in subterms(e.c) if isinstance(x, tuple) and x and x[0] == "const" and x[1] == "str"]
                pruned = True
                if names:
                    c.require("C31:stdlib:pruned", False if set(names) - {"site-packages", "dist-packages", "__pycache__"} and all(n.isidentifier() for n in set(names) - {"site-packages", "dist-packages"}) else True if {"site-packages", "dist-packages"} <= set(names) <= {"site-packages", "dist-packages", "__pycache__"} else False if len(names) == 1 and names[0] in ("site-packages", "dist-packages") and e.c[0] == "list" else None, where_of(e), f"leaves out {names}")
            elif any(isinstance(x, tuple) and x[:2] == ("const", "str") and "site-packages" in x[2] for t in (e.a, e.b, e.c) if isinstance(t, tuple) for x in subterms(t)):
                pruned = True
        inner = [e for e in o.state.trace if e.kind == "loop" and e.a == files]
        if not inner:
            continue
        fe = ("elem", files, inner[0].b)
        py = None
        extra = False
        for k, b in o.state.facts.items():
            if not contains(k, fe):
                continue
            if k[0] == "cmp" and k[1] == "Eq" and k[3] == const(".py") or k[0] == "call" and k[1] == attr(fe, "endswith") and argof(k, 0) == const(".py"):
                py = b
            else:
                extra = True
        added = o.value[0] == "set" and any(True for _ in o.value[1])
        if py and not extra:
            n += 1
            join = any(is_call(x, "os.path.join") and [v for _, v in x[2]] == [("sub", el, const(0)), fe] for x in subterms(o.value))
            flat = any(is_call(x, "os.path.join") and [v for _, v in x[2]] == [root, fe] for x in subterms(o.value))
            c.require("C31:stdlib:added", True if join else False if flat or not contains(o.value, fe) and o.value[0] == "set" and not any(e.kind == "assume" for e in o.state.trace if not contains(e.a, fe)) else None, w, "a source file of the standard library is not in the set")
    if n:
        c.require("C31:stdlib:third-party", True if pruned else False, c.where(fi), "the files of third-party packages under the directory of the standard library are treated as parts of it")
