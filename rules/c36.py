"""Code generated by the system refers only to things that exist.

Rule: (a) Every function that makes run-time references to the package's own things is run abstractly; for each generated call the
attribute path is resolved in the package from its top-level name, through module namespaces, to a definition, and the generated positional and named
arguments are bound to that definition's signature. Bare names that are called by generated code are builtins. (b) Source code handed to a session as text is checked
for the same paths. (c) In all modules: each name advertised as public is bound at the top level; each name imported from a module of the package
(also inside functions, at the time an error or debug path runs) is bound there, each imported from the standard library exists in it; each name that is read is bound in an enclosing
scope, the module, or builtins; each attribute read through a module, through the color scheme or the color tables, or through the own instance of a class all of whose bases are known
is defined; each option that is read was declared; each call of a function of the package binds to its signature. Version- or import-guarded uses are skipped.
"""
import ast
import builtins
import importlib
import inspect
import re
import sys
import textwrap

from lib.interp import NONE, const, is_call, show, subterms
from lib.q import norm_ctor

PK = "mcpyrate"
MODULE_DUNDERS = {"__name__", "__file__", "__doc__", "__path__", "__spec__", "__loader__", "__package__", "__builtins__", "__dict__", "__class__", "__annotations__", "__version__", "__debug__", "__qualname__", "__module__", "__cached__"}


def check(c):
    ix = c.ix
    ns = Namespaces(ix)
    _alive.append(ix)
    for name, m in sorted(ix.modules.items()):
        with c.section(f"C36:names:{name}"):
            Walk(c, ix, ns, m).run()
    with c.section("C36:public"):
        public(c, ix, ns)
    with c.section("C36:generated"):
        generated(c, ix, ns)
    with c.section("C36:session"):
        session(c, ix, ns)
    c.floor(400)


# ---- names bound in modules

def bound_by(st, out):
    """names bound by a statement in its own scope, compound statements included"""
    for n in walk_scope(st):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Import):
            out.update(a.asname or a.name.split(".")[0] for a in n.names)
        elif isinstance(n, ast.ImportFrom):
            out.update(a.asname or a.name for a in n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        elif hasattr(ast, "TypeVar") and isinstance(n, (ast.TypeVar, ast.ParamSpec, ast.TypeVarTuple)):
            out.add(n.name)


def walk_scope(n):
    """nodes of a scope: nested functions and classes are yielded, not entered (their decorators and defaults are)"""
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        kids = n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]
    elif isinstance(n, ast.Lambda):
        kids = n.args.defaults + [d for d in n.args.kw_defaults if d]
    elif isinstance(n, ast.ClassDef):
        kids = n.decorator_list + n.bases + [k.value for k in n.keywords]
    else:
        kids = ast.iter_child_nodes(n)
    for k in kids:
        yield from walk_scope(k)


class Namespaces:
    def __init__(self, ix):
        self.ix = ix
        self.own, self.memo = {}, {}
        self.deleted = {}
        self.open = set()       # modules with names that cannot be known
        for name, m in ix.modules.items():
            out, dels = set(), set()
            for st in m.tree.body:
                bound_by(st, out)
                if isinstance(st, ast.Delete):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            dels.add(t.id)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    out.update(n.names)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec", "vars") and isinstance(n.func.ctx, ast.Load):
                    pass
                if isinstance(n, (ast.Subscript,)) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "globals" and isinstance(n.ctx, ast.Store):
                    self.open.add(name)
            if any(isinstance(n, ast.FunctionDef) and n.name == "__getattr__" for n in m.tree.body):
                self.open.add(name)
            last = {}
            for i, st in enumerate(m.tree.body):
                b = set()
                bound_by(st, b)
                for x in b:
                    last[x] = i
                if isinstance(st, ast.Delete):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            last[t.id] = -1
            self.own[name] = out
            self.deleted[name] = {x for x in dels if last.get(x) == -1}

    def star(self, m, seen=()):
        """names that come in through star imports; sets the module open if from outside"""
        out = set()
        for base in m.star_imports:
            if base in self.ix.modules and base not in seen:
                pub = all_of(self.ix.modules[base])
                out |= set(pub) if pub is not None else {x for x in self.names(base, seen + (m.name,)) if not x.startswith("_")}
            elif base not in self.ix.modules:
                mod = stdlib(base)
                if mod is None:
                    self.open.add(m.name)
                else:
                    out |= set(getattr(mod, "__all__", [x for x in dir(mod) if not x.startswith("_")]))
        return out

    def names(self, mod, seen=()):
        if mod not in self.memo:
            got = self.collect(mod, seen)
            if seen:
                return got
            self.memo[mod] = got
        return self.memo[mod]

    def collect(self, mod, seen=()):
        return (self.own[mod] - self.deleted[mod]) | self.star(self.ix.modules[mod], seen) | MODULE_DUNDERS | ({n[len(mod) + 1:] for n in self.ix.modules if n.startswith(mod + ".") and "." not in n[len(mod) + 1:]} | {x.split(".")[len(mod.split("."))] for x in self.ix.modules if x.startswith(mod + ".")})

    def has(self, mod, name):
        """True, False, or None where unknown"""
        if name in self.names(mod):
            return True
        return None if mod in self.open else False


def all_of(m):
    """the public names of a module, or None"""
    vs = m.assigns.get("__all__")
    if not vs or len(vs) != 1 or vs[0] is None:
        return None
    return strings(vs[0])


def strings(v):
    if isinstance(v, (ast.List, ast.Tuple)):
        out = []
        for e in v.elts:
            if isinstance(e, ast.Constant) and isinstance(e.value, str):
                out.append(e.value)
            elif isinstance(e, ast.Starred) and strings(e.value) is not None:
                out += strings(e.value)
            else:
                return None
        return out
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
        a, b = strings(v.left), strings(v.right)
        return a + b if a is not None and b is not None else None
    return None


def stdlib(name):
    if name.split(".")[0] not in sys.stdlib_module_names:
        return None
    try:
        return importlib.import_module(name)
    except Exception:
        return None


def public(c, ix, ns):
    for name, m in sorted(ix.modules.items()):
        pub = all_of(m)
        if pub is None:
            continue
        node = next((st for st in m.tree.body if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in st.targets)), m.tree)
        for x in pub:
            c.require("C36:public", ns.has(name, x), f"{m.relpath}:{getattr(node, 'lineno', 1)}", f"{name} advertises {x}, which it does not define")


# ---- signatures

class Signature:
    def __init__(self, node, method=False):
        a = node.args
        pos = a.posonlyargs + a.args
        self.npos = len(a.posonlyargs)
        nd = len(pos) - len(a.defaults)
        self.pos = [(p.arg, i >= nd) for i, p in enumerate(pos)]
        self.kw = [(p.arg, d is not None) for p, d in zip(a.kwonlyargs, a.kw_defaults)]
        self.vararg, self.kwarg = bool(a.vararg), bool(a.kwarg)
        if method and self.pos:
            self.pos = self.pos[1:]
            self.npos = max(0, self.npos - 1)

    def bind(self, npos, kws, star=False, starstar=False):
        """error text, or None"""
        if npos > len(self.pos) and not self.vararg:
            return f"{npos} positional arguments are given, at most {len(self.pos)} are taken"
        taken = {n for n, _ in self.pos[:npos]}
        names = {n for n, _ in self.pos[self.npos:]} | {n for n, _ in self.kw}
        for k in kws:
            if k in taken:
                return f"argument {k} is given twice"
            if k not in names and not self.kwarg:
                return f"there is no argument {k}"
        if not starstar:
            if not star:
                for n, d in self.pos[npos:]:
                    if not d and n not in kws:
                        return f"argument {n} is missing"
            for n, d in self.kw:
                if not d and n not in kws:
                    return f"argument {n} is missing"
        return None


PRESERVING = {"contextlib.contextmanager", "contextlib.asynccontextmanager", "mcpyrate.expander.parametricmacro", "mcpyrate.expander.namemacro", "abc.abstractmethod", "functools.lru_cache", "functools.cache"}


def signature(ix, dotted):
    """Signature for calling a package function or class, or None"""
    if dotted in ix.funcs:
        fi = ix.funcs[dotted]
        if dotted + "#2" in ix.funcs or not isinstance(fi.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return None
        if fi.cls is not None:
            return None
        mod = fi.module
        if fi.name in mod.assigns or fi.name in mod.imports:
            return None
        for d in fi.node.decorator_list:
            if ix.resolve_expr(mod, d.func if isinstance(d, ast.Call) else d) not in PRESERVING:
                return None
        return Signature(fi.node)
    if dotted in ix.classes:
        ci = ix.classes[dotted]
        if ci.name in ci.module.assigns or ci.node.decorator_list or ci.node.keywords:
            return None
        for k in ix.mro(dotted):
            if k not in ix.classes:
                return None if k not in ("builtins.object",) else None
            ms = ix.classes[k].methods
            if "__new__" in ms:
                return None
            if "__init__" in ms:
                return None if ms["__init__"].node.decorator_list else Signature(ms["__init__"].node, True)
        return None
    return None


def call_shape(n):
    star = any(isinstance(a, ast.Starred) for a in n.args)
    return sum(not isinstance(a, ast.Starred) for a in n.args), [k.arg for k in n.keywords if k.arg], star, any(k.arg is None for k in n.keywords)


# ---- uses

GUARDS = {"ImportError", "ModuleNotFoundError", "AttributeError", "NameError", "Exception", "BaseException"}


class Walk:
    """resolves the names and attributes that a module reads"""

    def __init__(self, c, ix, ns, m):
        self.c, self.ix, self.ns, self.m = c, ix, ns, m
        self.scopes = []        # (kind, bound names, aliases, imports, node)
        self.guarded = 0
        self.classes = []

    def run(self):
        self.body(self.m.tree)
        self.options()

    def at(self, n):
        return f"{self.m.relpath}:{getattr(n, 'lineno', 1)}"

    def body(self, n):
        for k in ast.iter_child_nodes(n):
            self.visit(k)

    # -- scoping
    def enter(self, kind, node, body):
        names, aliases, imports, counts = set(), {}, {}, {}
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            names.update(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
        for p in getattr(node, "type_params", ()):
            names.add(p.name)
        glob = set()
        for st in body:
            bound_by(st, names)
            for n in walk_scope(st):
                if isinstance(n, (ast.Global,)):
                    glob.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    glob.update(n.names)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    self.ix._scan_import(self.m, n, imports)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    counts[n.id] = counts.get(n.id, 0) + 1
                elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                    t, v = n.targets[0], n.value
                    pairs = [(t, v)] if isinstance(t, ast.Name) else list(zip(t.elts, v.elts)) if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts) else []
                    for x, y in pairs:
                        if isinstance(x, ast.Name):
                            aliases[x.id] = y
        params = {x for x in names} - set(counts)
        aliases = {k: v for k, v in aliases.items() if counts.get(k) == 1 and isinstance(v, (ast.Name, ast.Attribute))}
        imports = {k: v for k, v in imports.items() if counts.get(k, 0) == 0}
        del params
        self.scopes.append((kind, names - glob, aliases, imports, node))

    def find(self, name):
        """the scope that binds a name, "module", "builtin", or None"""
        for i, s in enumerate(reversed(self.scopes)):
            if s[0] == "class" and i > 0:
                continue
            if name in s[1]:
                return s
        if name in self.ns.names(self.m.name) or name in self.ns.own[self.m.name] and not any(s[0] == "function" and not isinstance(s[4], (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for s in self.scopes):
            return "module"
        if hasattr(builtins, name):
            return "builtin"
        return None

    def dotted(self, e, depth=0):
        """dotted path of a thing that an expression refers to, or None"""
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value, depth)
            return self.ix.canonical(f"{b}.{e.attr}") if b else None
        if isinstance(e, ast.Name):
            s = self.find(e.id)
            if s == "module":
                return self.ix.resolve_name(self.m, e.id)
            if s == "builtin":
                return "builtins." + e.id
            if s is None:
                return None
            if e.id in s[3]:
                return self.ix.canonical(s[3][e.id])
            if e.id in s[2] and depth < 5 and not (isinstance(s[2][e.id], ast.Name) and s[2][e.id].id == e.id):
                return self.dotted(s[2][e.id], depth + 1)
        return None

    # -- visiting
    def visit(self, n):
        c = self.c
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for k in (n.decorator_list if not isinstance(n, ast.Lambda) else []) + n.args.defaults + [d for d in n.args.kw_defaults if d]:
                self.visit(k)
            body = n.body if isinstance(n.body, list) else [n.body]
            self.enter("function", n, body)
            for k in body:
                self.visit(k)
            self.scopes.pop()
            return
        if isinstance(n, ast.ClassDef):
            for k in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(k)
            self.enter("class", n, n.body)
            self.classes.append(n)
            for k in n.body:
                self.visit(k)
            self.classes.pop()
            self.scopes.pop()
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = set()
            for g in n.generators:
                bound_by(g.target, names)
            self.visit(n.generators[0].iter)
            self.scopes.append(("function", names, {}, {}, n))
            for g in n.generators:
                if g is not n.generators[0]:
                    self.visit(g.iter)
                for i in g.ifs:
                    self.visit(i)
            for k in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(k)
            self.scopes.pop()
            return
        if isinstance(n, (ast.Try,) + ((ast.TryStar,) if hasattr(ast, "TryStar") else ())):
            g = any(h.type is None or any(isinstance(x, ast.Name) and x.id in GUARDS for x in ast.walk(h.type)) for h in n.handlers)
            self.guarded += g
            for k in n.body:
                self.visit(k)
            self.guarded -= g
            for h in n.handlers:
                if h.type is not None:
                    self.visit(h.type)
                soft = h.type is not None and any(isinstance(x, ast.Name) and x.id in ("ImportError", "ModuleNotFoundError", "AttributeError", "NameError") for x in ast.walk(h.type))
                self.guarded += soft
                for k in h.body:
                    self.visit(k)
                self.guarded -= soft
            for k in n.orelse + n.finalbody:
                self.visit(k)
            return
        if isinstance(n, (ast.If, ast.IfExp)):
            self.visit(n.test)
            g = conditional(n.test)
            self.guarded += g
            for k in (n.body if isinstance(n.body, list) else [n.body]) + (n.orelse if isinstance(n.orelse, list) else [n.orelse]):
                self.visit(k)
            self.guarded -= g
            return
        if isinstance(n, ast.BoolOp) and any(conditional(v) for v in n.values):
            self.guarded += 1
            self.body(n)
            self.guarded -= 1
            return
        if isinstance(n, ast.ImportFrom):
            self.importfrom(n)
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                self.module_exists(a.name, n)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if not self.guarded:
                ok = True if self.find(n.id) is not None or n.id in MODULE_DUNDERS else None if self.m.name in self.ns.open else False
                c.require("C36:names:bound", ok, self.at(n), f"the name {n.id} is read, and bound nowhere")
            return
        if isinstance(n, ast.Attribute):
            self.visit(n.value)
            if not self.guarded:
                self.attribute(n)
            return
        if isinstance(n, ast.Call):
            self.body(n)
            if not self.guarded:
                self.call(n)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.visit(n.value)
            if not isinstance(n.target, ast.Name):
                self.visit(n.target)
            return
        self.body(n)

    def module_exists(self, dotted, n):
        if self.guarded:
            return
        if dotted.split(".")[0] == PK:
            self.c.require("C36:imports:module", dotted in self.ix.modules or any(x.startswith(dotted + ".") for x in self.ix.modules), self.at(n), f"module {dotted} does not exist")

    def importfrom(self, n):
        if self.guarded or n.module == "__future__":
            return
        out = {}
        stars = len(self.m.star_imports)
        self.ix._scan_import(self.m, n, out)
        del self.m.star_imports[stars:]
        for a in n.names:
            if a.name == "*":
                continue
            full = out[a.asname or a.name]
            mod, _, name = full.rpartition(".")
            if mod in self.ix.modules:
                if name == "macros":
                    continue
                self.c.require("C36:imports:name", self.ns.has(mod, name), self.at(n), f"{name} is imported from {mod}, which does not define it")
            elif mod.split(".")[0] == PK:
                if full not in self.ix.modules and not any(x.startswith(mod + ".") for x in self.ix.modules):
                    self.c.bad("C36:imports:module", self.at(n), f"module {mod} does not exist")
                elif full not in self.ix.modules:
                    self.c.bad("C36:imports:name", self.at(n), f"{name} is imported from {mod}, which does not define it")
            else:
                sm = stdlib(mod)
                if sm is not None:
                    self.c.require("C36:imports:stdlib", hasattr(sm, name) or stdlib(full) is not None, self.at(n), f"{mod} has no {name}")

    # -- attributes
    def attribute(self, n):
        c, ix = self.c, self.ix
        if isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and self.classes and isinstance(n.ctx, ast.Load):
            if self.selfattr(n):
                return
        b = self.dotted(n.value)
        if b is None:
            return
        if b in ix.modules:
            if isinstance(n.ctx, ast.Load):
                c.require("C36:attributes:module", self.ns.has(b, n.attr), self.at(n), f"module {b} has no {n.attr}")
            return
        if b.split(".")[0] in sys.stdlib_module_names:
            sm = stdlib(b)
            if sm is not None and isinstance(n.ctx, ast.Load):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    ok = hasattr(sm, n.attr)
                if not ok and stdlib(f"{b}.{n.attr}") is not None:
                    ok = True
                c.require("C36:attributes:stdlib", ok, self.at(n), f"{b} has no {n.attr}")
            return
        inst = self.instance(b)
        if inst is not None and isinstance(n.ctx, ast.Load):
            c.require("C36:attributes:instance", None if inst is True else n.attr in inst, self.at(n), f"{b.rsplit('.', 1)[-1]} has no {n.attr}")
        elif b in ix.classes and isinstance(n.ctx, ast.Load):
            have = class_names(ix, b)
            if have is not None and not (n.attr.startswith("__") and n.attr.endswith("__")):
                c.require("C36:attributes:class", n.attr in have, self.at(n), f"{b} has no {n.attr}")

    def instance(self, dotted):
        """attribute names of a module-level instance of a class of the package (True if not known)"""
        mod, _, name = dotted.rpartition(".")
        if mod not in self.ix.modules:
            return None
        m = self.ix.modules[mod]
        origins = [m.imports[name]] if name in m.imports else []
        vs = m.assigns.get(name)
        if not vs or len(vs) != 1 or not isinstance(vs[0], ast.Call):
            return None
        k = self.ix.resolve_expr(m, vs[0].func)
        if k == dotted and f"{mod}.{name}" in self.ix.classes:
            k = f"{mod}.{name}"
        if k not in self.ix.classes or origins:
            return None
        have = instance_names(self.ix, k)
        if have is None:
            return True
        return have | stored_names(self.ix) | set_names(self.ix, name)

    def selfattr(self, n):
        """an attribute read through the own instance; True if it was judged"""
        fn = next((s for s in reversed(self.scopes) if s[0] == "function" and isinstance(s[4], (ast.FunctionDef, ast.AsyncFunctionDef)) and n.value.id in {a.arg for a in s[4].args.args}), None)
        if fn is None:
            return False
        node = self.classes[-1]
        q = next((q for q, ci in self.ix.classes.items() if ci.node is node), None)
        if q is None or fn[4] not in node.body:
            return False
        have = instance_names(self.ix, q)
        if have is None:
            return True
        if n.attr.startswith("__") and n.attr.endswith("__"):
            return True
        ok = n.attr in have or n.attr in subclass_names(self.ix, q) or n.attr in stored_names(self.ix)
        self.c.require("C36:attributes:self", ok, self.at(n), f"{node.name} has no {n.attr}")
        return True

    # -- calls
    def call(self, n):
        sig = None
        what = ""
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and self.classes:
            q = next((q for q, ci in self.ix.classes.items() if ci.node is self.classes[-1]), None)
            fi = self.ix.find_method(q, n.func.attr) if q else None
            top = next((s for s in reversed(self.scopes) if s[0] == "function" and isinstance(s[4], (ast.FunctionDef, ast.AsyncFunctionDef)) and "self" in {a.arg for a in s[4].args.args}), None)
            if fi is not None and top is not None and top[4] in self.classes[-1].body and n.func.attr not in stored_names(self.ix):
                deco = [self.ix.resolve_expr(fi.module, d) for d in fi.node.decorator_list]
                if not deco or all(d in PRESERVING for d in deco):
                    sig, what = Signature(fi.node, True), fi.qualname
                elif deco == ["builtins.staticmethod"]:
                    sig, what = Signature(fi.node), fi.qualname
                elif deco == ["builtins.classmethod"]:
                    sig, what = Signature(fi.node, True), fi.qualname
                # an overriding method may take other arguments
                if sig and any(self.ix.is_subclass(k, q) and k != q and n.func.attr in ci.methods for k, ci in self.ix.classes.items()):
                    sig = None
        else:
            d = self.dotted(n.func)
            if d and d.split(".")[0] == PK:
                sig, what = signature(self.ix, d), d
        if sig is None:
            return
        err = sig.bind(*call_shape(n))
        self.c.require("C36:calls", err is None, self.at(n), f"call of {what}: {err}")

    # -- command line options
    def options(self):
        for fn in [n for n in ast.walk(self.m.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            parsers, opts, dests, known = set(), set(), set(), True
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1:
                    f = n.value.func
                    d = self.ix.resolve_expr(self.m, f)
                    if d == "argparse.ArgumentParser" and isinstance(n.targets[0], ast.Name):
                        parsers.add(n.targets[0].id)
                    elif isinstance(f, ast.Attribute) and f.attr == "parse_args" and isinstance(f.value, ast.Name) and f.value.id in parsers and isinstance(n.targets[0], ast.Name):
                        opts.add(n.targets[0].id)
                        known = known and not n.value.keywords
            if not opts:
                continue
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_argument", "set_defaults"):
                    kw = {k.arg: k.value for k in n.keywords}
                    if n.func.attr == "set_defaults":
                        dests |= set(kw)
                    elif "dest" in kw and isinstance(kw["dest"], ast.Constant):
                        dests.add(kw["dest"].value)
                    else:
                        flags = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                        if len(flags) != len(n.args):
                            known = False
                        long = [x for x in flags if x.startswith("--")] or flags
                        if long:
                            dests.add(long[0].lstrip("-").replace("-", "_"))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and any(isinstance(a, ast.Name) and a.id in parsers for a in n.args):
                    known = False
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in opts and isinstance(n.ctx, ast.Load):
                    self.c.require("C36:options", True if n.attr in dests else False if known else None, self.at(n), f"option {n.attr} is read, and not declared")


def conditional(t):
    return any(isinstance(x, ast.Attribute) and x.attr in ("version_info", "platform", "hexversion") or isinstance(x, ast.Name) and x.id in ("hasattr", "TYPE_CHECKING") for x in ast.walk(t))


_cache = {}
_alive = []        # keeps the indexes alive whose ids are in the cache


def stored_names(ix):
    """names assigned as attributes of anything but a `self`, anywhere"""
    if ("stored", id(ix)) not in _cache:
        out = set()
        for m in ix.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                    out.add(x.attr)
        _cache[("stored", id(ix))] = out
    return _cache[("stored", id(ix))]


def set_names(ix, name):
    """names that may be set with setattr on a module-level thing: the strings of the modules that do so"""
    if ("set", id(ix), name) not in _cache:
        out = set()
        for m in ix.modules.values():
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == name for x in ast.walk(m.tree)):
                out |= {y.value for y in ast.walk(m.tree) if isinstance(y, ast.Constant) and isinstance(y.value, str)}
        _cache[("set", id(ix), name)] = out
    return _cache[("set", id(ix), name)]


def subclass_names(ix, q):
    if ("sub", id(ix), q) not in _cache:
        out = set()
        for k in ix.classes:
            if k != q and ix.is_subclass(k, q):
                out |= own_names(ix.classes[k].node)
        _cache[("sub", id(ix), q)] = out
    return _cache[("sub", id(ix), q)]


def own_names(node):
    """names that a class body defines: its own scope, and what its methods assign on an instance"""
    out = set()
    for st in node.body:
        bound_by(st, out)
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            out.add(st.target.id)
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls"):
            out.add(x.attr)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "hasattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
            out.add(x.args[1].value)
    return out


def external(dotted):
    """attribute names of a standard-library class and of its instances, or None"""
    mod, _, name = dotted.rpartition(".")
    sm = stdlib(mod) if mod else None
    k = getattr(sm, name, None) if sm is not None else getattr(builtins, name, None) if mod == "builtins" else None
    if not isinstance(k, type):
        return None
    out = set(dir(k))
    for b in k.__mro__:
        if b.__module__ in ("builtins", "_ast"):
            continue
        try:
            tree = ast.parse(textwrap.dedent(inspect.getsource(b)))
        except Exception:
            return None
        if isinstance(tree.body[0], ast.ClassDef):
            out |= own_names(tree.body[0])
    if issubclass(k, ast.AST):
        out |= {"lineno", "col_offset", "end_lineno", "end_col_offset"}
    return out


def instance_names(ix, q):
    if ("inst", id(ix), q) not in _cache:
        _cache[("inst", id(ix), q)] = instance_names_(ix, q)
    return _cache[("inst", id(ix), q)]


def instance_names_(ix, q):
    """attribute names that an instance of a class of the package has, or None if they cannot be known"""
    out = set()
    for k in ix.mro(q):
        if k in ix.classes:
            ci = ix.classes[k]
            if any(ix.resolve_expr(ci.module, d) != "abc.ABC" and True for d in ci.node.decorator_list):
                if any((ix.resolve_expr(ci.module, d) or "").split(".")[0] in ("dataclasses", "attr") for d in ci.node.decorator_list):
                    return None
            if None in ci.bases:
                return None
            if "__getattr__" in ci.methods or "__getattribute__" in ci.methods:
                # attributes are data: those that a body of the hierarchy names
                for x in ast.walk(ix.classes[q].node):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                        out.add(x.value)
                    elif isinstance(x, ast.keyword) and x.arg:
                        out.add(x.arg)
                    elif isinstance(x, ast.keyword):
                        return None
                if k == q:
                    return None
            for x in ast.walk(ci.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and not isinstance(x.args[1], ast.Constant):
                    if not ("__getattr__" in ci.methods or k.endswith(".AnsiCodes") or "dir" in {y.func.id for y in ast.walk(ci.node) if isinstance(y, ast.Call) and isinstance(y.func, ast.Name)}):
                        return None
                elif isinstance(x, ast.Attribute) and x.attr == "__dict__" and k == q:
                    return None
            out |= own_names(ci.node)
        elif k is not None and k not in ("builtins.object",):
            e = external(k)
            if e is None:
                return None
            out |= e
    return out | set(dir(object))


def class_names(ix, q):
    """attribute names of the class itself, or None"""
    ci = ix.classes[q]
    if ci.name in ci.module.assigns:
        return None
    out = instance_names(ix, q)
    return out


# ---- generated references

def generated(c, ix, ns):
    base = PK + ".coreutils._mcpyrate_attr"
    if base not in ix.funcs:
        cands = [f for f in ix.funcs.values() if f.name == "_mcpyrate_attr"]
        if not cands:
            c.unknown("C36:generated:maker", "", "")
            return
        base = cands[0].qualname
    maker = ix.funcs[base]
    P0 = maker.params()[0]
    makers = users(ix, {base})
    n = 0
    for q in sorted(makers):
        fi = ix.funcs[q]
        private = fi.name.startswith("_")
        inl = [x for x in makers if x != q and ix.funcs[x].name.startswith("_")]
        called = any(q in direct(ix, x) for x in makers if x != q)
        try:
            outs = c.paths(fi, inline=inl, opaque=[base], max_paths=20000)
        except Exception as e:
            if type(e).__name__ == "AnalysisBroken":
                raise
            c.unknown("C36:generated:paths", c.where(fi), str(e)[:80])
            continue
        seen = set()
        for o in outs:
            for e in o.state.trace:
                if e.kind not in ("call", "callraise") or e.c in seen or e.c[0] != "call":
                    continue
                seen.add(e.c)
                w = f"{fi.file}:{getattr(e.node, 'lineno', '?')}" if e.node is not None else c.where(fi)
                if e.c[1] == ("ref", base):
                    name = dict(e.c[2]).get(P0) or (e.c[2][0][1] if e.c[2] else None)
                    s = text(name)
                    if s is None:
                        if not (private and called):
                            c.unknown("C36:generated:path", w, show(name)[:60] if name else "")
                        continue
                    n += 1
                    c.require("C36:generated:exists", resolve(ix, ns, f"{PK}.{s}"), w, f"generated code refers to {PK}.{s}, which does not exist")
                k = norm_ctor(e.c)
                if k and k[0] == "Call" and "func" in k[1]:
                    gencall(c, ix, ns, base, P0, k[1], w)
        if q == base:
            continue
    chain(c, ix, maker)
    c.require("C36:generated:some", n > 3 or None, "", "")


def direct(ix, q):
    """package functions that a function refers to by name"""
    fi = ix.funcs[q]
    out = set()
    for x in ast.walk(fi.node):
        if isinstance(x, (ast.Name, ast.Attribute)):
            r = ix.resolve_expr(fi.module, x)
            if r in ix.funcs:
                out.add(r)
    return out


def users(ix, goal):
    """functions (outermost) that reach the maker through private helpers of the package"""
    out = set()
    todo = set(goal)
    while todo:
        new = set()
        for q, fi in ix.funcs.items():
            if q in out or q in goal or fi.parent is not None:
                continue
            if direct(ix, q) & todo:
                new.add(q)
        out |= new
        todo = {q for q in new if ix.funcs[q].name.startswith("_")}
    return out


def text(t):
    if t is None:
        return None
    if t[0] == "const" and t[1] == "str":
        return t[2]
    if t[0] in ("fstr", "joined", "format"):
        parts = []
        for x in t[1]:
            s = text(x) if isinstance(x, tuple) else x if isinstance(x, str) else None
            if s is None:
                return None
            parts.append(s)
        return "".join(parts)
    if t[0] == "op" and t[1] == "Add":
        a, b = text(t[2]), text(t[3])
        return a + b if a is not None and b is not None else None
    return None


def resolve(ix, ns, dotted):
    """does an attribute path exist, starting from the top-level package? True, False or None"""
    parts = dotted.split(".")
    cur = parts[0]
    for i, p in enumerate(parts[1:], 1):
        if cur in ix.modules:
            r = ns.has(cur, p)
            if not r:
                return r
            m = ix.modules[cur]
            if f"{cur}.{p}" in ix.modules and p not in ns.own[cur]:
                # a submodule is there only if something that is always loaded imports it
                cur = f"{cur}.{p}"
                continue
            if p not in ns.own[cur] and any(x.startswith(f"{cur}.{p}.") for x in ix.modules):
                cur = f"{cur}.{p}"
                continue
            cur = ix.canonical(f"{cur}.{p}")
            if cur in (f"{m.name}.{p}",) and p in m.imports:
                cur = m.imports[p]
        elif any(x.startswith(cur + ".") for x in ix.modules):
            cur = f"{cur}.{p}"      # a directory of modules
            if cur not in ix.modules and not any(x.startswith(cur + ".") for x in ix.modules):
                return False
        elif cur in ix.classes:
            have = class_names(ix, cur)
            return None if have is None else p in have
        elif stdlib(cur) is not None:
            return hasattr(stdlib(cur), p)
        else:
            return None
    return True


def final(ix, dotted):
    parts = dotted.split(".")
    cur = parts[0]
    for p in parts[1:]:
        if cur not in ix.modules:
            return None
        cur = ix.canonical(f"{cur}.{p}")
    return cur


def gencall(c, ix, ns, base, P0, k, w):
    f = k["func"]
    if is_call(f, "ast.Name"):
        nm = text((norm_ctor(f)[1] or {}).get("id"))
        if nm is not None:
            c.require("C36:generated:builtin", hasattr(builtins, nm) or None, w, f"generated code calls {nm}")
        return
    if is_call(f, "ast.Attribute"):
        g = norm_ctor(f)[1]
        v, a = g.get("value"), text(g.get("attr"))
        if v is None or a is None or v[0] != "call" or v[1] != ("ref", base):
            return
        s = text(dict(v[2]).get(P0))
        if s is None:
            return
        r = resolve(ix, ns, f"{PK}.{s}.{a}")
        c.require("C36:generated:exists", r, w, f"generated code refers to {PK}.{s}.{a}, which does not exist")
        return
    if f[0] != "call" or f[1] != ("ref", base):
        return
    s = text(dict(f[2]).get(P0))
    if s is None:
        return
    target = final(ix, f"{PK}.{s}")
    sig = signature(ix, target) if target else None
    if sig is None:
        return
    args, kws = k.get("args"), k.get("keywords")
    if args is None or kws is None or args[0] != "list" or kws[0] != "list":
        return
    npos, names, star = 0, [], False
    for x in args[1]:
        if x[0] in ("star", "rep"):
            return
        star = star or is_call(x, "ast.Starred")
        npos += not is_call(x, "ast.Starred")
    for x in kws[1]:
        kk = norm_ctor(x)
        nm = text(kk[1].get("arg")) if kk else None
        if nm is None:
            return
        names.append(nm)
    err = sig.bind(npos, names, star)
    c.require("C36:generated:arguments", err is None, w, f"generated call of {target}: {err}")


def chain(c, ix, fi):
    """the reference starts at the package"""
    P0, F = ("param", fi.params()[0]), ("param", "force_import")
    n = 0
    for o in c.paths(fi):
        if o.kind != "return":
            continue
        forced = o.state.facts.get(F)
        calls = [norm_ctor(e.c) for e in o.state.trace if e.kind == "call" and norm_ctor(e.c)]
        ids = [text(k[1].get("id")) for k in calls if k[0] == "Name"]
        w = f"{fi.file}:{fi.node.lineno}"
        if not ids:
            c.unknown("C36:generated:root", w, "")
            continue
        n += 1
        if forced:
            imp = [k for k in calls if k[0] == "Call" and k[1].get("args", NONE)[0] == "list" and k[1]["args"][1] and "__import__" in ids]
            first = [norm_ctor(k[1]["args"][1][0]) for k in imp]
            c.require("C36:generated:import", True if any(f and f[0] == "Constant" and rooted(f[1].get("value")) for f in first) else
                      False if PK not in ids and (not imp or all(f and f[0] == "Constant" and f[1].get("value") is not None and not any(isinstance(x, str) and PK in x for y in subterms(f[1]["value"]) if isinstance(y, tuple) for x in y) for f in first)) else None, w, "the generated code does not import the package before it refers to it")
            for k in imp:
                args = k[1]["args"][1]
                kws = [norm_ctor(x) for x in k[1].get("keywords", ("list", ()))[1]] if k[1].get("keywords", NONE)[0] == "list" else []
                lv = norm_ctor(args[4]) if len(args) > 4 else next((norm_ctor(x[1].get("value")) for x in kws if x and text(x[1].get("arg")) == "level"), None)
                if lv and lv[0] == "Constant":
                    val = lv[1].get("value")
                    c.require("C36:generated:level", None if val is None or val[0] != "const" else val[2] == 0, w, "the generated code imports the package relative to the package of the program")
            whole = [f for f in first if f and f[0] == "Constant" and f[1].get("value") is not None and parts_of(f[1]["value"])[-1:] == [P0]]
            c.require("C36:generated:import", not whole, w, "the generated code imports the attribute itself as if it were a module")
        elif forced is False:
            c.require("C36:generated:root", True if ids == [PK] else False if None not in ids and PK not in ids and "__import__" not in ids else None, w, f"generated references start at {ids}")
        for i in ids:
            if i is not None and i != PK:
                c.require("C36:generated:root", hasattr(builtins, i), w, f"the generated code uses {i}, which is not a builtin")
    c.require("C36:generated:root", n > 0 or None, "", "")


def parts_of(t):
    """the parts a text is put together from"""
    if t[0] in ("fstr", "joined"):
        return [y for x in t[1] if isinstance(x, tuple) for y in parts_of(x)]
    if t[0] in ("format", "fmt", "str") and len(t) > 1 and isinstance(t[1], tuple):
        return parts_of(t[1])
    if t[0] == "binop" and t[1] == "Add":
        return parts_of(t[2]) + parts_of(t[3])
    return [t]


def rooted(t):
    if t is None:
        return False
    s = text(t)
    if s is not None:
        return s.split(".")[0] == PK
    if t[0] in ("fstr", "joined", "format"):
        x = t[1][0] if t[1] else None
        s = text(x) if isinstance(x, tuple) else x
        return isinstance(s, str) and s.split(".")[0] == PK
    return False


# ---- source text handed to a session

def session(c, ix, ns):
    pat = re.compile(r"(?<![\w.])mcpyrate((?:\.[A-Za-z_]\w*)+)\s*\(")
    imp = re.compile(r"^\s*import (mcpyrate(?:\.\w+)*)\s*$")
    frm = re.compile(r"^\s*from (mcpyrate(?:\.\w+)*) import ([\w, ]+)\s*$")
    for name, m in sorted(ix.modules.items()):
        docs = {id(n.body[0].value) for n in ast.walk(m.tree) if isinstance(n, (ast.Module, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs:
                w = f"{m.relpath}:{n.lineno}"
                for x in pat.finditer(n.value):
                    c.require("C36:session:path", resolve(ix, ns, PK + x[1]), w, f"a session is given code that refers to {PK}{x[1]}, which does not exist")
                for line in n.value.split("\n"):
                    x = imp.match(line)
                    if x:
                        c.require("C36:session:import", x[1] in ix.modules, w, f"a session is given code that imports {x[1]}, which does not exist")
                    x = frm.match(line)
                    if x and x[1] in ix.modules:
                        for y in x[2].split(","):
                            if y.split()[0] != "macros":
                                c.require("C36:session:import", ns.has(x[1], y.split()[0]), w, f"a session is given code that imports {y.strip()} from {x[1]}")
