"""Program index: the parsed modules of the package, its functions, classes and name resolution.

Everything is computed from the source text of the current tree; nothing from it is imported.
"""
import ast
import builtins
import os

from lib.canon import canonical

REPO = os.environ.get("MCPYRATE_REPO", "/repo")
PKG = "mcpyrate"


class AnalysisBroken(Exception):
    """An anchor vanished or the analysis cannot give an answer."""


class FuncInfo:
    __slots__ = ("qualname", "name", "node", "module", "cls", "parent", "is_method", "decorators",
                 "kind", "_locals", "_nonlocals", "_globals", "is_generator", "outer")

    def __init__(self, qualname, name, node, module, cls, parent):
        self.qualname = qualname
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls          # ClassInfo for direct methods
        self.parent = parent    # enclosing FuncInfo or None
        self.outer = parent     # like parent, also for methods of classes defined inside functions
        self.decorators = list(getattr(node, "decorator_list", []))
        self._locals = None
        decos = {dotted_text(d) for d in self.decorators}
        if cls is not None and parent is None:
            self.kind = ("static" if "staticmethod" in decos else "class" if "classmethod" in decos
                         else "property" if "property" in decos else "method")
        else:
            self.kind = "function"
        self.is_generator = _is_generator(node)

    def __repr__(self):
        return f"<func {self.qualname}>"

    @property
    def lineno(self):
        return self.node.lineno

    @property
    def file(self):
        return self.module.relpath

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def scopes(self):
        """(locals, nonlocals, globals) by the scoping rules of Python."""
        if self._locals is None:
            loc, nl, gl = set(self.all_params()), set(), set()
            body = self.node.body if isinstance(self.node.body, list) else [ast.Expr(self.node.body)]
            _collect_bindings(body, loc, nl, gl)
            self._nonlocals, self._globals = nl, gl
            self._locals = loc - nl - gl
        return self._locals, self._nonlocals, self._globals


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def _collect_bindings(stmts, loc, nl, gl):
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            todo.extend(getattr(n, "decorator_list", []))
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension targets live in their own scope; walrus leaks out
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    loc.add(sub.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            loc.add(n.rest)
        todo.extend(ast.iter_child_nodes(n))


def dotted_text(node):
    """'a.b.c' for a Name/Attribute chain (looking through calls), else None."""
    if isinstance(node, ast.Call):
        return dotted_text(node.func)
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted_text(node.value)
        return f"{b}.{node.attr}" if b else None
    return None


class ClassInfo:
    def __init__(self, qualname, node, module):
        self.qualname = qualname
        self.name = node.name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}     # class-level simple assignments: name -> expr
        self.bases = []     # resolved dotted names

    def __repr__(self):
        return f"<class {self.qualname}>"


class ModuleInfo:
    def __init__(self, name, path, relpath, tree, source, ispkg):
        self.name, self.path, self.relpath, self.tree, self.source, self.ispkg = name, path, relpath, tree, source, ispkg
        self.imports = {}      # local name -> dotted target
        self.functions = {}    # top-level
        self.classes = {}
        self.assigns = {}      # top-level name -> list of value exprs (None when not simple)
        self.star_imports = []

    def __repr__(self):
        return f"<module {self.name}>"


def _all_params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def _closest(fs, q):
    import difflib
    name = q.rpartition(".")[2]
    r = difflib.get_close_matches(name, [f.name for f in fs], 1, 0.4)
    return next((f for f in fs if r and f.name == r[0]), None)


_KNOWN = []


def _known_private():
    if not _KNOWN:
        import json
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.json")) as f:
            d = json.load(f)
        _KNOWN.append({"names": d["names"], "params": d.get("params", {})})
    return _KNOWN[0]


_NODE_FIELDS = {f for n in vars(ast).values() if isinstance(n, type) and issubclass(n, ast.AST) for f in n._fields}


class Index:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.func_by_node = {}
        pkgdir = os.path.join(self.root, PKG)
        if not os.path.isdir(pkgdir):
            raise AnalysisBroken(f"package directory {pkgdir} not found")
        for d, dirs, files in os.walk(pkgdir):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "test"))
            for fn in sorted(files):
                if fn.endswith(".py"):
                    self._load(os.path.join(d, fn))
        self._undo_renames()
        for m in self.modules.values():
            self._scan(m)
        for c in self.classes.values():
            c.bases = [self.resolve_expr(c.module, b) for b in c.node.bases]

    def _undo_renames(self):
        """A private function of the package that is called by another name now gets its old name back."""
        known = _known_private()
        defs = {}
        for m in self.modules.values():
            for st in m.tree.body:
                if isinstance(st, ast.FunctionDef):
                    defs.setdefault(m.name, []).append(st)
                elif isinstance(st, ast.ClassDef):
                    defs.setdefault(f"{m.name}.{st.name}", []).extend(x for x in st.body if isinstance(x, ast.FunctionDef))
        have = {f"{o}.{f.name}" for o, fs in defs.items() for f in fs}
        every = [f.name for fs in defs.values() for f in fs]
        back = {}
        for q, params in known["params"].items():
            owner, _, name = q.rpartition(".")
            if q in have or name in every:
                continue
            same = [f for f in defs.get(owner, ()) if f"{owner}.{f.name}" not in known["names"] and _all_params(f) == params]
            lost = [r for r, ps in known["params"].items() if r not in have and r.rpartition(".")[0] == owner and ps == params]
            if len(same) == len(lost):
                # several of the same shape: in the order in which they were written
                new = same[sorted(lost, key=known["names"].index).index(q)] if len(lost) == 1 else _closest(same, q)
                if new is not None and (every.count(new.name) == 1 or back.get(new.name, name) == name):
                    back[new.name] = name
        for m in self.modules.values():
            # a name that is also used for something else cannot be told apart
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    back.pop(x.id, None)
                elif isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    back.pop(x.attr, None)
                elif isinstance(x, (ast.arg, ast.keyword)):
                    back.pop(x.arg, None)
        for name in _NODE_FIELDS & set(back):
            del back[name]
        if not back:
            return
        for m in self.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Name) and x.id in back:
                    x.id = back[x.id]
                elif isinstance(x, (ast.FunctionDef, ast.alias)) and x.name in back:
                    x.name = back[x.name]
                elif isinstance(x, ast.Attribute) and x.attr in back:
                    x.attr = back[x.attr]
                elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value in back:
                    x.value = back[x.value]

    # -- loading
    def add_source(self, name, src):
        """Add a synthetic client module to be analysed together with the package (never executed)."""
        m = ModuleInfo(name, f"<{name}>", f"<{name}>", ast.parse(src), src, False)
        self.modules[name] = m
        self._scan(m)
        for c in self.classes.values():
            if c.module is m:
                c.bases = [self.resolve_expr(m, b) for b in c.node.bases]
        return m

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, ".")
        ispkg = name.endswith(".__init__")
        if ispkg:
            name = name[:-len(".__init__")]
        with open(path, encoding="utf-8") as f:
            src = f.read()
        self.modules[name] = ModuleInfo(name, path, rel, canonical(ast.parse(src, path)), src, ispkg)

    def _scan(self, m):
        for st in self._toplevel(m.tree.body):
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self._scan_import(m, st, m.imports)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._add_func(m, f"{m.name}.{st.name}", st, None, None)
                m.functions[st.name] = fi
            elif isinstance(st, ast.ClassDef):
                self._add_class(m, f"{m.name}.{st.name}", st)
                m.classes[st.name] = self.classes[f"{m.name}.{st.name}"]
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns.setdefault(t.id, []).append(st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        vals = st.value.elts if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts) else [None] * len(t.elts)
                        for e, v in zip(t.elts, vals):
                            if isinstance(e, ast.Name):
                                m.assigns.setdefault(e.id, []).append(v)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                m.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                m.assigns.setdefault(st.target.id, []).append(None)

    def _toplevel(self, body):
        for st in body:
            if isinstance(st, ast.If):
                yield from self._toplevel(st.body)
                yield from self._toplevel(st.orelse)
            elif isinstance(st, ast.Try):
                yield from self._toplevel(st.body)
                for h in st.handlers:
                    yield from self._toplevel(h.body)
                yield from self._toplevel(st.orelse)
                yield from self._toplevel(st.finalbody)
            elif isinstance(st, ast.With):
                yield from self._toplevel(st.body)
            else:
                yield st

    def _scan_import(self, m, st, out):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            base = st.module or ""
            if st.level:
                parts = m.name.split(".")
                if not m.ispkg:
                    parts = parts[:-1]
                if st.level > 1:
                    parts = parts[:len(parts) - (st.level - 1)]
                base = ".".join(parts + ([st.module] if st.module else []))
            for a in st.names:
                if a.name == "*":
                    m.star_imports.append(base)
                else:
                    out[a.asname or a.name] = f"{base}.{a.name}" if base else a.name

    def _add_func(self, m, qual, node, cls, parent):
        if qual in self.funcs and self.funcs[qual].node is not node:
            i = 2
            while f"{qual}#{i}" in self.funcs:
                i += 1
            qual = f"{qual}#{i}"
        fi = FuncInfo(qual, getattr(node, "name", "<lambda>"), node, m, cls, parent)
        self.funcs[qual] = fi
        self.func_by_node[node] = fi
        body = node.body if isinstance(node.body, list) else [node.body]
        todo = list(body) + list(node.args.defaults) + [d for d in node.args.kw_defaults if d is not None]
        while todo:
            n = todo.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, f"{qual}.{n.name}", n, None, fi)
                todo.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                self._add_func(m, f"{qual}.<lambda>", n, None, fi)
                continue
            if isinstance(n, ast.ClassDef):
                self._add_class(m, f"{qual}.{n.name}", n, parent=fi)
                continue
            todo.extend(ast.iter_child_nodes(n))
        return fi

    def _add_class(self, m, qual, node, parent=None):
        ci = ClassInfo(qual, node, m)
        self.classes[qual] = ci
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._add_func(m, f"{qual}.{st.name}", st, ci, None)
                fi.outer = parent
                ci.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                ci.attrs[st.target.id] = st.value
        # method aliases: visit_X = visit_Y
        for k, v in list(ci.attrs.items()):
            if isinstance(v, ast.Name) and v.id in ci.methods:
                ci.methods[k] = ci.methods[v.id]
        return ci

    # -- resolution
    def resolve_name(self, m, name):
        """Resolve a module-global name to a dotted reference (canonicalized through re-exports)."""
        if name in m.functions or name in m.classes:
            return f"{m.name}.{name}"
        if name in m.assigns and name not in m.imports:
            return self.alias(m, name) or f"{m.name}.{name}"
        if name in m.imports:
            return self.canonical(m.imports[name])
        if name in m.assigns:
            return f"{m.name}.{name}"
        for base in m.star_imports:
            if base in self.modules:
                r = self.resolve_name(self.modules[base], name)
                if r and not r.startswith("builtins."):
                    return r
        if hasattr(builtins, name) or name in ("__name__", "__file__"):
            return f"builtins.{name}"
        return None

    def alias(self, m, name):
        """What a module-level `name = other` stands for, if `other` is a function or class of the same module."""
        v = m.assigns[name]
        if len(v) != 1 or not isinstance(v[0], ast.Name) or v[0].id not in m.functions and v[0].id not in m.classes:
            return None
        stores = [x for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(x, ast.Global) and name in x.names]
        return f"{m.name}.{v[0].id}" if len(stores) == 1 else None

    def canonical(self, dotted, depth=0):
        """Follow re-exports: mcpyrate.unparse -> mcpyrate.unparser.unparse."""
        if depth > 8:
            return dotted
        if dotted in self.modules or dotted in self.funcs or dotted in self.classes:
            return dotted
        if "." in dotted:
            mod, _, name = dotted.rpartition(".")
            mod = self.canonical(mod, depth + 1)
            if mod in self.modules:
                m = self.modules[mod]
                if f"{mod}.{name}" in self.modules and name not in m.imports:
                    return f"{mod}.{name}"
                if name in m.functions or name in m.classes:
                    return f"{mod}.{name}"
                if name in m.assigns and name not in m.imports:
                    return self.alias(m, name) or f"{mod}.{name}"
                if name in m.imports:
                    return self.canonical(m.imports[name], depth + 1)
                for base in m.star_imports:
                    if base in self.modules:
                        r = self.canonical(f"{base}.{name}", depth + 1)
                        if self.exists(r):
                            return r
            return f"{mod}.{name}"
        return dotted

    def exists(self, dotted):
        if dotted in self.modules or dotted in self.funcs or dotted in self.classes:
            return True
        mod, _, name = dotted.rpartition(".")
        if mod in self.modules:
            m = self.modules[mod]
            return name in m.assigns or name in m.imports or name in m.functions or name in m.classes
        if mod in self.classes:
            return self.class_attr(mod, name) is not None
        return False

    def resolve_expr(self, m, e):
        t = dotted_text(e)
        if t is None:
            return None
        head, *rest = t.split(".")
        r = self.resolve_name(m, head)
        if r is None:
            return None
        return self.canonical(".".join([r] + rest))

    def mro(self, cls):
        """Linearization over repo classes (external bases are kept as dotted strings at the end)."""
        out, seen = [], set()

        def go(c):
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            if c in self.classes:
                for b in self.classes[c].bases:
                    if b:
                        go(b)
        go(cls.qualname if isinstance(cls, ClassInfo) else cls)
        return out

    def find_method(self, cls, name, after=None):
        started = after is None
        for c in self.mro(cls):
            if not started:
                if c == after:
                    started = True
                continue
            if c in self.classes and name in self.classes[c].methods:
                return self.classes[c].methods[name]
        return None

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if c in self.classes:
                ci = self.classes[c]
                if name in ci.methods:
                    return ci.methods[name]
                if name in ci.attrs:
                    return ci.attrs[name]
        return None

    def class_constant(self, cls, name):
        """(module, value expression) of a class-level assignment."""
        for c in self.mro(cls):
            if c in self.classes:
                ci = self.classes[c]
                if name in ci.methods:
                    return None
                if name in ci.attrs:
                    return ci.module, ci.attrs[name]
        return None

    def instance_attrs(self, cls):
        """Names assigned as attributes anywhere in the class's methods (any object)."""
        out = set()
        for c in self.mro(cls):
            if c in self.classes:
                out |= {n.attr for n in ast.walk(self.classes[c].node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        return out

    def is_subclass(self, cls, base):
        return base in self.mro(cls)

    def func(self, qual):
        """Function by qualname; AnalysisBroken if gone."""
        if qual in self.funcs:
            return self.funcs[qual]
        # moved between modules but re-exported where it was
        c = self.canonical(qual)
        if c in self.funcs:
            return self.funcs[c]
        # method moved to a base class
        cls, _, name = qual.rpartition(".")
        if cls in self.classes:
            fi = self.find_method(cls, name)
            if fi:
                return fi
        raise AnalysisBroken(f"anchor vanished: function {qual}")

    def cls(self, qual):
        if qual in self.classes:
            return self.classes[qual]
        c = self.canonical(qual)
        if c in self.classes:
            return self.classes[c]
        raise AnalysisBroken(f"anchor vanished: class {qual}")

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f"anchor vanished: module {name}")
        return self.modules[name]

    def varying(self, mod):
        """Module-level names that some function rebinds, or whose value it changes in place."""
        m = self.modules[mod]
        if getattr(m, "_varying", None) is None:
            out = set()
            for fn in ast.walk(m.tree):
                if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    continue
                for n in ast.walk(fn):
                    if isinstance(n, ast.Global):
                        out.update(n.names)
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                        out.add(n.value.id)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                            and n.func.attr in ("append", "extend", "insert", "add", "update", "setdefault", "pop", "popitem", "clear", "remove", "discard"):
                        out.add(n.func.value.id)
            m._varying = out
        return m._varying

    def is_varying(self, dotted):
        mod, _, name = dotted.rpartition(".")
        return mod in self.modules and name in self.modules[mod].assigns and name in self.varying(mod)

    def global_value(self, dotted):
        """Value expression of a module-level name with exactly one assignment."""
        mod, _, name = dotted.rpartition(".")
        if mod in self.modules:
            v = self.modules[mod].assigns.get(name)
            if v and len(v) == 1 and name not in self.varying(mod):
                return self.modules[mod], v[0]
        return None, None


def loc(fi_or_mod, node):
    f = fi_or_mod.file if isinstance(fi_or_mod, FuncInfo) else fi_or_mod.relpath
    return f"{f}:{getattr(node, 'lineno', '?')}"
