"""Loops written out by hand are brought back to the plain form before the analysis looks at them.

Each rewrite is an equivalence of programs; what does not match exactly one of the forms is left as it is.
"""
import ast
import copy


def _same(a, b):
    return ast.dump(a) == ast.dump(b)


def _load(e):
    e = copy.deepcopy(e)
    for x in ast.walk(e):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return e


def _uses(n, name):
    return sum(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)) if not isinstance(n, list) else sum(_uses(x, name) for x in n)


def _declared(fn, name):
    return any(isinstance(x, (ast.Nonlocal, ast.Global)) and name in x.names for x in ast.walk(fn)) or \
        any(isinstance(x, ast.arg) and x.arg == name for x in ast.walk(fn))


def _call(e, name, n=None):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == name and not e.keywords and (n is None or len(e.args) == n) and \
        not any(isinstance(a, ast.Starred) for a in e.args)


def _path(e):
    return isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and _path(e.value)


def _assign(st):
    """(name, value) of a plain assignment to one name"""
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
        return st.targets[0].id, st.value
    return None, None


def _own_continue(body):
    for x in body:
        if isinstance(x, ast.Continue):
            return True
        if isinstance(x, (ast.For, ast.While, ast.AsyncFor, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if isinstance(x, (ast.For, ast.While, ast.AsyncFor)) and _own_continue(x.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if _own_continue(getattr(x, f, None) or []):
                return True
        if any(_own_continue(h.body) for h in getattr(x, "handlers", ())) or any(_own_continue(k.body) for k in getattr(x, "cases", ())):
            return True
    return False


class _Sub(ast.NodeTransformer):
    """loads of E[I] become a name"""

    def __init__(self, e, i, new):
        self.e, self.i, self.new, self.n, self.stores = e, i, new, 0, 0

    def visit_Subscript(self, x):
        self.generic_visit(x)
        if isinstance(x.slice, ast.Name) and x.slice.id == self.i and _same(_load(x.value), self.e):
            if isinstance(x.ctx, ast.Load):
                self.n += 1
                return ast.copy_location(ast.Name(self.new, ast.Load()), x)
            self.stores += 1
        return x


class Canon(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.count = 0

    def visit_FunctionDef(self, f):
        self.fn.append(f)
        self.generic_visit(f)
        self.fn.pop()
        return f
    visit_AsyncFunctionDef = visit_FunctionDef

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.fn:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self.block(b))
        return node

    def visit_Call(self, x):
        """map(f, xs) -> (f(x) for x in xs), filter(f, xs) -> (x for x in xs if f(x))"""
        self.generic_visit(x)
        if (_call(x, "map", 2) or _call(x, "filter", 2)) and self.fn:
            f, xs = x.args
            v = f"_x{x.lineno}_{x.col_offset}"
            item = ast.Name(v, ast.Load())
            if isinstance(f, ast.Lambda) and len(f.args.args) == 1 and not (f.args.posonlyargs or f.args.kwonlyargs or f.args.vararg or f.args.kwarg or f.args.defaults):
                v = f.args.args[0].arg
                item = ast.Name(v, ast.Load())
                r = f.body
            elif _path(f):
                r = ast.Call(f, [item], [])
            elif isinstance(f, ast.Constant) and f.value is None and x.func.id == "filter":
                r = item
            else:
                return x
            self.count += 1
            if x.func.id == "map":
                new = ast.GeneratorExp(r, [ast.comprehension(ast.Name(v, ast.Store()), xs, [], 0)])
            else:
                new = ast.GeneratorExp(item, [ast.comprehension(ast.Name(v, ast.Store()), xs, [r], 0)])
            return ast.fix_missing_locations(ast.copy_location(new, x))
        return x

    def block(self, body):
        body = list(body)
        i = 0
        while i < len(body):
            r = self.iterator(body, i) or self.counter(body, i) or self.index(body, i) or self.listed(body, i) or self.flag(body, i)
            if r:
                n, new = r
                for x in new:
                    ast.fix_missing_locations(x)
                body[i:i + n] = new
                i = max(0, i - 1)
                self.count += 1
                continue
            i += 1
        return body

    # v = iter(X); while True: try: t = next(v) except StopIteration: break; ...
    def iterator(self, body, i):
        v, e = _assign(body[i])
        if v is None or not _call(e, "iter", 1) or i + 1 >= len(body):
            return None
        w = body[i + 1]
        if not (isinstance(w, ast.While) and isinstance(w.test, ast.Constant) and w.test.value and not w.orelse and w.body):
            return None
        fn = self.fn[0]
        if _uses(fn, v) != 2 or _declared(fn, v):
            return None
        t = w.body[0]
        if isinstance(t, ast.Try) and len(t.body) == 1 and isinstance(t.body[0], ast.Assign) and len(t.body[0].targets) == 1 and _call(t.body[0].value, "next", 1) and \
                not t.finalbody and len(t.handlers) == 1 and isinstance(t.handlers[0].type, ast.Name) and t.handlers[0].type.id == "StopIteration" and \
                len(t.handlers[0].body) == 1 and isinstance(t.handlers[0].body[0], ast.Break) and isinstance(t.body[0].value.args[0], ast.Name) and t.body[0].value.args[0].id == v:
            new = ast.For(t.body[0].targets[0], e.args[0], t.orelse + w.body[1:] or [ast.Pass()], [], None)
            return 2, [ast.copy_location(new, w)]
        return None

    # i = 0; while i < len(E): ...; i += 1
    def counter(self, body, i):
        v, e = _assign(body[i])
        if v is None or not (isinstance(e, ast.Constant) and e.value == 0 and type(e.value) is int) or i + 1 >= len(body):
            return None
        w = body[i + 1]
        if not (isinstance(w, ast.While) and not w.orelse and isinstance(w.test, ast.Compare) and len(w.test.ops) == 1 and isinstance(w.test.ops[0], (ast.Lt, ast.NotEq)) and
                isinstance(w.test.left, ast.Name) and w.test.left.id == v and _call(w.test.comparators[0], "len", 1) and _path(w.test.comparators[0].args[0]) and len(w.body) > 1):
            return None
        last = w.body[-1]
        step = isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == v and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1
        if not step or _own_continue(w.body) or _declared(self.fn[0], v) or any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, (ast.Store, ast.Del)) for y in w.body[:-1] for x in ast.walk(y)):
            return None
        if _uses(self.fn[0], v) != _uses(body[i], v) + _uses(w, v):
            return None     # read after the loop
        E = w.test.comparators[0].args[0]
        if self._changes(w.body, E):
            return None
        new = ast.For(ast.Name(v, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [w.test.comparators[0]], []), w.body[:-1], [], None)
        return 2, [ast.copy_location(new, w)]

    def _changes(self, body, E):
        """may the body rebind E or change its length?"""
        d = ast.dump(_load(E))
        for y in body:
            for x in ast.walk(y):
                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) and ast.dump(_load(x)) == d:
                    return True
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and any(isinstance(z, ast.Name) and z.id == x.id for z in ast.walk(E)):
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.dump(_load(x.func.value)) == d and x.func.attr in ("append", "insert", "pop", "remove", "clear", "extend", "sort", "reverse"):
                    return True
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Del, ast.Store)) and ast.dump(_load(x.value)) == d and (isinstance(x.ctx, ast.Del) or isinstance(x.slice, ast.Slice)):
                    return True
        return False

    # for i in range(len(E)): ... E[i] ...
    def index(self, body, i):
        st = body[i]
        if not (isinstance(st, ast.For) and isinstance(st.target, ast.Name) and isinstance(st.iter, ast.Call)):
            return None
        r = st.iter
        if _call(r, "range", 2) and isinstance(r.args[0], ast.Constant) and r.args[0].value == 0:
            n = r.args[1]
        elif _call(r, "range", 1):
            n = r.args[0]
        else:
            return None
        if not (_call(n, "len", 1) and _path(n.args[0])) or self._changes(st.body, n.args[0]):
            return None
        E, v = _load(n.args[0]), st.target.id
        if any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, (ast.Store, ast.Del)) for y in st.body for x in ast.walk(y)):
            return None
        trial = _Sub(E, v, f"{v}__item")
        new = [trial.visit(copy.deepcopy(x)) for x in st.body]
        if trial.stores or not trial.n:
            return None
        elsewhere = _uses(self.fn[0], v) - _uses(st, v)
        left = _uses(new, v)
        t, tv = new[0].targets[0] if isinstance(new[0], ast.Assign) and len(new[0].targets) == 1 else None, getattr(new[0], "value", None)
        target = ast.Name(trial.new, ast.Store())
        if t is not None and isinstance(tv, ast.Name) and tv.id == trial.new and trial.n == 1:
            target, new = t, new[1:] or [ast.Pass()]
        it = n.args[0]
        if left or elsewhere and not self._rebound(body[i + 1:], v):
            target = ast.Tuple([ast.Name(v, ast.Store()), target], ast.Store())
            it = ast.Call(ast.Name("enumerate", ast.Load()), [it], [])
        return 1, [ast.copy_location(ast.For(target, it, new, st.orelse, None), st)]

    def _rebound(self, rest, v):
        return not _uses(rest, v)

    # v = list(X); for t in v: ...      (v not used elsewhere)
    def listed(self, body, i):
        v, e = _assign(body[i])
        if v is None or i + 1 >= len(body) or not (_call(e, "list", 1) or _call(e, "tuple", 1)):
            return None
        st = body[i + 1]
        if not isinstance(st, ast.For) or _uses(self.fn[0], v) != 2 or _declared(self.fn[0], v):
            return None
        if isinstance(st.iter, ast.Name) and st.iter.id == v:
            it = e
        elif _call(st.iter, "enumerate", 1) and isinstance(st.iter.args[0], ast.Name) and st.iter.args[0].id == v:
            it = ast.Call(st.iter.func, [e], [])
        else:
            return None
        return 2, [ast.copy_location(ast.For(st.target, it, st.body, st.orelse, None), st)]

    # f = False; for t in X: if c: f = True; break
    def flag(self, body, i):
        v, e = _assign(body[i])
        if v is None or not (isinstance(e, ast.Constant) and e.value in (True, False) and type(e.value) is bool) or i + 1 >= len(body):
            return None
        st = body[i + 1]
        if not isinstance(st, ast.For) or st.orelse or _declared(self.fn[0], v) or _uses(st, v) != 1:
            return None
        ifs, b = [], st.body
        while len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
            ifs.append(b[0].test)
            b = b[0].body
        if not ifs or len(b) != 2 or not isinstance(b[1], ast.Break):
            return None
        n, x = _assign(b[0])
        if n != v or not (isinstance(x, ast.Constant) and type(x.value) is bool and x.value is not e.value):
            return None
        own = {y.id for y in ast.walk(st.target) if isinstance(y, ast.Name)}
        if any(_uses(self.fn[-1], y) != _uses(st, y) for y in own):
            return None
        test = ifs[-1]
        isany = x.value
        if not isany:
            if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
                test = test.operand
            else:
                test = ast.UnaryOp(ast.Not(), test)
        g = ast.GeneratorExp(test, [ast.comprehension(st.target, st.iter, ifs[:-1], 0)])
        new = ast.Assign(body[i].targets, ast.Call(ast.Name("any" if isany else "all", ast.Load()), [g], []))
        return 2, [ast.copy_location(new, st)]


def canonical(tree):
    return Canon().visit(tree)
