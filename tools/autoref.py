"""Behaviour-preserving rewrites of the whole package, to look for false alarms.

usage: autoref.py NAME OUTDIR [SEED PROB]   applies rewrite NAME at every (or a random share of the) sites of a copy of the repository's package
"""
import ast, builtins, os, random, shutil, sys

REPO = os.environ.get("AUTOREF_REPO", "/repo")
PROB, RNG = 1.0, random.Random(0)


def pick():
    return PROB >= 1.0 or RNG.random() < PROB


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def has(n, *T):
    return any(isinstance(x, T) for x in ast.walk(n))


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def load(x):
    return ast.Name(x, ast.Load())


def store(x):
    return ast.Name(x, ast.Store())


class Base(ast.NodeTransformer):
    """works on functions, block by block"""
    n = 0
    depth = 0

    def fresh(self, stem):
        Base.n += 1
        return f"{stem}{Base.n}"

    def visit_FunctionDef(self, f):
        self.depth += 1
        self.stack = getattr(self, "stack", []) + [f]
        self.generic_visit(f)
        self.stack = self.stack[:-1]
        self.depth -= 1
        return f
    visit_AsyncFunctionDef = visit_FunctionDef

    def generic_visit(self, node):
        for name, old in ast.iter_fields(node):
            if isinstance(old, list) and old and isinstance(old[0], ast.stmt):
                new = []
                for x in old:
                    r = self.visit(x)
                    new.extend(r if isinstance(r, list) else [r])
                if self.depth:
                    new = self.block(new)
                setattr(node, name, new)
            elif isinstance(old, list):
                setattr(node, name, [self.visit(x) if isinstance(x, ast.AST) else x for x in old])
            elif isinstance(old, ast.AST):
                setattr(node, name, self.visit(old))
        return node

    def block(self, body):
        out = []
        for x in body:
            r = self.stmt(x) if pick() else x
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, x):
        return x


class RetVar(Base):
    def stmt(self, x):
        if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, (ast.Name, ast.Constant)):
            v = self.fresh("outcome")
            return [ast.Assign([store(v)], x.value), ast.Return(load(v))]
        return x


class InvertIf(Base):
    def stmt(self, x):
        if isinstance(x, ast.If) and x.orelse and not (len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)):
            t = x.test.operand if isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) else ast.UnaryOp(ast.Not(), x.test)
            return ast.If(t, x.orelse, x.body)
        return x


class CompLoop(Base):
    def loop(self, comp, v):
        g = comp.generators
        if any(c.is_async for c in g):
            return None
        bound = set().union(*[names(c.target) for c in g])
        if self.stack and any(isinstance(x, ast.arg) and x.arg in bound for f in self.stack for x in ast.walk(f.args)):
            return None
        others = [y for f in self.stack[-1:] for y in ast.walk(f) if isinstance(y, ast.Name) and y.id in bound]
        inside = [y for y in ast.walk(comp) if isinstance(y, ast.Name) and y.id in bound]
        ren = {b: self.fresh(b + "_") for b in bound} if len(others) > len(inside) else {}
        for y in inside:
            y.id = ren.get(y.id, y.id)
        if isinstance(comp, ast.DictComp):
            inner = [ast.Assign([ast.Subscript(load(v), comp.key, ast.Store())], comp.value)]
            init = ast.Dict([], [])
        elif isinstance(comp, ast.SetComp):
            inner = [ast.Expr(ast.Call(ast.Attribute(load(v), "add", ast.Load()), [comp.elt], []))]
            init = ast.Call(load("set"), [], [])
        else:
            inner = [ast.Expr(ast.Call(ast.Attribute(load(v), "append", ast.Load()), [comp.elt], []))]
            init = ast.List([], ast.Load())
        for c in reversed(g):
            for t in reversed(c.ifs):
                inner = [ast.If(t, inner, [])]
            inner = [ast.For(c.target, c.iter, inner, [])]
        return [ast.Assign([store(v)], init)] + inner

    def stmt(self, x):
        C = (ast.ListComp, ast.DictComp, ast.SetComp)
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, C) and x.targets[0].id not in names(x.value):
            return self.loop(x.value, x.targets[0].id) or x
        if isinstance(x, ast.Return) and isinstance(x.value, C):
            v = self.fresh("gathered")
            r = self.loop(x.value, v)
            return r + [ast.Return(load(v))] if r else x
        if isinstance(x, (ast.Assign, ast.Return, ast.Expr)) and isinstance(x.value, ast.Call) and isinstance(x.value.func, (ast.Name, ast.Attribute)) and not has(x.value.func, ast.Call):
            for i, a in enumerate(x.value.args):
                if isinstance(a, C):
                    v = self.fresh("gathered")
                    r = self.loop(a, v)
                    if r:
                        x.value.args[i] = load(v)
                        return r + [x]
                if not isinstance(a, (ast.Name, ast.Constant)):
                    break
        return x


class IfExp(Base):
    def stmt(self, x):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.IfExp) and isinstance(x.targets[0], ast.Name):
            return ast.If(x.value.test, [ast.Assign(x.targets, x.value.body)], [ast.Assign(x.targets, x.value.orelse)])
        if isinstance(x, ast.Return) and isinstance(x.value, ast.IfExp):
            return ast.If(x.value.test, [ast.Return(x.value.body)], [ast.Return(x.value.orelse)])
        return x


class AndSplit(Base):
    def stmt(self, x):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            a, *b = x.test.values
            return ast.If(a, [ast.If(b[0] if len(b) == 1 else ast.BoolOp(ast.And(), b), x.body, [])], [])
        return x


class OrSplit(Base):
    """if a or b: leave  ->  if a: leave; if b: leave"""
    def stmt(self, x):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.Or) and leaves(x.body) and len(x.body) == 1:
            import copy
            return [ast.If(t, copy.deepcopy(x.body), []) for t in x.test.values]
        return x


class GuardElse(Base):
    """if c: leave; rest  ->  if c: leave else: rest"""
    def block(self, body):
        for i, x in enumerate(body):
            if isinstance(x, ast.If) and not x.orelse and leaves(x.body) and body[i + 1:] and pick() and not any(isinstance(y, (ast.FunctionDef, ast.ClassDef)) for y in body[i + 1:]):
                return body[:i] + [ast.If(x.test, x.body, self.block(body[i + 1:]))]
        return body


class ElseGuard(Base):
    """if c: leave else: rest  ->  if c: leave; rest"""
    def stmt(self, x):
        if isinstance(x, ast.If) and x.orelse and leaves(x.body):
            return [ast.If(x.test, x.body, [])] + x.orelse
        return x


class ArgVar(Base):
    """hoist a call that is the first argument of a call"""
    def stmt(self, x):
        if isinstance(x, (ast.Assign, ast.Return, ast.Expr)) and isinstance(x.value, ast.Call):
            c = x.value
            if has(c.func, ast.Call) or isinstance(c.func, ast.Name) and c.func.id == "super":
                return x
            for i, a in enumerate(c.args):
                if isinstance(a, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp)) :
                    v = self.fresh("value")
                    c.args[i] = load(v)
                    return [ast.Assign([store(v)], a), x]
                if not isinstance(a, (ast.Name, ast.Constant)):
                    break
        return x


class TestVar(Base):
    def stmt(self, x):
        if isinstance(x, ast.If) and not isinstance(x.test, (ast.Name, ast.Constant)):
            v = self.fresh("condition")
            t, x.test = x.test, load(v)
            return [ast.Assign([store(v)], t), x]
        return x


class IterVar(Base):
    def stmt(self, x):
        if isinstance(x, ast.For) and not isinstance(x.iter, ast.Name):
            v = self.fresh("things")
            t, x.iter = x.iter, load(v)
            return [ast.Assign([store(v)], t), x]
        return x


class Unpack(Base):
    def stmt(self, x):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Tuple):
            v = self.fresh("pair")
            t, x.target = x.target, store(v)
            x.body.insert(0, ast.Assign([t], load(v)))
        return x


class IterWhile(Base):
    """for x in xs: body (no else, no continue issue) -> it = iter(xs); while True: try: x = next(it) except StopIteration: break; body"""
    def stmt(self, x):
        if isinstance(x, ast.For) and not x.orelse:
            v = self.fresh("source")
            return [ast.Assign([store(v)], ast.Call(load("iter"), [x.iter], [])),
                    ast.While(ast.Constant(True), [ast.Try([ast.Assign([x.target], ast.Call(load("next"), [load(v)], []))], [ast.ExceptHandler(load("StopIteration"), None, [ast.Break()])], [], [])] + x.body, [])]
        return x


class IndexLoop(Base):
    """for x in xs -> for i in range(len(xs)), over a list made first"""
    def stmt(self, x):
        if isinstance(x, ast.For) and not x.orelse:
            v, i = self.fresh("things"), self.fresh("index")
            return [ast.Assign([store(v)], ast.Call(load("list"), [x.iter], [])),
                    ast.For(store(i), ast.Call(load("range"), [ast.Call(load("len"), [load(v)], [])], []), [ast.Assign([x.target], ast.Subscript(load(v), load(i), ast.Load()))] + x.body, [])]
        return x


class Exprs(Base):
    """expression-level"""
    def visit(self, node):
        r = super().visit(node)
        return self.expr(r) if isinstance(r, ast.expr) and self.depth and pick() else r

    def expr(self, x):
        return x


class InSplit(Exprs):
    def expr(self, x):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.comparators[0], ast.Tuple) and isinstance(x.left, (ast.Name, ast.Attribute)):
            eq = isinstance(x.ops[0], ast.In)
            return ast.BoolOp(ast.Or() if eq else ast.And(), [ast.Compare(x.left, [ast.Eq() if eq else ast.NotEq()], [y]) for y in x.comparators[0].elts])
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "isinstance" and isinstance(x.args[1], ast.Tuple) and isinstance(x.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [ast.Call(load("isinstance"), [x.args[0], y], []) for y in x.args[1].elts])
        return x


class Literals(Exprs):
    def expr(self, x):
        if isinstance(x, ast.List) and not x.elts and isinstance(x.ctx, ast.Load):
            return ast.Call(load("list"), [], [])
        if isinstance(x, ast.Dict) and not x.keys:
            return ast.Call(load("dict"), [], [])
        return x


class DeMorgan(Exprs):
    def expr(self, x):
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) and isinstance(x.operand, ast.BoolOp):
            b = x.operand
            return ast.BoolOp(ast.And() if isinstance(b.op, ast.Or) else ast.Or(), [ast.UnaryOp(ast.Not(), v) for v in b.values])
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.IsNot, ast.NotEq, ast.NotIn)):
            op = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}[type(x.ops[0])]()
            return ast.UnaryOp(ast.Not(), ast.Compare(x.left, [op], x.comparators))
        return x


class Flip(Exprs):
    def expr(self, x):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and not has(x.left, ast.Call) and not has(x.comparators[0], ast.Call):
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(x.ops[0]), type(x.ops[0]))()
            return ast.Compare(x.comparators[0], [op], [x.left])
        return x


class TypeEq(Exprs):
    def expr(self, x):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.IsNot)) and isinstance(x.left, ast.Call) and isinstance(x.left.func, ast.Name) and x.left.func.id == "type":
            x.ops = [ast.Eq() if isinstance(x.ops[0], ast.Is) else ast.NotEq()]
        return x


class Format(Exprs):
    """f-strings without format specs -> str.format"""
    def visit_JoinedStr(self, x):
        return x

    def expr(self, x):
        if isinstance(x, ast.JoinedStr) and all(isinstance(v, ast.Constant) or v.format_spec is None for v in x.values):
            s, args = "", []
            for v in x.values:
                if isinstance(v, ast.Constant):
                    s += v.value.replace("{", "{{").replace("}", "}}")
                else:
                    s += "{" + (f"!{chr(v.conversion)}" if v.conversion != -1 else "") + "}"
                    args.append(v.value)
            return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), args, [])
        return x


class GenList(Exprs):
    """f(gen) -> f([comp])"""
    def expr(self, x):
        if isinstance(x, ast.Call) and len(x.args) == 1 and isinstance(x.args[0], ast.GeneratorExp) and not (isinstance(x.func, ast.Name) and x.func.id in ("any", "all", "next")):
            x.args[0] = ast.ListComp(x.args[0].elt, x.args[0].generators)
        return x


class AnyLoop(Base):
    """if any(...)/all(...) -> flag computed by a loop"""
    def stmt(self, x):
        e = x.test if isinstance(x, ast.If) else x.value if isinstance(x, (ast.Return, ast.Assign)) else None
        neg = False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            neg, e = True, e.operand
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and len(e.args[0].generators) == 1:
            g = e.args[0].generators[0]
            isany = e.func.id == "any"
            v = self.fresh("found")
            test = e.args[0].elt if isany else ast.UnaryOp(ast.Not(), e.args[0].elt)
            inner = ast.If(test, [ast.Assign([store(v)], ast.Constant(isany)), ast.Break()], [])
            for t in reversed(g.ifs):
                inner = ast.If(t, [inner], [])
            ren = {b: self.fresh(b + "_") for b in names(g.target)}
            loop = ast.For(g.target, g.iter, [inner], [])
            for y in ast.walk(loop):
                if isinstance(y, ast.Name) and y.id in ren:
                    y.id = ren[y.id]
            r = load(v)
            if neg:
                r = ast.UnaryOp(ast.Not(), r)
            if isinstance(x, ast.If):
                x.test = r
            else:
                x.value = r
            return [ast.Assign([store(v)], ast.Constant(not isany)), loop, x]
        return x


class Inline(Base):
    """v = E; S(v) -> S(E), where v is used once, right away, as the first thing evaluated"""
    def block(self, body):
        f = self.stack[-1] if self.stack else None
        out = []
        for x in body:
            p = out[-1] if out else None
            if f is not None and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(x, (ast.Return, ast.Assign, ast.Expr, ast.If)) and pick():
                v = p.targets[0].id
                uses = [y for g in self.stack for y in ast.walk(g) if isinstance(y, ast.Name) and y.id == v]
                decl = any(isinstance(y, (ast.Nonlocal, ast.Global)) and v in y.names for g in self.stack for y in ast.walk(g))
                e = x.test if isinstance(x, ast.If) else x.value
                slot = None
                if isinstance(e, ast.Name) and e.id == v:
                    slot = (x, "test" if isinstance(x, ast.If) else "value", None)
                elif isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and not has(e.func, ast.Call):
                    for i, a in enumerate(e.args):
                        if isinstance(a, ast.Name) and a.id == v:
                            slot = (e, "args", i)
                            break
                        if not isinstance(a, (ast.Name, ast.Constant)):
                            break
                if slot and not decl and len(set(map(id, uses))) == 2:
                    o, n, i = slot
                    if i is None:
                        setattr(o, n, p.value)
                    else:
                        getattr(o, n)[i] = p.value
                    out[-1] = x
                    continue
            out.append(x)
        return out


class SplitTuple(Base):
    def stmt(self, x):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Tuple) and isinstance(x.value, ast.Tuple) and len(x.targets[0].elts) == len(x.value.elts) and all(isinstance(t, ast.Name) for t in x.targets[0].elts):
            if not names(x.targets[0]) & names(x.value):
                return [ast.Assign([t], v) for t, v in zip(x.targets[0].elts, x.value.elts)]
        return x


class Swap(Base):
    """swap adjacent independent, effect-free assignments and definitions"""
    def block(self, body):
        out = list(body)
        i = 0
        pure = lambda e: isinstance(e, (ast.Constant, ast.Name)) or isinstance(e, (ast.List, ast.Dict, ast.Tuple)) and not has(e, ast.Call)
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            ok = lambda s: isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and pure(s.value) or isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.defaults and not s.args.kw_defaults
            st = lambda s: {s.name} if isinstance(s, ast.FunctionDef) else names(s, ast.Store)
            rd = lambda s: set() if isinstance(s, ast.FunctionDef) else names(s.value)
            if ok(a) and isinstance(b, ast.Assign) and all(isinstance(t, ast.Name) for t in b.targets) and not (st(a) & (st(b) | names(b.value)) or st(b) & rd(a)) and pick():
                if isinstance(a, ast.FunctionDef) and has(b.value, ast.Call):
                    pass
                out[i], out[i + 1] = b, a
                i += 2
            else:
                i += 1
        return out


class RenameLocals(ast.NodeTransformer):
    """local variables (not parameters) of functions get other names"""
    def visit_Module(self, m):
        for f in ast.walk(m):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.one(f)
        return m

    def one(self, f):
        params = {x.arg for g in ast.walk(f) if isinstance(g, ast.arguments) for x in ast.walk(g) if isinstance(x, ast.arg)}
        decl = {n for x in ast.walk(f) if isinstance(x, (ast.Nonlocal, ast.Global)) for n in x.names}
        own = set()

        def rec(n):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    own.add(x.id)
                rec(x)
        rec(f)
        inner = {y.id for x in ast.walk(f) if isinstance(x, ast.ClassDef) for s in x.body if not isinstance(s, ast.FunctionDef) for y in ast.walk(s) if isinstance(y, ast.Name)}
        other = {x.name for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.ExceptHandler, ast.MatchAs)) and x is not f and getattr(x, "name", None)}
        own -= params | decl | inner | other
        own = {x for x in own if not x.endswith("_r") and not x.startswith("__")}
        ren = {x: x + "_r" for x in own}
        for y in ast.walk(f):
            if isinstance(y, ast.Name) and y.id in ren:
                y.id = ren[y.id]


class RenameNested(ast.NodeTransformer):
    """functions defined inside functions get other names"""
    def visit_Module(self, m):
        for f in ast.walk(m):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                own = {x.name for x in ast.walk(f) if x is not f and isinstance(x, ast.FunctionDef)}
                meth = {y.name for x in ast.walk(f) if isinstance(x, ast.ClassDef) for y in x.body if isinstance(y, ast.FunctionDef)}
                used = {x.attr for x in ast.walk(m) if isinstance(x, ast.Attribute)} | {x.value for x in ast.walk(f) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
                ret = {x.value.id for x in ast.walk(f) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name)}
                own -= meth | used | ret | {x.arg for g in ast.walk(f) if isinstance(g, ast.arguments) for x in ast.walk(g) if isinstance(x, ast.arg)}
                own = {x for x in own if not x.endswith("_r") and not x.startswith("__")}
                for y in ast.walk(f):
                    if isinstance(y, ast.Name) and y.id in own:
                        y.id += "_r"
                    elif isinstance(y, ast.FunctionDef) and y.name in own and y is not f:
                        y.name += "_r"
        return m


class RenamePrivate(ast.NodeTransformer):
    """module-level and class-level functions whose name starts with an underscore"""
    def visit_Module(self, m):
        return m


PRIVATE = None


def private_names(trees):
    defs = {}
    for p, m in trees.items():
        if p.endswith("unparser.py"):
            continue
        for n in m.body:
            if isinstance(n, ast.FunctionDef) and n.name.startswith("_") and not n.name.startswith("__"):
                defs[n.name] = 1
            if isinstance(n, ast.ClassDef):
                for k in n.body:
                    if isinstance(k, ast.FunctionDef) and k.name.startswith("_") and not k.name.startswith("__"):
                        defs[k.name] = 1
    return {d for d in defs if d not in ("_mcpyrate_attr", "_internal_execute", "_default", "_type_name")}


def rename_private(trees):
    own = private_names(trees)
    for m in trees.values():
        for y in ast.walk(m):
            if isinstance(y, ast.Name) and y.id in own:
                y.id += "_r"
            elif isinstance(y, ast.FunctionDef) and y.name in own:
                y.name += "_r"
            elif isinstance(y, ast.Attribute) and y.attr in own:
                y.attr += "_r"
            elif isinstance(y, ast.alias) and y.name in own:
                y.name += "_r"
            elif isinstance(y, ast.Constant) and isinstance(y.value, str) and y.value in own:
                y.value += "_r"


class Extract(Base):
    """bodies of branches and loops without control flow out of them go to a module-level function"""
    helpers = None

    def freelocals(self, stmts):
        wrap = ast.Module(stmts, [])
        used = names(wrap)
        scope = set()
        for f in self.stack:
            scope |= {x.arg for x in ast.walk(f) if isinstance(x, ast.arg)}
            scope |= {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            scope |= {x.name for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not self.stack[0]}
            scope |= {x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler) and x.name}
            scope |= {(a.asname or a.name).split(".")[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        bound = set()
        for x in ast.walk(wrap):
            if isinstance(x, ast.comprehension):
                bound |= names(x.target)
        return sorted(x for x in used & scope if x not in bound)

    def okbody(self, stmts):
        w = ast.Module(stmts, [])
        if has(w, ast.Return, ast.Yield, ast.YieldFrom, ast.Break, ast.Continue, ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Nonlocal, ast.Global, ast.Await, ast.NamedExpr, ast.Import, ast.ImportFrom, ast.Delete):
            return False
        if any(isinstance(x, ast.Raise) and x.exc is None for x in ast.walk(w)):
            return False
        if any(isinstance(x, ast.Name) and x.id in ("super", "locals", "globals", "__class__") for x in ast.walk(w)):
            return False
        if any(isinstance(x, ast.ExceptHandler) for x in ast.walk(w)):
            return False
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) for x in ast.walk(w)):
            return False
        return has(w, ast.Call) and len(stmts) >= 1 and not all(isinstance(s, ast.Raise) for s in stmts)

    def helper(self, stmts):
        ps = self.freelocals(stmts)
        n = self.fresh("_helper")
        self.helpers.append(ast.FunctionDef(n, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), stmts, [], type_params=[]))
        return ast.Call(load(n), [load(p) for p in ps], [])

    def stmt(self, x):
        if isinstance(x, (ast.If, ast.For)) and self.okbody(x.body) and not (isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Call) and isinstance(x.body[0].value.func, ast.Name) and x.body[0].value.func.id.startswith("_helper")):
            x.body = [ast.Expr(self.helper(x.body))]
        return x

    def visit_Module(self, m):
        self.helpers = []
        self.generic_visit(m)
        i = len(m.body)
        if m.body and isinstance(m.body[-1], ast.If):
            i -= 1
        # before the first class or function definition
        k = next((j for j, s in enumerate(m.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), i)
        m.body[k:k] = self.helpers
        return m


class ExtractExpr(Extract):
    """right-hand sides with calls become module-level functions"""
    def stmt(self, x):
        if isinstance(x, (ast.Assign, ast.Return)) and isinstance(x.value, (ast.Call, ast.BoolOp, ast.ListComp, ast.IfExp)) and has(x.value, ast.Call):
            w = [ast.Expr(x.value)]
            if has(x.value, ast.Lambda, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr) or any(isinstance(y, ast.Name) and y.id in ("super", "locals", "globals", "__class__") or isinstance(y, ast.Name) and y.id.startswith("_helper") for y in ast.walk(x.value)):
                return x
            call = self.helper([ast.Return(x.value)])
            x.value = call
        return x


class ExtractTest(Extract):
    def stmt(self, x):
        if isinstance(x, ast.If) and has(x.test, ast.Call) and not has(x.test, ast.Lambda, ast.NamedExpr):
            x.test = self.helper([ast.Return(x.test)])
        return x


class ExtractTail(Base):
    """the statements after the first ones of a function body go to a nested function called at the end"""
    def visit_FunctionDef(self, f):
        super().visit_FunctionDef(f)
        body = f.body
        i = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        if len(body) - i < 4 or has(f, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.ClassDef) or any(isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__") for x in ast.walk(f)):
            return f
        k = i + (len(body) - i) // 2
        tail = body[k:]
        if names(ast.Module(tail, []), ast.Store) & (names(ast.Module(body[:k], [])) | {x.arg for x in ast.walk(f.args) if isinstance(x, ast.arg)}):
            return f
        n = self.fresh("rest")
        f.body = body[:k] + [ast.FunctionDef(n, ast.arguments([], [], None, [], [], None, []), tail, [], type_params=[]), ast.Return(ast.Call(load(n), [], []))]
        return f


class SelfVar(Base):
    """self.x.y(...) -> x = self.x; x.y(...)"""
    def stmt(self, x):
        if isinstance(x, (ast.Assign, ast.Return, ast.Expr)) and isinstance(x.value, ast.Call):
            f = x.value.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name):
                v = self.fresh(f.value.attr + "_")
                old, f.value = f.value, load(v)
                return [ast.Assign([store(v)], old), x]
        return x


class AppendExtend(Base):
    """x.append(y) -> x += [y] ; x.extend(y) -> x += y on local names"""
    def stmt(self, x):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and isinstance(x.value.func.value, ast.Name) and x.value.func.attr in ("append",) and len(x.value.args) == 1:
            v = x.value.func.value.id
            own = {y.id for y in ast.walk(self.stack[-1]) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} if self.stack else set()
            inner = any(isinstance(y, (ast.FunctionDef, ast.Lambda)) and y is not self.stack[-1] and v in names(y) for y in ast.walk(self.stack[-1]))
            if v in own and not inner:
                x.value.func.attr = "extend"
                x.value.args = [ast.List([x.value.args[0]], ast.Load())]
        return x


class LoopComp(Base):
    """for x in xs: [if c:] v.append(e) -> v.extend([e for x in xs if c])"""
    def stmt(self, x):
        if isinstance(x, ast.For) and not x.orelse and len(x.body) == 1:
            s, ifs = x.body[0], []
            while isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
                ifs.append(s.test)
                s = s.body[0]
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, (ast.Name)) and s.value.func.value.id not in names(s.value.args[0]) | set().union(set(), *[names(i) for i in ifs]):
                return ast.Expr(ast.Call(ast.Attribute(s.value.func.value, "extend", ast.Load()), [ast.ListComp(s.value.args[0], [ast.comprehension(x.target, x.iter, ifs, 0)])], []))
        return x


class LambdaDef(Base):
    def stmt(self, x):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Lambda) and isinstance(x.targets[0], ast.Name):
            return ast.FunctionDef(x.targets[0].id, x.value.args, [ast.Return(x.value.body)], [], type_params=[])
        return x


class ElifNest(Base):
    """elif chain -> guards when every branch leaves; otherwise unchanged. Also: if a: ..; elif b: .. -> if a: ..; else: if b"""
    def stmt(self, x):
        return x


class FinallyNest(Base):
    """try/except/finally -> try: try/except; finally"""
    def stmt(self, x):
        if isinstance(x, ast.Try) and x.handlers and x.finalbody:
            return ast.Try([ast.Try(x.body, x.handlers, x.orelse, [])], [], [], x.finalbody)
        if isinstance(x, ast.Try) and x.orelse and not x.finalbody and all(leaves(h.body) for h in x.handlers):
            return [ast.Try(x.body, x.handlers, [], [])] + x.orelse
        return x


class WithSplit(Base):
    def stmt(self, x):
        if isinstance(x, ast.With) and len(x.items) > 1:
            body = x.body
            for it in reversed(x.items):
                body = [ast.With([it], body)]
            return body[0]
        return x


class DefaultKw(Exprs):
    """positional arguments of calls of the package's own functions by keyword"""
    sigs = {}

    def expr(self, x):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in self.sigs and len(x.args) >= 2 and not any(isinstance(a, ast.Starred) for a in x.args):
            ps = self.sigs[x.func.id]
            if ps and len(x.args) <= len(ps) and x.func.id not in {y for f in self.stack for y in names(f, ast.Store)}:
                a = x.args
                x.keywords = [ast.keyword(p, v) for p, v in zip(ps[1:len(a)], a[1:])] + x.keywords
                x.args = a[:1]
        return x


class ExtractMethod(Extract):
    """like Extract, for methods: the bodies become methods of the same class"""
    def visit_ClassDef(self, c):
        if self.depth:
            return self.generic_visit(c)
        self.clsnames = getattr(self, "clsnames", []) + [c.name]
        self.newm = []
        self.generic_visit(c)
        c.body.extend(self.newm)
        self.newm = []
        return c

    def visit_Module(self, m):
        self.helpers, self.newm = [], []
        self.generic_visit(m)
        return m

    def helper(self, stmts):
        ps = [p for p in self.freelocals(stmts) if p != "self"]
        n = self.fresh("_helper")
        self.newm.append(ast.FunctionDef(n, ast.arguments([], [ast.arg("self")] + [ast.arg(p) for p in ps], None, [], [], None, []), stmts, [], type_params=[]))
        return ast.Call(ast.Attribute(load("self"), n, ast.Load()), [load(p) for p in ps], [])

    def visit_FunctionDef(self, f):
        top = self.depth == 0
        if top:
            self.inmethod = f.args.args and f.args.args[0].arg == "self" and not f.decorator_list
        return super().visit_FunctionDef(f)

    def stmt(self, x):
        if not getattr(self, "inmethod", False) or len(self.stack) > 1:
            return x
        return super().stmt(x)


class MergeIf(Base):
    def stmt(self, x):
        if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [x.test, x.body[0].test]), x.body[0].body, [])
        return x


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


class LoopContinue(Base):
    """the last branch of a loop body becomes a guard with continue"""
    def stmt(self, x):
        if isinstance(x, ast.For) and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse:
            i = x.body.pop()
            x.body += [ast.If(negate(i.test), [ast.Continue()], [])] + i.body
        return x


class LoopNoContinue(Base):
    def stmt(self, x):
        if isinstance(x, ast.For):
            for k, i in enumerate(x.body):
                if isinstance(i, ast.If) and not i.orelse and len(i.body) == 1 and isinstance(i.body[0], ast.Continue) and x.body[k + 1:]:
                    x.body[k:] = [ast.If(negate(i.test), x.body[k + 1:], [])]
                    break
        return x


class TailGuard(Base):
    """a branch at the end of a function becomes a guard with return"""
    def visit_FunctionDef(self, f):
        super().visit_FunctionDef(f)
        x = f.body[-1]
        if isinstance(x, ast.If) and not x.orelse and not has(f, ast.Yield, ast.YieldFrom):
            f.body[-1:] = [ast.If(negate(x.test), [ast.Return(None)], [])] + x.body
        return f


class WhileTrue(Base):
    def stmt(self, x):
        if isinstance(x, ast.While) and not isinstance(x.test, ast.Constant) and not x.orelse:
            x.body.insert(0, ast.If(negate(x.test), [ast.Break()], []))
            x.test = ast.Constant(True)
        return x


class MakeIfExp(Base):
    def stmt(self, x):
        if isinstance(x, ast.If) and len(x.body) == 1 and len(x.orelse) == 1:
            a, b = x.body[0], x.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and len(a.targets) == 1 and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], ast.Name):
                return ast.Assign(a.targets, ast.IfExp(x.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(x.test, a.value, b.value))
        return x

    def block(self, body):
        body = super().block(body)
        if len(body) >= 2 and isinstance(body[-1], ast.Return) and body[-1].value and isinstance(body[-2], ast.If) and not body[-2].orelse and len(body[-2].body) == 1 and isinstance(body[-2].body[0], ast.Return) and body[-2].body[0].value:
            return body[:-2] + [ast.Return(ast.IfExp(body[-2].test, body[-2].body[0].value, body[-1].value))]
        return body


class SingleExit(Base):
    def block(self, body):
        if len(body) >= 2 and isinstance(body[-1], ast.Return) and body[-1].value and isinstance(body[-2], ast.If) and not body[-2].orelse and isinstance(body[-2].body[-1], ast.Return) and body[-2].body[-1].value and pick():
            v = self.fresh("outcome")
            i = body[-2]
            return body[:-2] + [ast.If(i.test, i.body[:-1] + [ast.Assign([store(v)], i.body[-1].value)], [ast.Assign([store(v)], body[-1].value)]), ast.Return(load(v))]
        return body


class OrDefault(Base):
    """x = a or b  ->  x = a; if not x: x = b"""
    def stmt(self, x):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BoolOp) and isinstance(x.value.op, ast.Or) and len(x.value.values) == 2 and x.targets[0].id not in names(x.value.values[1]):
            v = x.targets[0].id
            return [ast.Assign(x.targets, x.value.values[0]), ast.If(ast.UnaryOp(ast.Not(), load(v)), [ast.Assign([store(v)], x.value.values[1])], [])]
        return x


class Walrus(Base):
    def block(self, body):
        out = []
        for x in body:
            p = out[-1] if out else None
            if isinstance(x, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(p.value, ast.Call):
                v = p.targets[0].id
                t = x.test
                w = ast.NamedExpr(store(v), p.value)
                if isinstance(t, ast.Name) and t.id == v:
                    x.test = w
                    out[-1] = x
                    continue
                if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Name) and t.operand.id == v:
                    t.operand = w
                    out[-1] = x
                    continue
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == v and v not in names(t.comparators[0]):
                    t.left = w
                    out[-1] = x
                    continue
            out.append(x)
        return out


class SetConst(Exprs):
    def expr(self, x):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.comparators[0], ast.Tuple) and all(isinstance(e, ast.Constant) for e in x.comparators[0].elts):
            x.comparators = [ast.Set(x.comparators[0].elts)]
        return x


class HoistConst(Base):
    """string constants in comparisons and tuples of constants become module-level names"""
    def visit_Module(self, m):
        self.new = {}
        self.generic_visit(m)
        k = next((j for j, s in enumerate(m.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), len(m.body))
        m.body[k:k] = [ast.Assign([store(n)], v) for n, v in self.new.values()]
        return m

    def visit_Compare(self, x):
        self.generic_visit(x)
        if self.depth and len(x.ops) == 1 and pick():
            c = x.comparators[0]
            if isinstance(c, ast.Constant) and isinstance(c.value, str) or isinstance(c, ast.Tuple) and c.elts and all(isinstance(e, (ast.Constant)) for e in c.elts):
                d = ast.dump(c)
                if d not in self.new:
                    self.new[d] = (f"_NAME{len(self.new)}", c)
                x.comparators = [load(self.new[d][0])]
        return x


class ImportAlias(ast.NodeTransformer):
    """import ast -> import ast as _ast (and all uses)"""
    def visit_Module(self, m):
        al = {}
        for n in ast.walk(m):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if "." not in a.name and not a.asname and a.name in ("ast", "os", "sys", "importlib", "copy", "re", "pathlib", "types", "pickle", "gensym"):
                        al[a.name] = "_" + a.name
        if any(isinstance(n, ast.Import) and any("." in a.name and a.name.split(".")[0] in al for a in n.names) for n in ast.walk(m)):
            al.pop("importlib", None), al.pop("os", None)
        loc = {x.arg for x in ast.walk(m) if isinstance(x, ast.arg)} | {x.id for x in ast.walk(m) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        al = {k: v for k, v in al.items() if k not in loc}
        if any(isinstance(n, ast.Constant) and n.value in al for n in ast.walk(m)):
            al = {k: v for k, v in al.items() if k != "ast"}
        for n in ast.walk(m):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in al and not a.asname:
                        a.asname = al[a.name]
            elif isinstance(n, ast.Name) and n.id in al:
                n.id = al[n.id]
        return m


class KwOrder(Exprs):
    def expr(self, x):
        if isinstance(x, ast.Call) and len(x.keywords) > 1 and all(k.arg for k in x.keywords):
            x.keywords = x.keywords[::-1]
        return x


class Annotate(Base):
    def stmt(self, x):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and not any(isinstance(y, (ast.Nonlocal, ast.Global)) and x.targets[0].id in y.names for f in self.stack for y in ast.walk(f)):
            return ast.AnnAssign(x.targets[0], load("object"), x.value, 1)
        return x


class Percent(Exprs):
    def visit_JoinedStr(self, x):
        return x

    def expr(self, x):
        if isinstance(x, ast.JoinedStr) and all(isinstance(v, ast.Constant) or v.format_spec is None and v.conversion == -1 for v in x.values) and sum(isinstance(v, ast.FormattedValue) for v in x.values):
            r = None
            for v in x.values:
                p = v if isinstance(v, ast.Constant) else ast.Call(load("str"), [v.value], [])
                r = p if r is None else ast.BinOp(r, ast.Add(), p)
            return r
        return x


class Noise(Base):
    def stmt(self, x):
        return [x, ast.Pass()] if not leaves([x]) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) else x


class Shuffle(ast.NodeTransformer):
    """top-level functions and methods in another order (module level: only undecorated functions within runs)"""
    def visit_Module(self, m):
        self.generic_visit(m)
        m.body = self.runs(m.body)
        return m

    def visit_ClassDef(self, c):
        c.body = self.runs(c.body)
        return c

    def runs(self, body):
        out, run = [], []
        for x in body + [None]:
            if isinstance(x, ast.FunctionDef) and not x.decorator_list and not x.args.defaults and not any(x.args.kw_defaults):
                run.append(x)
            else:
                out += run[::-1]
                run = []
                if x is not None:
                    out.append(x)
        return out


class DictGet(Exprs):
    """len(x) > 0 and friends"""
    def expr(self, x):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "list" and len(x.args) == 1 and isinstance(x.args[0], ast.GeneratorExp):
            return ast.ListComp(x.args[0].elt, x.args[0].generators)
        if isinstance(x, ast.ListComp) and len(x.generators) == 1 and not x.generators[0].ifs and isinstance(x.elt, ast.Call) and isinstance(x.elt.func, ast.Name) and len(x.elt.args) == 1 and not x.elt.keywords and isinstance(x.elt.args[0], ast.Name) and isinstance(x.generators[0].target, ast.Name) and x.elt.args[0].id == x.generators[0].target.id:
            return ast.Call(load("list"), [ast.Call(load("map"), [x.elt.func, x.generators[0].iter], [])], [])
        return x


class NestedHelper(Base):
    """bodies of branches become functions defined in place"""
    ok = Extract.okbody

    def stmt(self, x):
        if isinstance(x, (ast.If,)) and Extract.okbody(self, x.body):
            n = self.fresh("act")
            d = ast.FunctionDef(n, ast.arguments([], [], None, [], [], None, []), x.body, [], type_params=[])
            x.body = [ast.Expr(ast.Call(load(n), [], []))]
            return [d, x]
        return x


class TryNarrow(Base):
    """effect-free leading assignments move out of try bodies"""
    def stmt(self, x):
        if isinstance(x, ast.Try) and isinstance(x.body[0], ast.Assign) and isinstance(x.body[0].value, (ast.Name, ast.Constant)) and len(x.body) > 1:
            return [x.body[0], ast.Try(x.body[1:], x.handlers, x.orelse, x.finalbody)]
        return x


class TryElse(Base):
    """try: a; return f(x) without raising parts... the last return of a plain value moves to else"""
    def stmt(self, x):
        if isinstance(x, ast.Try) and x.handlers and not x.orelse and isinstance(x.body[-1], ast.Return) and isinstance(x.body[-1].value, (ast.Name, ast.Constant)) and len(x.body) > 1:
            return ast.Try(x.body[:-1], x.handlers, [x.body[-1]], x.finalbody)
        return x


class ErrVar(Base):
    """raise E(...) -> error = E(...); raise error"""
    def stmt(self, x):
        if isinstance(x, ast.Raise) and isinstance(x.exc, ast.Call):
            v = self.fresh("error")
            e, x.exc = x.exc, load(v)
            return [ast.Assign([store(v)], e), x]
        return x


ALL = {k: v for k, v in globals().items() if isinstance(v, type) and issubclass(v, ast.NodeTransformer) and k not in ("Base", "Exprs", "ElifNest")}


def main():
    global PROB, RNG
    name, out = sys.argv[1:3]
    if len(sys.argv) > 3:
        RNG, PROB = random.Random(int(sys.argv[3])), float(sys.argv[4])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(REPO, out, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    trees = {}
    for d, _, fs in os.walk(os.path.join(out, "mcpyrate")):
        if os.path.basename(d) == "test":
            continue
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                trees[p] = ast.parse(open(p).read())
    before = {p: ast.unparse(t) for p, t in trees.items()}
    sigs = {}
    for t in trees.values():
        for n in t.body:
            if isinstance(n, ast.FunctionDef):
                a = n.args
                sigs[n.name] = None if n.name in sigs or a.posonlyargs or a.vararg or n.decorator_list else [x.arg for x in a.args]
    DefaultKw.sigs = sigs
    for nm in name.split("+"):
        if nm == "RenamePrivate":
            rename_private(trees)
            continue
        for p in trees:
            trees[p] = ALL[nm]().visit(trees[p])
    n = 0
    for p, t in trees.items():
        ast.fix_missing_locations(t)
        s = ast.unparse(t)
        if s != before[p]:
            n += 1
            open(p, "w").write(s + "\n")
    print(name, n, "files changed")


if __name__ == "__main__":
    main()
