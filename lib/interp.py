"""Path-sensitive abstract interpreter over Python function bodies.

Domain: symbolic terms (nested tuples). State: variable bindings per frame, a small heap of attribute writes and
tracked literal containers, the branch assumptions made so far, and the ordered trace of events. Conditions are opaque
atoms decided only by earlier assumptions and by simple type/identity facts; no solver is involved and nothing of the
analysed program is executed. Loops: the body is analysed for a generic iteration (loop-carried variables are havocked)
and for zero iterations. Helpers of the package that are not in the confirmed baseline vocabulary are inlined, so that
extracting code into a helper leaves the result unchanged; context-manager generators are inlined around the body of
their `with` statement, including the exception edges at their yield.
"""
import ast
import builtins
import re
import string
import sys
from collections import namedtuple

from .index import AnalysisBroken, FuncInfo

Ev = namedtuple("Ev", "kind a b c node fi")
Outcome = namedtuple("Outcome", "kind value state")

NONE = ("const", "NoneType", None)
TRUE = ("const", "bool", True)
FALSE = ("const", "bool", False)


class PathLimit(AnalysisBroken):
    pass


def const(v):
    return ("const", type(v).__name__, v if not isinstance(v, (list, dict, set)) else repr(v))


def ref(d):
    return ("ref", d)


def attr(b, n):
    return ("attr", b, n)


class State:
    __slots__ = ("frames", "heap", "facts", "trace", "pending")

    def __init__(self):
        self.frames, self.heap, self.facts, self.trace, self.pending = {}, {}, {}, (), {}

    def copy(self):
        s = State.__new__(State)
        s.frames, s.heap, s.facts, s.trace, s.pending = self.frames, self.heap, self.facts, self.trace, self.pending
        return s

    def setvar(self, fid, name, val):
        s = self.copy()
        s.frames = dict(self.frames)
        f = dict(s.frames.get(fid, {}))
        f[name] = val
        s.frames[fid] = f
        return s

    def setheap(self, k, v):
        s = self.copy()
        s.heap = dict(self.heap)
        s.heap[k] = v
        return s

    def add(self, ev):
        s = self.copy()
        s.trace = self.trace + (ev,)
        return s

    def key(self):
        return (tuple(sorted((k, tuple(sorted(v.items()))) for k, v in self.frames.items())).__repr__() if False else
                hash_frames(self.frames),
                frozenset(self.heap.items()), frozenset(self.facts.items()), self.trace, frozenset(self.pending.items()))


def hash_frames(frames):
    return frozenset((k, frozenset(v.items())) for k, v in frames.items())


class Ctx:
    __slots__ = ("fi", "fid", "parents", "selfcls", "depth", "stack", "hook", "nofork", "selfterm")

    def __init__(self, fi, fid, parents, selfcls, depth, stack, hook=None, nofork=False, selfterm=None):
        self.fi, self.fid, self.parents, self.selfcls = fi, fid, parents, selfcls
        self.depth, self.stack, self.hook, self.nofork, self.selfterm = depth, stack, hook, nofork, selfterm

    def replace(self, **kw):
        c = Ctx(self.fi, self.fid, self.parents, self.selfcls, self.depth, self.stack, self.hook, self.nofork, self.selfterm)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


PURE = {"builtins.isinstance", "builtins.issubclass", "builtins.type", "builtins.len", "builtins.hasattr", "builtins.getattr",
        "builtins.bool", "builtins.callable", "builtins.id", "builtins.str", "builtins.repr", "builtins.max", "builtins.min",
        "builtins.any", "builtins.all", "builtins.sorted", "builtins.set", "builtins.int", "builtins.isinstance", "builtins.range",
        "builtins.enumerate", "builtins.zip", "builtins.tuple", "builtins.reversed", "os.path.join", "os.path.dirname",
        "os.path.basename", "os.path.islink", "os.path.isdir", "builtins.sum"}

DEFAULT_HINTS = {"expander": "mcpyrate.expander.MacroExpander", "dexpander": "mcpyrate.dialects.DialectExpander"}


class Policy:
    """What to inline, which calls may raise, what to record."""

    def __init__(self, baseline=frozenset(), inline=(), opaque=(), may_raise=None, reads=False, max_paths=6000,
                 hints=None, unroll=16, keep=None, max_depth=8, assume_events=True, watch=(), shapes=False, inline_when=None,
                 models=None, node_fields=None, rettypes=None, iters=None):
        self.iters = iters          # list that gets (loop source, serial, how the iteration ends, state, frame id) for every path through a loop body
        self.baseline = baseline
        self.inline_names = tuple(inline)
        self.opaque_names = tuple(opaque)
        self.may_raise = may_raise or (lambda fn, interp, state: False)
        self.reads = reads
        self.max_paths = max_paths
        self.hints = dict(DEFAULT_HINTS)
        self.hints.update(hints or {})
        self.unroll = unroll
        self.keep = keep
        self.max_depth = max_depth
        self.assume_events = assume_events
        self.inline_when = inline_when      # (function, bound arguments, state) -> True/False/None (no opinion)
        self.shapes = shapes        # lists of known length are given: follow iterators, slices and repetition exactly
        self.models = models or {}  # dotted function -> callable(positional terms, keyword terms, state) -> term or None
        self.rettypes = {"pickle.dumps": "builtins.bytes", **(rettypes or {})}   # dotted function -> class of its result
        self.node_fields = node_fields or {}    # class -> its _fields
        self.watch = tuple(watch)   # (object term, attribute): value recorded before every call event

    def wants_inline(self, fi):
        q = fi.qualname
        for n in self.opaque_names:
            if q == n or q.endswith("." + n):
                return False
        for n in self.inline_names:
            if n == "*" or q == n or q.endswith("." + n):
                return True
        # nested functions and lambdas of an analysed function count as part of it
        if fi.parent is not None:
            return True
        return q not in self.baseline


class Interp:
    def __init__(self, index, policy):
        self.ix = index
        self.p = policy
        self.serials = {}
        self.sinks = []
        self.types = {}
        self.npaths = 0
        self.queried, self.dirty = set(), frozenset()     # containers asked about; those with unknown additions by earlier iterations

    # ------------------------------------------------------------------ entry
    def run(self, fi, bind=None, selfcls=None, facts=None, heap=None):
        st = State()
        fid = 0
        frame = {}
        cls = selfcls or (fi.cls.qualname if fi.cls else None)
        names = fi.all_params()
        selfterm = None
        for i, n in enumerate(names):
            t = (bind or {}).get(n, ("param", n))
            frame[n] = t
            if i == 0 and cls and fi.kind == "method":
                selfterm = t
                self.types[t] = cls
        parents = []
        pf = fi.outer
        k = -1
        while pf is not None:
            # free variables of enclosing functions: symbolic, except nested function definitions
            pframe = {}
            for n in pf.scopes()[0]:
                pframe[n] = ("free", pf.qualname, n)
            for sub in self.ix.funcs.values():
                if sub.parent is pf and not isinstance(sub.node, ast.Lambda):
                    pframe[sub.name] = ("closure", sub.qualname, k)
            if pf.cls is not None and pf.kind == "method" and pf.params():
                cls = cls or pf.cls.qualname
                st_self = ("free", pf.qualname, pf.params()[0])
                self.types[st_self] = pf.cls.qualname
            pframe.update({n: v for n, v in (bind or {}).items() if n in pframe})
            st.frames[k] = pframe
            parents.append((pf, k))
            pf = pf.outer
            k -= 1
        if parents:
            frame["#parent"] = -1
        st.frames = {**st.frames, fid: frame}
        for k_, v_ in (heap or {}).items():
            st.heap = {**st.heap, k_: v_}
        for c, v in (facts or {}).items():
            st.facts = {**st.facts, c: v}
        ctx = Ctx(fi, fid, parents, cls, 0, (fi.qualname,), selfterm=selfterm)
        if isinstance(fi.node, ast.Lambda):
            outs = self._stmt_wrap(lambda: [("return", s, v) for s, v in self.eval(fi.node.body, st, ctx)])
        else:
            outs = self.exec_block(fi.node.body, st, ctx)
        res = []
        for k, s, v in outs:
            if k == "next":
                k, v = "return", NONE
            res.append(Outcome(k, self.snap(s, v) if v is not None else None, s))
        return res

    def serial(self, node, ctx, extra=""):
        key = (id(node), ctx.fid, extra)
        if key not in self.serials:
            self.serials[key] = len(self.serials) + 1
        return self.serials[key]

    def fresh(self, kind, node, ctx, s, extra=""):
        """A new container term. With shapes (loops unrolled) one node may create several in the same frame."""
        obj = ("new", kind, self.serial(node, ctx, extra))
        n = 0
        while self.p.shapes and (obj, "#") in s.heap and n < 64:
            n += 1
            obj = ("new", kind, self.serial(node, ctx, (extra, n)))
        return obj

    # ------------------------------------------------------------------ blocks
    def dedupe(self, states):
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.p.max_paths:
            raise PathLimit(f"more than {self.p.max_paths} abstract paths")
        return out

    def exec_block(self, stmts, state, ctx):
        live, results = [state], []
        for st in stmts:
            new = []
            for s in live:
                for k, s2, v in self.exec_stmt(st, s, ctx):
                    if k == "next":
                        new.append(s2)
                    else:
                        results.append((k, s2, v))
            live = self.dedupe(new)
            if not live:
                break
        out = results + [("next", s, None) for s in live]
        if len(out) > self.p.max_paths * 2:
            raise PathLimit("too many abstract outcomes")
        return out

    def _stmt_wrap(self, thunk):
        self.sinks.append([])
        try:
            res = thunk()
        finally:
            sink = self.sinks.pop()
        return res + sink

    def exec_stmt(self, st, state, ctx):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            return [("next", state, None)]
        if isinstance(st, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
            return self._stmt_wrap(lambda: m(st, state, ctx))
        return self._stmt_wrap(lambda: m(st, state, ctx))

    # ------------------------------------------------------------------ statements
    def s_Expr(self, st, s, ctx):
        return [("next", s2, None) for s2, _ in self.eval(st.value, s, ctx)]

    def s_Pass(self, st, s, ctx):
        return [("next", s, None)]

    def s_Break(self, st, s, ctx):
        return [("break", s, None)]

    def s_Continue(self, st, s, ctx):
        return [("continue", s, None)]

    def s_Return(self, st, s, ctx):
        if st.value is None:
            return [("return", s, NONE)]
        return [("return", s2, v) for s2, v in self.eval(st.value, s, ctx)]

    def s_Raise(self, st, s, ctx):
        if st.exc is None:
            cur = s.frames.get(ctx.fid, {}).get("#exc", ("exc", "unknown"))
            s = self.rec(s, Ev("raise", cur, NONE, None, st, ctx.fi))
            return [("raise", s, cur)]
        out = []
        for s2, v in self.eval(st.exc, s, ctx):
            causes = [(s2, None)]
            if st.cause is not None:
                causes = self.eval(st.cause, s2, ctx)
            for s3, c in causes:
                v2 = v
                s3 = self.rec(s3, Ev("raise", v2, c, None, st, ctx.fi))
                if c is not None:
                    s3 = s3.setheap((v2, "__cause__"), c)
                out.append(("raise", s3, v2))
        return out

    def s_Assert(self, st, s, ctx):
        out = []
        for s2, b in self.cond(st.test, s, ctx):
            if b:
                out.append(("next", s2, None))
            else:
                exc = ("call", ref("builtins.AssertionError"), (), self.serial(st, ctx))
                out.append(("raise", s2, exc))
        return out

    def s_Global(self, st, s, ctx):
        return [("next", s, None)]
    s_Nonlocal = s_Global

    def s_Import(self, st, s, ctx):
        for a in st.names:
            nm = a.asname or a.name.split(".")[0]
            s = s.setvar(ctx.fid, nm, ref(a.name if a.asname else a.name.split(".")[0]))
        return [("next", s, None)]

    def s_ImportFrom(self, st, s, ctx):
        tmp = {}
        self.ix._scan_import(ctx.fi.module, st, tmp)
        for nm, target in tmp.items():
            s = s.setvar(ctx.fid, nm, ref(self.ix.canonical(target)))
        return [("next", s, None)]

    def s_FunctionDef(self, st, s, ctx):
        fi = self.ix.func_by_node.get(st)
        q = fi.qualname if fi else ctx.fi.qualname + "." + st.name
        clo = ("closure", q, ctx.fid)
        return [("next", self.assign_name(st.name, clo, s, ctx), None)]
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st, s, ctx):
        return [("next", self.assign_name(st.name, ref(ctx.fi.qualname + "." + st.name), s, ctx), None)]

    def s_Assign(self, st, s, ctx):
        out = []
        for s2, v in self.eval(st.value, s, ctx):
            states = [s2]
            for t in st.targets:
                states = [s4 for s3 in states for s4 in self.assign(t, v, s3, ctx)]
            out += [("next", x, None) for x in states]
        return out

    def s_AnnAssign(self, st, s, ctx):
        if st.value is None:
            return [("next", s, None)]
        out = []
        for s2, v in self.eval(st.value, s, ctx):
            out += [("next", x, None) for x in self.assign(st.target, v, s2, ctx)]
        return out

    def s_AugAssign(self, st, s, ctx):
        out = []
        load = _as_load(st.target)
        for s2, old in self.eval(load, s, ctx):
            for s3, v in self.eval(st.value, s2, ctx):
                op = type(st.op).__name__
                if old[0] == "new" and op == "Add" and old[1] == "list":
                    out.append(("next", self.extend(old, v, s3, st, ctx), None))
                    continue
                new = self.binop(op, old, v)
                s3 = self.rec(s3, Ev("augassign", self.target_term(st.target, s3, ctx), op, self.snap(s3, v), st, ctx.fi))
                out += [("next", x, None) for x in self.assign(st.target, new, s3, ctx, aug=True)]
        return out

    def target_term(self, t, s, ctx):
        if isinstance(t, ast.Name):
            return ("var", t.id)
        try:
            r = self.eval(_as_load(t), s, ctx)
            return r[0][1] if r else ("unknown",)
        except Exception:
            return ("unknown",)

    def s_Delete(self, st, s, ctx):
        states = [s]
        for t in st.targets:
            new = []
            for s1 in states:
                if isinstance(t, ast.Name):
                    new.append(s1.setvar(ctx.fid, t.id, ("unbound", t.id)))
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.eval(t.value, s1, ctx):
                        for s3, i in self.eval(t.slice, s2, ctx):
                            ev = Ev("delitem", b, i, None, t, ctx.fi)
                            if self.p.may_raise(("delitem", b, i), self, s3):
                                self.sinks[-1].append(("raise", s3, ("exc", ("delitem", b, i))))
                            s3 = self.rec(s3, ev)
                            if b[0] == "new" and b[1] in ("list", "dict") and (b, "#") in s3.heap:
                                s3 = self.tracked_delete(b, i, s3)
                            new.append(s3)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(t.value, s1, ctx):
                        new.append(self.rec(s2, Ev("delattr", b, t.attr, None, t, ctx.fi)))
                else:
                    new.append(s1)
            states = new
        return [("next", x, None) for x in states]

    def tracked_delete(self, b, i, s):
        items = s.heap[(b, "#")]
        if b[1] == "list" and i[0] == "const" and isinstance(i[2], int) and known_index(items, i[2]):
            items = list(items)
            del items[i[2]]
            return s.setheap((b, "#"), tuple(items))
        if b[1] == "dict":
            return s.setheap((b, "#"), tuple(x for x in items if x[0] != i))
        return s

    def s_If(self, st, s, ctx):
        out = []
        for s2, b in self.cond(st.test, s, ctx):
            out += self.exec_block(st.body if b else st.orelse, s2, ctx)
        return out

    def s_With(self, st, s, ctx):
        return self._with(st, 0, s, ctx)
    s_AsyncWith = s_With

    def _with(self, st, i, s, ctx):
        if i == len(st.items):
            return self.exec_block(st.body, s, ctx)
        item = st.items[i]
        out = []
        for s2, t in self.eval(item.context_expr, s, ctx):
            if t[0] == "genctx":
                out += self._gen_with(st, i, item, t, s2, ctx)
                continue
            s3 = self.rec(s2, Ev("enter", self.snap(s2, t), None, None, item.context_expr, ctx.fi))
            states = [s3]
            if item.optional_vars is not None:
                states = self.assign(item.optional_vars, ("enter", t), s3, ctx)
            for s4 in states:
                for k, s5, v in self._with(st, i + 1, s4, ctx):
                    s5 = self.rec(s5, Ev("exit", self.snap(s5, t), k, None, item.context_expr, ctx.fi))
                    if k == "raise" and t[0] == "call" and t[1] == ref("contextlib.suppress"):
                        types = [a for _, a in t[2]]
                        verdicts = [self.exc_match(v, x) for x in types]
                        if True in verdicts:
                            out.append(("next", s5, None))
                            continue
                        if None in verdicts:
                            out.append(("next", s5, None))
                    out.append((k, s5, v))
        return out

    def _gen_with(self, st, i, item, t, s, ctx):
        """Inline a context-manager generator around the body of its `with`."""
        _, q, pfid, bound, selfterm, selfcls, serial = t
        fi = self.ix.funcs[q]

        def hook(state, value):
            states = [state]
            if item.optional_vars is not None:
                states = self.assign(item.optional_vars, value, state, ctx)
            res = []
            for s1 in states:
                res += self._with(st, i + 1, s1, ctx)
            return res
        fid = ("g", serial)
        s = s.copy()
        s.frames = {**s.frames, fid: dict(bound)}
        parents = self.closure_parents(fi, pfid, s)
        gctx = Ctx(fi, fid, parents, selfcls or (fi.cls.qualname if fi.cls else None), ctx.depth + 1, ctx.stack + (q,), hook=hook, selfterm=selfterm)
        out = []
        for k, s2, v in self.exec_block(fi.node.body, s, gctx):
            pend = s2.pending.get(fid)
            if pend is not None:
                s2 = s2.copy()
                s2.pending = {a: b for a, b in s2.pending.items() if a != fid}
            if k in ("next", "return"):
                if pend is not None:
                    out.append((pend[0], s2, pend[1]))
                else:
                    out.append(("next", s2, None))
            else:
                out.append((k, s2, v))
        return out

    def s_Try(self, st, s, ctx):
        outs = []
        body = self.exec_block(st.body, s, ctx)
        for k, s2, v in body:
            if k == "raise":
                outs += self._handlers(st, s2, v, ctx)
            elif k == "next" and st.orelse:
                outs += self.exec_block(st.orelse, s2, ctx)
            else:
                outs.append((k, s2, v))
        if not st.finalbody:
            return outs
        res, seen = [], {}
        for k, s2, v in outs:
            for k3, s3, v3 in self.exec_block(st.finalbody, s2, ctx):
                if k3 == "next":
                    res.append((k, s3, v))
                else:
                    res.append((k3, s3, v3))
        return res
    s_TryStar = s_Try

    def _handlers(self, st, s, exc, ctx):
        out = []
        live = True
        for h in st.handlers:
            if h.type is None:
                verdict = True
            else:
                elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                vs = []
                for e in elts:
                    r = self.eval(e, s, ctx)
                    vs.append(self.exc_match(exc, r[0][1]) if r else None)
                verdict = True if True in vs else (None if None in vs else False)
            if verdict is False:
                continue
            s2 = self.rec(s, Ev("except", exc, None, None, h, ctx.fi))
            s2 = s2.setvar(ctx.fid, "#exc", exc)
            if h.name:
                s2 = self.assign_name(h.name, exc, s2, ctx)
            out += self.exec_block(h.body, s2, ctx)
            if verdict is True:
                live = False
                break
        if live:
            out.append(("raise", s, exc))
        return out

    def exc_match(self, exc, typ):
        """Does exception value `exc` match class term `typ`? True / False / None (unknown)."""
        if typ[0] != "ref":
            return None
        t = typ[1]
        if t in ("builtins.BaseException",):
            return True
        cls = None
        if exc[0] == "call" and exc[1][0] == "ref":
            cls = exc[1][1]
        elif exc[0] == "call" and exc[1][0] == "attr" and exc[1][2] == "with_traceback":
            return self.exc_match(exc[1][1], typ)
        elif exc[0] == "ref":
            cls = exc[1]
        if cls is None:
            if t == "builtins.Exception":
                return True   # the exceptions modelled are ordinary ones (KeyboardInterrupt etc. only meet finally/bare)
            return None
        return self.subclass(cls, t)

    def subclass(self, c, base):
        """issubclass over repo classes, builtins and ast, by dotted names; None if unknown."""
        if c == base:
            return True
        for x in self.ix.mro(c) if c in self.ix.classes else [c]:
            if x == base:
                return True
            px, pb = _pytype(x), _pytype(base)
            if isinstance(px, type) and isinstance(pb, type) and issubclass(px, pb):
                return True
        if c in self.ix.classes:
            if all((x in self.ix.classes) or isinstance(_pytype(x), type) for x in self.ix.mro(c)):
                return False
            return None
        if isinstance(_pytype(c), type) and (isinstance(_pytype(base), type) or base in self.ix.classes):
            return False
        return None

    def s_Match(self, st, s, ctx):
        out = []
        for s2, subj in self.eval(st.subject, s, ctx):
            live = [s2]
            for case in st.cases:
                nxt = []
                for s3 in live:
                    for s4, b in self.match_pattern(case.pattern, subj, s3, ctx):
                        if not b:
                            nxt.append(s4)
                            continue
                        if case.guard is not None:
                            for s5, g in self.cond(case.guard, s4, ctx):
                                if g:
                                    out += self.exec_block(case.body, s5, ctx)
                                else:
                                    nxt.append(s5)
                        else:
                            out += self.exec_block(case.body, s4, ctx)
                live = nxt
            out += [("next", x, None) for x in live]
        return out

    def match_pattern(self, p, subj, s, ctx):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    s = self.assign_name(p.name, subj, s, ctx)
                return [(s, True)]
            res = []
            for s2, b in self.match_pattern(p.pattern, subj, s, ctx):
                if b and p.name:
                    s2 = self.assign_name(p.name, subj, s2, ctx)
                res.append((s2, b))
            return res
        if isinstance(p, ast.MatchValue):
            res = []
            for s2, v in self.eval(p.value, s, ctx):
                res += self.branch(self.mkcmp("Eq", subj, v), s2, ctx, p)
            return res
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.mkcmp("Is", subj, const(p.value)), s, ctx, p)
        if isinstance(p, ast.MatchOr):
            live, res = [s], []
            for sub in p.patterns:
                nxt = []
                for s1 in live:
                    for s2, b in self.match_pattern(sub, subj, s1, ctx):
                        (res if b else nxt).append((s2, True) if b else s2)
                live = nxt
            return res + [(x, False) for x in live]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            res = []
            for s2, v in self.eval(p.cls, s, ctx):
                if v[0] == "ref":
                    res += self.branch(("isinst", subj, frozenset([v[1]])), s2, ctx, p)
                else:
                    res += [(s2, True), (s2, False)]
            return res
        for n in ast.walk(p):
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                s = self.assign_name(n.name, ("unknown", self.serial(n, ctx)), s, ctx)
        return [(s, True), (s, False)]

    # -- loops
    def s_For(self, st, s, ctx):
        out = []
        for s2, it in self.eval(st.iter, s, ctx):
            out += self._for(st, it, s2, ctx)
        return out
    s_AsyncFor = s_For

    def concrete_items(self, it, s):
        """Items of a fully known container, else None."""
        if it[0] == "new":
            self.queried.add(it)
            if it in self.dirty:
                return None
        if it[0] == "tuple" or it[0] == "list" and self.p.shapes:
            items = it[1]
        elif it[0] == "dict":
            items = tuple(k for k, v in it[1])
            if any(k is None for k in items):
                return None
        elif it[0] == "new" and it[1] in ("list", "set"):
            items = s.heap.get((it, "#"))
        elif it[0] == "new" and it[1] == "dict":
            d = s.heap.get((it, "#"))
            items = None if d is None else tuple(k for k, v in d)
            if items is not None and any(k is None for k in items):
                return None
        elif it[0] == "items" and it[1][0] == "new":
            self.queried.add(it[1])
            if it[1] in self.dirty:
                return None
            d = s.heap.get((it[1], "#"))
            if d is None or any(k is None or k[0] in ("rep",) for k, v in d):
                return None
            return tuple(("tuple", (k, v)) for k, v in d)
        elif it[0] == "enumerate":
            inner = self.concrete_items(it[1], s)
            return None if inner is None else tuple(("tuple", (const(i), x)) for i, x in enumerate(inner))
        elif it[0] == "zip":
            inner = [self.concrete_items(x, s) for x in it[1]]
            if any(x is None for x in inner):
                return None
            return tuple(("tuple", t) for t in zip(*inner))
        elif it[0] == "reversed":
            inner = self.concrete_items(it[1], s)
            return None if inner is None else tuple(reversed(inner))
        else:
            return None
        if items is None or any(x[0] in ("rep", "star") for x in items):
            return None
        return items

    def elem_of(self, it, serial):
        if it[0] == "enumerate":
            return ("tuple", (("index", self.iter_base(it[1]), serial), self.elem_of(it[1], serial)))
        if it[0] == "zip":
            return ("tuple", tuple(self.elem_of(x, serial) for x in it[1]))
        if it[0] == "reversed":
            return self.elem_of(it[1], serial)
        if it[0] == "items":
            return ("tuple", (("key", it[1], serial), ("val", it[1], serial)))
        return ("elem", it, serial)

    def uncopied(self, it, s):
        """the elements of a plain copy are those of the original"""
        if it[0] in ("enumerate", "reversed"):
            return (it[0], self.uncopied(it[1], s))
        if it[0] == "new" and it[1] == "list" and it not in self.dirty:
            items = s.heap.get((it, "#"))
            if items is not None and len(items) == 1 and items[0][0] == "star" and items[0][1][0] not in ("carried",):
                return items[0][1]
        return it

    def iter_base(self, it):
        return it

    def _for(self, st, it, s, ctx):
        conc = self.concrete_items(it, s)
        if conc is not None and len(conc) <= self.p.unroll:
            iterator = it[0] == "new" and (it, "#iterator") in s.heap
            live, out = [s], []
            for j, x in enumerate(conc):
                nxt = []
                for s1 in live:
                    if iterator:
                        s1 = s1.setheap((it, "#"), conc[j + 1:])
                    for s2 in self.assign(st.target, x, s1, ctx):
                        for k, s3, v in self.exec_block(st.body, s2, ctx):
                            if k in ("next", "continue"):
                                nxt.append(s3)
                            elif k == "break":
                                out.append(("next", s3, None))
                            else:
                                out.append((k, s3, v))
                live = self.dedupe(nxt)
            for s1 in live:
                out += self.exec_block(st.orelse, s1, ctx)
            return out
        it = self.uncopied(it, s)
        serial = self.serial(st, ctx, "loop")
        its = self.snap(s, it)
        elem = self.elem_of(its if it[0] == "new" else it, serial)
        if its[0] == "list" and len(its[1]) == 1 and its[1][0][0] == "rep":
            elem = its[1][0][2]

        def enter(s0):
            return self.assign(st.target, elem, s0, ctx)
        return self._loop(st, its, serial, s, ctx, enter, None)

    def s_While(self, st, s, ctx):
        if self.p.shapes and not isinstance(st.test, ast.Constant):
            r = self._while_unrolled(st, s, ctx)
            if r is not None:
                return r
        serial = self.serial(st, ctx, "loop")
        return self._loop(st, ("while",), serial, s, ctx, None, st.test)

    def _while_unrolled(self, st, s, ctx):
        """Iterations of a loop whose test is decided by what is known; None when it is not."""
        out, live = [], [s]
        for _ in range(self.p.unroll):
            nxt = []
            for s1 in live:
                r = self.cond(st.test, s1, ctx)
                if len(r) != 1:
                    return None
                if not r[0][1]:
                    out += self.exec_block(st.orelse, r[0][0], ctx)
                    continue
                for k, s3, v in self.exec_block(st.body, r[0][0], ctx):
                    if k in ("next", "continue"):
                        nxt.append(s3)
                    else:
                        out.append(("next" if k == "break" else k, s3, v))
            live = nxt
            if not live:
                return out
        return None

    def _loop(self, st, it, serial, s, ctx, enter, test):
        out, done = [], []
        # zero iterations
        if test is not None:
            for s1, b in self.cond(test, s, ctx):
                if not b:
                    done.append(s1)
            infinite = isinstance(test, ast.Constant) and bool(test.value)
        else:
            done.append(s)
            infinite = False
        # generic iteration: havoc loop-carried variables
        carried = _assigned_names(st.body)
        rebound = _assigned_names(st.body, aug=False)
        s1 = s
        for n in sorted(carried):
            f = s.frames.get(ctx.fid, {})
            if n in f and n not in rebound and f[n][0] == "new" and f[n][1] == "list":
                continue    # only ever extended in place
            if n in f and f[n][0] != "closure":
                s1 = s1.setvar(ctx.fid, n, ("carried", n, serial, self.snap(s1, f[n])))
            elif n in ctx.fi.scopes()[1]:       # a variable of an enclosing function
                for pfi, pfid in ctx.parents:
                    f = s.frames.get(pfid, {})
                    if n in pfi.scopes()[0] and n in f and f[n][0] != "closure":
                        s1 = s1.setvar(pfid, n, ("carried", n, serial, self.snap(s1, f[n])))
                        break
        before = {k: v for k, v in s1.heap.items() if k[1] == "#"}
        s1 = self.rec(s1, Ev("loop", it, serial, None, st, ctx.fi))
        starts = []
        if test is not None:
            for s2, b in self.cond(test, s1, ctx):
                if b:
                    starts.append(s2)
        else:
            starts = enter(s1)
        ended = []
        for s2 in starts:
            outer, self.queried = self.queried, set()
            mark = len(self.p.iters) if self.p.iters is not None else 0
            res = self.exec_block(st.body, s2, ctx)
            grown = {hk[0] for k, s3, v in res if k in ("next", "continue") for hk, items in s3.heap.items() if hk in before and before[hk] != items}
            grown = frozenset(grown & self.queried) - self.dirty
            changed = {}
            for k, s3, v in res:
                if k in ("next", "continue"):
                    for hk, x in s3.heap.items():
                        if hk[1] != "#" and hk in self.queried and _rooted(hk[0]) and s1.heap.get(hk, attr(*hk)) != x:
                            changed[hk] = ("carried", hk[1], serial, self.snap(s1, s1.heap.get(hk, attr(*hk))))
            if changed:
                s2 = s2.copy()
                s2.heap = {**s2.heap, **changed}
            if grown or changed:
                # what the body asks about these depends on earlier iterations
                was, self.dirty = self.dirty, self.dirty | grown
                if self.p.iters is not None:
                    del self.p.iters[mark:]
                res = self.exec_block(st.body, s2, ctx)
                self.dirty = was
            self.queried |= outer
            ended += res
        if True:
            for k, s3, v in ended:
                s3 = self.rec(s3, Ev("endloop", it, serial, k, st, ctx.fi))
                if self.p.iters is not None:
                    self.p.iters.append((it, serial, k, s3, ctx.fid))
                # items added to tracked containers inside the loop stand for any number of items
                heap = None
                for hk, items in s3.heap.items():
                    if hk[1] == "#" and hk in before and before[hk] != items and len(items) >= len(before[hk]):
                        old = before[hk]
                        if hk[0][1] in ("list", "set"):
                            heap = dict(s3.heap) if heap is None else heap
                            if items[:len(old)] == old:
                                heap[hk] = old + tuple(x if x[0] == "rep" else ("rep", it, x, ()) for x in items[len(old):])
                            elif old and items[-len(old):] == old:
                                heap[hk] = tuple(x if x[0] == "rep" else ("rep", it, x, ()) for x in items[:-len(old)]) + old
                            elif not old:
                                heap[hk] = tuple(x if x[0] == "rep" else ("rep", it, x, ()) for x in items)
                if heap is not None:
                    s3 = s3.copy()
                    s3.heap = heap
                if k == "next" or k == "continue":
                    if not infinite:
                        done.append(s3)
                elif k == "break":
                    out.append(("next", s3, None))
                else:
                    out.append((k, s3, v))
        for s4 in self.dedupe(done):
            out += self.exec_block(st.orelse, s4, ctx)
        return out

    # ------------------------------------------------------------------ assignment
    def assign_name(self, name, v, s, ctx):
        loc, nl, gl = ctx.fi.scopes()
        if name in gl:
            d = f"{ctx.fi.module.name}.{name}"
            s = self.rec(s, Ev("global", d, self.snap(s, v), None, None, ctx.fi))
            return s.setheap((ref(d), "#value"), v)
        if name in nl:
            for pfi, pfid in ctx.parents:
                if name in pfi.scopes()[0]:
                    return s.setvar(pfid, name, v)
        return s.setvar(ctx.fid, name, v)

    def assign(self, t, v, s, ctx, aug=False):
        if isinstance(t, ast.Name):
            loc, nl, gl = ctx.fi.scopes()
            if t.id in gl:
                d = f"{ctx.fi.module.name}.{t.id}"
                s = self.rec(s, Ev("global", d, self.snap(s, v), None, t, ctx.fi))
                return [s.setheap((ref(d), "#value"), v)]
            return [self.assign_name(t.id, v, s, ctx)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, s, ctx)
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.concrete_items(v, s) if v[0] in ("tuple", "new", "list") else None
            states = [s]
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                if star is None:
                    x = items[i] if items is not None and len(items) == n else ("sub", v, const(i))
                elif i < star:
                    x = items[i] if items is not None and i < len(items) else ("sub", v, const(i))
                elif i == star:
                    if items is not None and len(items) >= n - 1:
                        x = ("tuple", tuple(items[star:len(items) - (n - 1 - star)]))
                    else:
                        x = ("sub", v, ("slice", const(star), const(star - n + 1) if star - n + 1 else NONE, NONE))
                else:
                    x = items[i - n] if items is not None and len(items) >= n - 1 else ("sub", v, const(i - n))
                states = [s3 for s2 in states for s3 in self.assign(e, x, s2, ctx)]
            return states
        if isinstance(t, ast.Attribute):
            out = []
            for s2, b in self.eval(t.value, s, ctx):
                s3 = self.rec(s2, Ev("setattr", b, t.attr, self.snap(s2, v), t, ctx.fi))
                out.append(s3.setheap((b, t.attr), v))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s2, b in self.eval(t.value, s, ctx):
                for s3, i in self.eval(t.slice, s2, ctx):
                    s4 = self.rec(s3, Ev("setitem", b, i, self.snap(s3, v), t, ctx.fi))
                    if b[0] == "new" and b[1] == "dict" and (b, "#") in s4.heap:
                        items = tuple(x for x in s4.heap[(b, "#")] if x[0] != i) + ((i, v),)
                        s4 = s4.setheap((b, "#"), items)
                    elif b[0] == "new" and b[1] == "list" and (b, "#") in s4.heap:
                        items = s4.heap[(b, "#")]
                        if i[0] == "const" and isinstance(i[2], int) and known_index(items, i[2]):
                            items = list(items)
                            items[i[2]] = v
                            s4 = s4.setheap((b, "#"), tuple(items))
                        elif i[0] == "slice" and i == ("slice", NONE, NONE, NONE):
                            s4 = s4.setheap((b, "#"), self.as_items(v, s4))
                    elif i == ("slice", NONE, NONE, NONE):
                        s4 = s4.setheap((b, "#content"), v)
                    out.append(s4)
            return out
        return [s]

    def as_items(self, v, s):
        v2 = self.snap(s, v) if v[0] != "new" else v
        if v[0] == "new" and v[1] in ("list", "set"):
            return s.heap.get((v, "#"), (("star", v),))
        if v[0] in ("tuple",):
            return v[1]
        if v2[0] == "list":
            return v2[1]
        return (("star", v),)

    def extend(self, obj, v, s, node, ctx):
        return s.setheap((obj, "#"), s.heap.get((obj, "#"), ()) + self.as_items(v, s))

    # ------------------------------------------------------------------ recording
    def rec(self, s, ev):
        if ev.kind == "assume" and not self.p.assume_events:
            return s
        if self.p.keep is not None and not self.p.keep(ev):
            return s
        return s.add(ev)

    def snap(self, s, t, depth=0):
        """Resolve tracked containers to their current contents."""
        if not isinstance(t, tuple) or not t or depth > 12:
            return t
        k = t[0]
        if k == "new":
            items = s.heap.get((t, "#"))
            if items is None:
                return t
            if t[1] == "dict":
                return ("dict", tuple((self.snap(s, a, depth + 1) if a is not None else None, self.snap(s, b, depth + 1)) for a, b in items))
            return (t[1], tuple(self.snap(s, x, depth + 1) for x in items))
        if k == "tuple":
            return ("tuple", tuple(self.snap(s, x, depth + 1) for x in t[1]))
        if k == "rep":
            return ("rep", self.snap(s, t[1], depth + 1), self.snap(s, t[2], depth + 1), t[3])
        if k == "star":
            return ("star", self.snap(s, t[1], depth + 1))
        return t

    # ------------------------------------------------------------------ conditions
    def cond(self, e, s, ctx):
        """-> [(state, bool)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s2, not b) for s2, b in self.cond(e.operand, s, ctx)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            live, out = [s], []
            for i, v in enumerate(e.values):
                nxt = []
                for s1 in live:
                    for s2, b in self.cond(v, s1, ctx):
                        if b == isand and i < len(e.values) - 1:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                live = nxt
            return out
        if isinstance(e, ast.IfExp):
            out = []
            for s2, b in self.cond(e.test, s, ctx):
                out += self.cond(e.body if b else e.orelse, s2, ctx)
            return out
        out = []
        for s2, t in self.eval(e, s, ctx):
            out += self.branch(t, s2, ctx, e)
        return out

    def branch(self, t, s, ctx, node=None):
        t, pol = self.normcond(t)
        if t[0] in ("and", "or"):
            isand = t[0] == "and"
            live, out = [s], []
            for i, x in enumerate(t[1]):
                nxt = []
                for s1 in live:
                    for s2, b in self.branch(x, s1, ctx, node):
                        if b == isand and i < len(t[1]) - 1:
                            nxt.append(s2)
                        else:
                            out.append((s2, b == pol))
                live = nxt
            return out
        d = self.decide(t, s)
        if d is not None:
            return [(s, d == pol)]
        out = []
        for val in (True, False):
            s2 = s.copy()
            s2.facts = dict(s.facts)
            s2.facts[t] = val
            s2 = self.rec(s2, Ev("assume", t, val, None, node, ctx.fi))
            out.append((s2, val == pol))
        return out

    def normcond(self, t):
        pol = True
        while True:
            if t[0] == "not":
                t, pol = t[1], not pol
            elif t[0] == "call" and t[1] == ref("builtins.bool") and len(t[2]) == 1:
                t = t[2][0][1]
            elif t[0] == "cmp" and t[1] == "Eq" and t[3] == const(0) and t[2][0] == "call" and t[2][1] == ref("builtins.len"):
                t, pol = t[2][2][0][1], not pol
            elif t[0] == "cmp" and t[1] == "Lt" and t[2] == const(0) and t[3][0] == "call" and t[3][1] == ref("builtins.len"):
                t = t[3][2][0][1]
            elif t[0] == "cmp" and t[1] == "Lt" and t[3] == const(1) and t[2][0] == "call" and t[2][1] == ref("builtins.len"):
                t, pol = t[2][2][0][1], not pol
            elif t[0] == "call" and t[1] == ref("builtins.len") and len(t[2]) == 1:
                t = t[2][0][1]
            else:
                return t, pol

    def decide(self, t, s):
        k = t[0]
        if k == "const":
            return bool(t[2])
        if k == "new":
            self.queried.add(t)
            items = s.heap.get((t, "#")) if t in self.dirty else None
            if items and (t[1] == "dict" or any(x[0] not in ("rep", "star") for x in items)):
                return True
            if t in self.dirty:
                return s.facts.get(t)
        if t in s.facts:
            return s.facts[t]
        if k == "isnone":
            x = t[1]
            if x == NONE:
                return True
            if x[0] == "ref" and self.ix.is_varying(x[1]):
                return None
            if x[0] in ("const", "tuple", "list", "dict", "set", "new", "closure", "fstr", "ref", "bound", "genctx", "exc", "rep"):
                return False
            if x[0] == "call" and x[1][0] == "ref" and (x[1][1] in self.ix.classes or _is_ast_class(x[1][1]) or x[1][1].startswith("builtins.") and isinstance(_pytype(x[1][1]), type)):
                return False
            if s.facts.get(x) is True:
                return False
            for f, v in s.facts.items():
                if v and f[0] in ("isinst", "typeis") and f[1] == x and "builtins.NoneType" not in f[2]:
                    return False
                if v and f[0] == "cmp" and f[1] == "Eq" and (f[2] == x and f[3][0] == "const" and f[3] != NONE):
                    return False
            return None
        if k in ("isinst", "typeis"):
            return self.decide_type(t, s)
        if k == "cmp" and t[1] in ("Lt", "Eq") and ref("sys.version_info") in (t[2], t[3]):
            def ver(x):
                if x == ref("sys.version_info"):
                    return tuple(sys.version_info[:3])
                if x[0] == "tuple" and all(y[0] == "const" for y in x[1]):
                    return tuple(y[2] for y in x[1])
            a, b = ver(t[2]), ver(t[3])
            if a is not None and b is not None:
                return a < b if t[1] == "Lt" else a == b
        if k == "cmp" and t[1] == "Lt" and t[2][0] == "const" and t[3][0] == "const" and isinstance(t[2][2], (int, float)) and isinstance(t[3][2], (int, float)):
            return t[2][2] < t[3][2]
        if self.p.shapes and k == "cmp" and t[1] == "Is" and all(x[0] in ("param", "attr") and s.facts.get(("isnone", x)) is False for x in t[2:]):
            return t[2] == t[3]
        isclass = lambda x: x[0] == "ref" and (_is_ast_class(x[1]) or x[1] in self.ix.classes or
                                               self.p.shapes and x[1].startswith("builtins.") and (isinstance(_pytype(x[1]), type) or x[1] in ("builtins.NoneType", "builtins.ellipsis")))
        if k == "cmp" and t[1] in ("Is", "Eq") and isclass(t[2]) and isclass(t[3]):
            return t[2] == t[3]
        if k == "in" and isclass(t[1]) and all(isclass(x) for x in t[2]):
            return t[1] in t[2]
        if k == "cmp" and t[1] == "Eq" and ref("builtins.Ellipsis") in t[2:]:
            x = t[3] if t[2] == ref("builtins.Ellipsis") else t[2]
            if x[0] == "const":
                return x[2] is Ellipsis
        if k == "cmp" and t[1] == "Eq":
            a, b = t[2], t[3]
            if a == b:
                return True
            if a[0] == "const" and b[0] == "const":
                return a[2] == b[2]
            # x == c1 known, asked x == c2
            for f, v in s.facts.items():
                if v and f[0] == "cmp" and f[1] == "Eq":
                    if f[2] == a and f[3][0] == "const" and b[0] == "const":
                        return f[3][2] == b[2]
                    if f[3] == b and f[2][0] == "const" and a[0] == "const":
                        return f[2][2] == a[2]
            if b == NONE or a == NONE:
                return self.decide(("isnone", a if b == NONE else b), s)
            return None
        if k == "in":
            if t[1][0] == "const" and all(x[0] == "const" for x in t[2]):
                return t[1] in t[2]
            for f, v in s.facts.items():
                if v and f[0] == "cmp" and f[1] == "Eq" and f[2] == t[1] and f[3][0] == "const" and all(x[0] == "const" for x in t[2]):
                    return f[3] in t[2]
            if all(s.facts.get(("cmp", "Eq", t[1], x)) is False for x in t[2]):
                return False
            return None
        if k == "tuple" or k == "list":
            if not t[1]:
                return False
            if any(x[0] not in ("rep", "star") for x in t[1]):
                return True
            return None
        if k == "new":
            items = s.heap.get((t, "#"))
            if items is not None:
                if not items:
                    return False
                if t[1] == "dict" or any(x[0] not in ("rep", "star") for x in items):
                    return True
            return None
        if k in ("closure", "bound", "genctx"):
            return True
        if k == "ref" and (t[1] in self.ix.funcs or t[1] in self.ix.classes):
            return True
        if k == "call" and t[1][0] == "ref" and _is_ast_class(t[1][1]):
            return True
        if s.facts.get(("isnone", t)) is True:
            return False
        for f, v in s.facts.items():
            if v and f[0] == "cmp" and f[1] == "Eq" and f[2] == t and f[3][0] == "const":
                return bool(f[3][2])
            if v and f[0] in ("isinst", "typeis") and f[1] == t and all(_is_ast_class(c) for c in f[2]):
                return True
        return None

    def typeof(self, x, s):
        if x[0] == "const":
            return "builtins." + x[1]
        if x[0] == "new":
            return "builtins." + x[1]
        if x[0] in ("tuple", "list", "dict", "set"):
            return "builtins." + x[0]
        if x[0] == "fstr":
            return "builtins.str"
        if x[0] == "call" and x[1][0] == "ref":
            d = x[1][1]
            if d in self.p.rettypes:
                return self.p.rettypes[d]
            if d in self.ix.classes or _is_ast_class(d) or (d.startswith("builtins.") and isinstance(_pytype(d), type) and d != "builtins.type"):
                return d
            if d in ("ast.copy_location", "copy.copy", "copy.deepcopy") and x[2]:
                return self.typeof(x[2][0][1], s)
        return None

    def decide_type(self, t, s):
        kind, x, S = t
        ty = self.typeof(x, s)
        if ty is not None:
            if kind == "typeis":
                return ty in S
            vs = [self.subclass(ty, b) for b in S]
            return True if True in vs else (None if None in vs else False)
        if s.facts.get(("isnone", x)) is True:
            return "builtins.NoneType" in S
        verdict = None
        for f, v in s.facts.items():
            if f[0] not in ("isinst", "typeis") or f[1] != x:
                continue
            F = f[2]
            if v and f[0] == "typeis":
                if kind == "typeis":
                    if F <= S:
                        return True
                    if not (F & S):
                        return False
                else:
                    vs = [[self.subclass(c, b) for b in S] for c in F]
                    if all(True in r for r in vs):
                        return True
                    if all(all(q is False for q in r) for r in vs):
                        return False
            elif v and f[0] == "isinst":
                if kind == "isinst":
                    if all(any(self.subclass(c, b) is True for b in S) for c in F):
                        return True
                    # unrelated concrete types
                    if all(all(self.subclass(c, b) is False and self.subclass(b, c) is False for b in S) for c in F) \
                            and all(_is_ast_class(z) or z in _SIMPLE for z in F | S):
                        return False
                else:
                    if all(all(self.subclass(b, c) is False for c in F) for b in S):
                        return False
            elif not v and f[0] == "isinst":
                if all(any(self.subclass(b, c) is True for c in F) for b in S):
                    return False
            elif not v and f[0] == "typeis" and kind == "typeis":
                if S <= F:
                    return False
        return verdict

    # ------------------------------------------------------------------ expressions
    def eval(self, e, s, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(s, ("unknown", self.serial(e, ctx)))]
        return m(e, s, ctx)

    def eval_many(self, es, s, ctx):
        res = [(s, ())]
        for e in es:
            res = [(s3, ts + (t,)) for s2, ts in res for s3, t in self.eval(e, s2, ctx)]
        return res

    def e_Constant(self, e, s, ctx):
        return [(s, const(e.value))]

    def e_Name(self, e, s, ctx):
        return [(s, self.lookup(e.id, s, ctx))]

    def lookup(self, name, s, ctx):
        loc, nl, gl = ctx.fi.scopes()
        f = s.frames.get(ctx.fid, {})
        if name in f and name not in gl:
            return f[name]
        if name in loc and name not in gl:
            return ("unbound", name)
        if name not in gl:
            for pfi, pfid in ctx.parents:
                fr = s.frames.get(pfid, {})
                if name in fr:
                    return fr[name]
                if name in pfi.scopes()[0]:
                    return ("free", pfi.qualname, name)
        return self.global_ref(ctx.fi.module, name, s)

    def global_ref(self, m, name, s):
        d = self.ix.resolve_name(m, name)
        if d is None:
            return ("undefined", name)
        r = ref(d)
        if (r, "#value") in s.heap:
            return s.heap[(r, "#value")]
        return self.expand_ref(r, s)

    def expand_ref(self, r, s):
        """A module constant that is not in the confirmed vocabulary stands for its literal value."""
        d = r[1]
        if self.p.shapes and d in self.p.baseline:
            m, v = self.ix.global_value(d)
            x = self.scalar(v, m) if v is not None else None
            if x is not None and x[1] == "str":
                return x
        if d in self.p.baseline or d in self.ix.funcs or d in self.ix.classes or d in self.ix.modules:
            return r
        m, v = self.ix.global_value(d)
        if v is None or d in self.p.baseline:
            return r
        lit = self.literal(v, m)
        return lit if lit is not None else r

    def literal(self, v, m):
        if isinstance(v, ast.Constant):
            return const(v.value)
        if isinstance(v, ast.Tuple):
            xs = [self.literal(x, m) for x in v.elts]
            return None if any(x is None for x in xs) else ("tuple", tuple(xs))
        if isinstance(v, (ast.List, ast.Set)):
            xs = [self.literal(x, m) for x in v.elts]
            return None if any(x is None for x in xs) else ("tuple", tuple(xs))
        if isinstance(v, ast.Dict) and v.keys and all(k is not None for k in v.keys):
            xs = [(self.literal(k, m), self.literal(x, m)) for k, x in zip(v.keys, v.values)]
            return None if any(k is None or x is None for k, x in xs) else ("dict", tuple(xs))
        if isinstance(v, (ast.Name, ast.Attribute)):
            r = self.ix.resolve_expr(m, v)
            if r and "SourceFileLoader." in r:
                return None     # captured when the module was run: not the value that the attribute has now
            return ref(r) if r else None
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            a, b = self.scalar(v.left, m), self.scalar(v.right, m)
            if a is not None and b is not None and a[1] == b[1] and a[1] in ("int", "str"):
                return const(a[2] + b[2])
        if isinstance(v, ast.Call) and self.ix.resolve_expr(m, v.func) == "builtins.repr" and len(v.args) == 1:
            a = self.scalar(v.args[0], m)
            return const(repr(a[2])) if a is not None else None
        if isinstance(v, ast.Call) and self.ix.resolve_expr(m, v.func) in ("builtins.frozenset", "builtins.tuple", "builtins.set") and len(v.args) == 1:
            return self.literal(v.args[0], m)
        return None

    def scalar(self, v, m):
        """Constant value of an expression over literals and the limits of floating-point numbers."""
        x = self.literal(v, m)
        if x is not None and x[0] == "ref" and x[1].startswith("sys.float_info."):
            import sys
            y = getattr(sys.float_info, x[1].rsplit(".", 1)[1], None)
            return const(y) if type(y) in (int, float) else None
        return x if x is not None and x[0] == "const" else None

    def find_property(self, c, name):
        """(getter, setter) FuncInfos of a property of class `c`."""
        for k in self.ix.mro(c):
            ci = self.ix.classes.get(k)
            if ci is None:
                continue
            if name in ci.methods and ci.methods[name].kind == "property":
                return ci.methods[name], None
            v = ci.attrs.get(name)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                args = list(v.args) + [None] * 4
                kw = {x.arg: x.value for x in v.keywords}
                get = kw.get("fget", args[0])
                set_ = kw.get("fset", args[1])
                f = lambda x: ci.methods.get(x.id) if isinstance(x, ast.Name) else None
                return f(get), f(set_)
            if name in ci.methods or name in ci.attrs:
                return None
        return None

    def e_Attribute(self, e, s, ctx):
        if isinstance(e.ctx, ast.Load):
            out = []
            for s2, b in self.eval(e.value, s, ctx):
                c = self.classof(b, s2) if b[0] not in ("super",) else None
                pr = self.find_property(c, e.attr) if c and (b, e.attr) not in s2.heap else None
                if pr and pr[0] is not None and pr[0].qualname not in ctx.stack and ctx.depth < self.p.max_depth:
                    out += self.inline(pr[0], ({}, True, (), ()), None, b, s2, ctx, e) if not pr[0].params() else \
                        self.inline(pr[0], ({pr[0].params()[0]: b}, True, (), ()), None, b, s2, ctx, e)
                else:
                    out.append((self.read_event(s2, b, e, ctx), self.getattr(b, e.attr, s2, ctx)))
            return out
        return [(self.read_event(s2, b, e, ctx), self.getattr(b, e.attr, s2, ctx)) for s2, b in self.eval(e.value, s, ctx)]

    def read_event(self, s, b, e, ctx):
        if self.p.reads:
            return self.rec(s, Ev("read", b, e.attr, None, e, ctx.fi))
        return s

    def classof(self, t, s=None):
        if t in self.types:
            return self.types[t]
        if t[0] == "call" and t[1][0] == "ref" and t[1][1] in self.ix.classes:
            return t[1][1]
        if t[0] == "ref":
            m, v = self.ix.global_value(t[1])
            if isinstance(v, ast.Call):
                d = self.ix.resolve_expr(m, v.func)
                if d in self.ix.classes:
                    self.types[t] = d
                    return d
        if t[0] in ("param", "free", "attr"):
            n = t[-1]
            if n in self.p.hints and self.p.hints[n] in self.ix.classes:
                return self.p.hints[n]
        return None

    def fields_of(self, x, s):
        """Names of the fields of a node of known class, else None."""
        d = self.typeof(x, s)
        if d is None:
            for f, v in s.facts.items():
                if v and f[0] == "typeis" and f[1] == x and len(f[2]) == 1:
                    d = next(iter(f[2]))
        if d is None:
            return None
        if d in self.p.node_fields:
            return tuple(self.p.node_fields[d])
        if _is_ast_class(d):
            from .asdl import fields
            fs = fields().get(d.rsplit(".", 1)[1])
            return None if fs is None else tuple(f for f, t, q in fs)
        return None

    def getattr(self, b, name, s, ctx):
        self.queried.add((b, name))
        if (b, name) in s.heap:
            return s.heap[(b, name)]
        if self.p.shapes and b[0] == "call" and b[1][0] == "ref" and _is_ast_class(b[1][1]):
            fs = self.fields_of(b, s)
            if fs is not None and name in fs:
                for k, v in b[2]:
                    if k == name or isinstance(k, int) and k < len(fs) and fs[k] == name:
                        return v
                from .asdl import quantifier
                if quantifier(b[1][1].rsplit(".", 1)[1], name) == "?":
                    return NONE
            elif fs is not None and name == "_fields":
                return ("tuple", tuple(const(f) for f in fs))
        if b[0] == "ref":
            if self.p.shapes and name == "__name__" and _is_ast_class(b[1]):
                return const(b[1].rsplit(".", 1)[1])
            inst = self.classof(b, s)
            if inst:
                fi = self.ix.find_method(inst, name)
                return ("bound", b, fi.qualname) if fi and fi.kind in ("method", "class", "static") else attr(b, name)
            d = self.ix.canonical(f"{b[1]}.{name}")
            r = ref(d)
            if (r, "#value") in s.heap:
                return s.heap[(r, "#value")]
            return self.expand_ref(r, s)
        if self.p.shapes and name == "__class__":
            k = self.key_of(("call", ref("builtins.type"), ((0, b),), 0), s)
            if k[0] == "ref":
                return k
        if b[0] == "super":
            fi = self.ix.find_method(b[2], name, after=b[1])
            if fi:
                return ("bound", b[3], fi.qualname)
            return attr(b, name)
        c = self.classof(b, s)
        if c:
            fi = self.ix.find_method(c, name)
            if fi and fi.kind in ("method", "class", "static"):
                return ("bound", b, fi.qualname)
            if self.p.shapes and fi is None:
                cv = self.ix.class_constant(c, name)
                if cv and isinstance(cv[1], ast.Name) and self.ix.find_method(c, cv[1].id):
                    return ("bound", b, self.ix.find_method(c, cv[1].id).qualname)
                lit = self.literal(cv[1], cv[0]) if cv else None
                if lit is not None:
                    return lit
        if name == "__cause__" and b[0] == "call" and b[1][0] == "ref" and self.subclass(b[1][1], "builtins.BaseException"):
            return NONE     # an exception made on this path and not chained
        return attr(b, name)

    def e_NamedExpr(self, e, s, ctx):
        return [(self.assign_name(e.target.id, v, s2, ctx), v) for s2, v in self.eval(e.value, s, ctx)]

    def e_BoolOp(self, e, s, ctx):
        isand = isinstance(e.op, ast.And)
        if ctx.nofork:
            return [(s2, ("and" if isand else "or", ts)) for s2, ts in self.eval_many(e.values, s, ctx)]
        live, out = [s], []
        for i, v in enumerate(e.values):
            nxt = []
            for s1 in live:
                if i == len(e.values) - 1:
                    out += self.eval(v, s1, ctx)
                    continue
                for s2, t in self.eval(v, s1, ctx):
                    for s3, b in self.branch(t, s2, ctx, v):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            tt, _ = self.normcond(t)
                            out.append((s3, (TRUE if b else FALSE) if tt[0] in ("cmp", "isnone", "isinst", "typeis", "in", "hasattr") else t))
            live = nxt
        return out

    def e_UnaryOp(self, e, s, ctx):
        out = []
        for s2, v in self.eval(e.operand, s, ctx):
            if isinstance(e.op, ast.Not):
                if v[0] == "not":
                    out.append((s2, ("bool", v[1])) if False else (s2, v[1] if v[1][0] in ("cmp", "isnone", "isinst", "typeis", "in") else ("not", v)))
                elif v[0] == "const":
                    out.append((s2, const(not v[2])))
                else:
                    out.append((s2, ("not", v)))
            elif isinstance(e.op, ast.USub) and v[0] == "const" and isinstance(v[2], (int, float)):
                out.append((s2, const(-v[2])))
            elif isinstance(e.op, ast.UAdd) and v[0] == "const" and isinstance(v[2], (int, float)):
                out.append((s2, const(+v[2])))
            else:
                out.append((s2, ("op", type(e.op).__name__, v)))
        return out

    def binop(self, op, a, b):
        if op == "Add":
            if _istext(a) or _istext(b):
                return fstr([_unstr(a), _unstr(b)])
            if a[0] == "const" and b[0] == "const" and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)):
                return const(a[2] + b[2])
        if op == "Mult" and a[0] == "const" and b[0] == "const" and isinstance(a[2], (str, int)) and isinstance(b[2], (str, int)) and not (isinstance(a[2], str) and isinstance(b[2], str)):
            return const(a[2] * b[2])
        if op == "Sub" and a[0] == "const" and b[0] == "const" and isinstance(a[2], int) and isinstance(b[2], int):
            return const(a[2] - b[2])
        isint = lambda x: x[0] == "const" and type(x[2]) is int
        if op == "Sub" and isint(b):
            op, b = "Add", const(-b[2])
        if op == "Add" and isint(a) and not isint(b):
            a, b = b, a
        if op == "Add" and isint(b) and b[2] == 0:
            return a
        if op == "Add" and isint(b) and a[0] == "op" and a[1] == "Add" and isint(a[3]):
            return self.binop("Add", a[2], const(a[3][2] + b[2]))
        if op == "Mod" and (a[0] == "fstr" or (a[0] == "const" and a[1] == "str")):
            args = list(b[1]) if b[0] == "tuple" else [b]
            parts = percent_parts(a, args)
            return fstr(parts if parts is not None else [a] + args)
        return ("op", op, a, b)

    def e_BinOp(self, e, s, ctx):
        out = []
        for s2, (a, b) in self.eval_many([e.left, e.right], s, ctx):
            op = type(e.op).__name__
            if op == "Add" and (a[0] == "new" and a[1] == "list" or b[0] == "new" and b[1] == "list"):
                obj = self.fresh("list", e, ctx, s2)
                items = self.as_items(a, s2) + self.as_items(b, s2)
                out.append((s2.setheap((obj, "#"), items), obj))
            elif op == "Add" and a[0] == "tuple" and b[0] == "tuple":
                out.append((s2, ("tuple", a[1] + b[1])))
            elif op == "Mult" and a[0] == "new" and a[1] == "list" and b[0] == "const" and isinstance(b[2], int) and (a, "#") in s2.heap:
                obj = self.fresh("list", e, ctx, s2)
                out.append((s2.setheap((obj, "#"), s2.heap[(a, "#")] * b[2]), obj))
            else:
                out.append((s2, self.binop(op, a, b)))
        return out

    def mkcmp(self, op, a, b):
        neg = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In", "GtE": "Lt", "LtE": "Gt"}
        if op in neg:
            return ("not", self.mkcmp(neg[op], a, b))
        if op == "Gt":
            return ("cmp", "Lt", b, a)
        if op in ("Is", "Eq"):
            if a == NONE:
                a, b = b, a
            if b == NONE:
                return ("isnone", a)
            ta, tb = _typecall(a), _typecall(b)
            if ta and b[0] == "ref":
                return ("typeis", ta, frozenset([b[1]]))
            if tb and a[0] == "ref":
                return ("typeis", tb, frozenset([a[1]]))
            if op == "Is" and (a[0] == "const" or b[0] == "const") or op == "Eq":
                if a[0] == "const" and b[0] != "const":
                    a, b = b, a
                return ("cmp", "Eq", a, b)
            if a[0] == "ref" and b[0] != "ref":
                a, b = b, a
            return ("cmp", "Is", a, b)
        if op == "In":
            ta = _typecall(a)
            items = None
            if b[0] in ("tuple", "set", "list"):
                items = b[1]
            elif b[0] == "dict" and all(k is not None and k[0] not in ("rep", "star") for k, _ in b[1]):
                items = tuple(k for k, _ in b[1])
            if items is not None:
                if ta and all(x[0] == "ref" for x in items):
                    return ("typeis", ta, frozenset(x[1] for x in items))
                if not any(x[0] in ("rep", "star") for x in items):
                    if len(items) == 1:
                        return self.mkcmp("Eq", a, items[0])
                    return ("in", a, frozenset(items))
        return ("cmp", op, a, b)

    def e_Compare(self, e, s, ctx):
        out = []
        for s2, ts in self.eval_many([e.left] + e.comparators, s, ctx):
            parts = []
            for i, op in enumerate(e.ops):
                a, b = ts[i], ts[i + 1]
                if isinstance(op, (ast.In, ast.NotIn)):
                    self.queried.add(b)
                    if b in self.dirty:
                        items = s2.heap.get((b, "#"), ())
                        if a in ([x[0] for x in items] if b[1] == "dict" else items):
                            parts.append(const(isinstance(op, ast.In)))
                            continue
                    else:
                        b = self.snap(s2, b)
                parts.append(self.mkcmp(type(op).__name__, a, b))
            t = parts[0] if len(parts) == 1 else ("and", tuple(parts))
            d = self.decide(self.normcond(t)[0], s2) if t[0] not in ("and",) else None
            if d is not None:
                n, pol = self.normcond(t)
                t = TRUE if d == pol else FALSE
            out.append((s2, t))
        return out

    def e_IfExp(self, e, s, ctx):
        if ctx.nofork:
            return [(s2, ("ifexp",) + ts) for s2, ts in self.eval_many([e.test, e.body, e.orelse], s, ctx)]
        out = []
        for s2, b in self.cond(e.test, s, ctx):
            out += self.eval(e.body if b else e.orelse, s2, ctx)
        return out

    def _seq(self, e, s, ctx, kind):
        res = [(s, ())]
        for x in e.elts:
            nxt = []
            for s2, ts in res:
                if isinstance(x, ast.Starred):
                    for s3, t in self.eval(x.value, s2, ctx):
                        nxt.append((s3, ts + self.as_items(t, s3)))
                else:
                    for s3, t in self.eval(x, s2, ctx):
                        nxt.append((s3, ts + (t,)))
            res = nxt
        if kind == "tuple":
            return [(s2, ("tuple", ts)) for s2, ts in res]
        out = []
        for s2, ts in res:
            obj = self.fresh(kind, e, ctx, s2)
            out.append((s2.setheap((obj, "#"), ts), obj))
        return out

    def e_List(self, e, s, ctx):
        return self._seq(e, s, ctx, "list")

    def e_Set(self, e, s, ctx):
        return self._seq(e, s, ctx, "set")

    def e_Tuple(self, e, s, ctx):
        return self._seq(e, s, ctx, "tuple")

    def e_Dict(self, e, s, ctx):
        res = [(s, ())]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s2, items in res:
                if k is None:
                    for s3, t in self.eval(v, s2, ctx):
                        if t[0] == "new" and t[1] == "dict" and (t, "#") in s3.heap:
                            nxt.append((s3, items + s3.heap[(t, "#")]))
                        else:
                            nxt.append((s3, items + ((None, t),)))
                else:
                    for s3, (kt, vt) in self.eval_many([k, v], s2, ctx):
                        nxt.append((s3, tuple(x for x in items if x[0] != kt) + ((kt, vt),)))
            res = nxt
        out = []
        for s2, items in res:
            obj = self.fresh("dict", e, ctx, s2)
            out.append((s2.setheap((obj, "#"), items), obj))
        return out

    def e_JoinedStr(self, e, s, ctx):
        res = [(s, [])]
        for x in e.values:
            nxt = []
            for s2, ps in res:
                if isinstance(x, ast.Constant):
                    nxt.append((s2, ps + [const(x.value)]))
                else:
                    for s3, t in self.eval(x.value, s2, ctx):
                        t = self.snap(s3, t)
                        if x.conversion != -1:
                            t = ("conv", chr(x.conversion), t)
                        nxt.append((s3, ps + [t]))
            res = nxt
        return [(s2, fstr(ps)) for s2, ps in res]

    def e_Subscript(self, e, s, ctx):
        out = []
        for s2, (b, i) in self.eval_many([e.value, e.slice], s, ctx):
            if self.p.may_raise(("getitem", b, i), self, s2):
                self.sinks[-1].append(("raise", s2, ("exc", ("getitem", b, i))))
            if self.p.reads:
                s2 = self.rec(s2, Ev("getitem", b, i, None, e, ctx.fi))
            if i[0] == "slice" and all(x[0] == "const" for x in i[1:]) and (b[0] == "tuple" or self.p.shapes and b[0] == "new" and b[1] == "list"):
                items = self.concrete_items(b, s2)
                if items is not None:
                    items = tuple(items[slice(*(x[2] for x in i[1:]))])
                    if b[0] == "tuple":
                        out.append((s2, ("tuple", items)))
                    else:
                        obj = self.fresh("list", e, ctx, s2)
                        out.append((s2.setheap((obj, "#"), items), obj))
                    continue
            if self.p.shapes and b[0] == "const" and b[1] == "str":
                if i[0] == "slice" and all(x[0] == "const" for x in i[1:]):
                    out.append((s2, const(b[2][slice(*(x[2] for x in i[1:]))])))
                    continue
                if i[0] == "const" and type(i[2]) is int and -len(b[2]) <= i[2] < len(b[2]):
                    out.append((s2, const(b[2][i[2]])))
                    continue
            out.append((s2, self.subscript(b, i, s2)))
        return out

    def key_of(self, k, s):
        """A key `type(x)` is the class that `x` is known to be an instance of."""
        if is_call(k, "builtins.type") and len(k[2]) == 1:
            for f, v in s.facts.items():
                if v and f[0] == "typeis" and f[1] == k[2][0][1] and len(f[2]) == 1:
                    return ref(next(iter(f[2])))
        return k

    def subscript(self, b, i, s):
        if b[0] == "globals" and i[0] == "const" and isinstance(i[2], str) and b[1] in self.ix.modules:
            return self.global_ref(self.ix.modules[b[1]], i[2], s)
        if b[0] == "dict":
            kk = self.key_of(i, s)
            for k, v in b[1]:
                if k == kk:
                    return v
        if i[0] == "const" and isinstance(i[2], int):
            items = b[1] if b[0] == "tuple" or b[0] == "list" and self.p.shapes else s.heap.get((b, "#")) if b[0] == "new" and b[1] == "list" else None
            if items is not None and known_index(items, i[2]):
                return items[i[2]]
        if b[0] == "new" and b[1] == "dict":
            for k, v in s.heap.get((b, "#"), ()):
                if k == i:
                    return v
        return ("sub", self.snap(s, b), i)

    def e_Slice(self, e, s, ctx):
        parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        return [(s2, ("slice",) + ts) for s2, ts in self.eval_many(parts, s, ctx)]

    def e_Starred(self, e, s, ctx):
        return [(s2, ("star", t)) for s2, t in self.eval(e.value, s, ctx)]

    def e_Await(self, e, s, ctx):
        return self.eval(e.value, s, ctx)

    def e_Lambda(self, e, s, ctx):
        fi = self.ix.func_by_node.get(e)
        if fi is None:
            return [(s, ("unknown", self.serial(e, ctx)))]
        return [(s, ("closure", fi.qualname, ctx.fid))]

    def e_Yield(self, e, s, ctx):
        out = []
        for s2, v in (self.eval(e.value, s, ctx) if e.value is not None else [(s, NONE)]):
            if ctx.hook is None:
                if self.p.may_raise(("yield",), self, s2):
                    self.sinks[-1].append(("raise", self.rec(s2, Ev("yield", self.snap(s2, v), "raise", None, e, ctx.fi)), ("exc", ("yield",))))
                out.append((self.rec(s2, Ev("yield", self.snap(s2, v), None, None, e, ctx.fi)), ("yielded", self.serial(e, ctx))))
                continue
            for k, s3, val in ctx.hook(s2, v):
                if k == "next":
                    out.append((s3, NONE))
                elif k == "raise":
                    self.sinks[-1].append((k, s3, val))
                else:
                    s4 = s3.copy()
                    s4.pending = {**s3.pending, ctx.fid: (k, val)}
                    out.append((s4, NONE))
        return out

    def e_YieldFrom(self, e, s, ctx):
        out = []
        for s2, v in self.eval(e.value, s, ctx):
            out.append((self.rec(s2, Ev("yieldfrom", self.snap(s2, v), None, None, e, ctx.fi)), ("unknown", self.serial(e, ctx))))
        return out

    # -- comprehensions
    def _comp(self, e, elts, s, ctx):
        """-> [(state, itersnap, tuple of elt terms, conds)] for the generic element."""
        nctx = ctx.replace(nofork=True)
        res = [(s, None, ())]
        opened = []
        for g in e.generators:
            nxt = []
            for s2, it0, conds in res:
                for s3, it in self.eval(g.iter, s2, nctx):
                    serial = self.serial(g, ctx, "comp")
                    its = self.snap(s3, it)
                    s4 = self.rec(s3, Ev("loop", its, serial, "comp", e, ctx.fi))
                    elem = self.elem_of(its if it[0] == "new" else it, serial)
                    if its[0] == "list" and len(its[1]) == 1 and its[1][0][0] == "rep":
                        elem = its[1][0][2]
                    for s5 in self.assign(g.target, elem, s4, nctx):
                        states = [(s5, conds)]
                        for c in g.ifs:
                            states = [(s7, cs + (t,)) for s6, cs in states for s7, t in self.eval(c, s6, nctx)]
                        for s6, cs in states:
                            nxt.append((s6, its if it0 is None else ("nest", it0, its), cs))
            res = nxt
            opened.append(g)
        out = []
        for s2, it, conds in res:
            for s3, ts in self.eval_many(elts, s2, nctx):
                for g in reversed(opened):
                    s3 = self.rec(s3, Ev("endloop", it, self.serial(g, ctx, "comp"), "comp", e, ctx.fi))
                # restore shadowed names
                names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                f = dict(s3.frames.get(ctx.fid, {}))
                of = s.frames.get(ctx.fid, {})
                for n in names:
                    f.pop(n, None)
                    if n in of:
                        f[n] = of[n]
                s4 = s3.copy()
                s4.frames = {**s3.frames, ctx.fid: f}
                out.append((s4, it, ts, conds))
        return out

    def comp_concrete(self, e, s, ctx):
        """A comprehension over a fully known container: unroll. -> [(state, [tuples])] or None."""
        if len(e.generators) != 1:
            return None
        return None

    def e_ListComp(self, e, s, ctx, kind="list"):
        out = []
        if len(e.generators) == 1 and not e.generators[0].is_async:
            g = e.generators[0]
            r = self.eval(g.iter, s, ctx)
            if len(r) == 1:
                conc = self.concrete_items(r[0][1], r[0][0])
                if conc is not None and len(conc) <= self.p.unroll:
                    return self._unroll_comp(e, [e.elt], conc, r[0][0], ctx, kind)
        for s2, it, (t,), conds in self._comp(e, [e.elt], s, ctx):
            obj = self.fresh(kind, e, ctx, s2)
            out.append((s2.setheap((obj, "#"), (("rep", it, self.snap(s2, t), conds),)), obj))
        return out

    def _unroll_comp(self, e, elts, conc, s, ctx, kind):
        g = e.generators[0]
        names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        of = s.frames.get(ctx.fid, {})
        live = [(s, ())]
        for x in conc:
            nxt = []
            for s1, acc in live:
                for s2 in self.assign(g.target, x, s1, ctx):
                    sts = [(s2, True)]
                    for c in g.ifs:
                        sts = [(s4, b and b0) for s3, b0 in sts for s4, b in (self.cond(c, s3, ctx) if b0 else [(s3, False)])]
                    for s3, ok in sts:
                        if not ok:
                            nxt.append((s3, acc))
                            continue
                        for s4, ts in self.eval_many(elts, s3, ctx):
                            nxt.append((s4, acc + (ts,)))
            live = nxt
        out = []
        for s1, acc in live:
            f = dict(s1.frames.get(ctx.fid, {}))
            for n in names:
                f.pop(n, None)
                if n in of:
                    f[n] = of[n]
            s2 = s1.copy()
            s2.frames = {**s1.frames, ctx.fid: f}
            obj = self.fresh(kind, e, ctx, s2)
            if kind == "dict":
                out.append((s2.setheap((obj, "#"), tuple(acc)), obj))
            else:
                out.append((s2.setheap((obj, "#"), tuple(t[0] for t in acc)), obj))
        return out

    def e_SetComp(self, e, s, ctx):
        return self.e_ListComp(e, s, ctx, "set")

    def e_GeneratorExp(self, e, s, ctx):
        return self.e_ListComp(e, s, ctx, "list")

    def e_DictComp(self, e, s, ctx):
        if len(e.generators) == 1:
            g = e.generators[0]
            r = self.eval(g.iter, s, ctx)
            if len(r) == 1:
                conc = self.concrete_items(r[0][1], r[0][0])
                if conc is not None and len(conc) <= self.p.unroll:
                    return self._unroll_comp(e, [e.key, e.value], conc, r[0][0], ctx, "dict")
        out = []
        for s2, it, (k, v), conds in self._comp(e, [e.key, e.value], s, ctx):
            obj = self.fresh("dict", e, ctx, s2)
            out.append((s2.setheap((obj, "#"), ((("rep", it, k, conds), v),)), obj))
        return out

    def splat_item(self, k, v):
        """one entry of a dict display that is passed as `**`"""
        if k is None:
            return ("**", v)
        if k[0] == "const":
            return (k[2], v)
        if k[0] == "rep" and not k[3] and k[1][0] == "items" and k[2][0] == "key" and v == ("val",) + k[2][1:] and k[2][1] == k[1][1]:
            return ("**", k[1][1])  # a plain copy
        return ("**", ("dict", ((k, v),)))

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, s, ctx):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = ctx.fi
            while f.cls is None and f.parent is not None:
                f = f.parent
            if f.cls is not None:
                return [(s, ("super", f.cls.qualname, ctx.selfcls or f.cls.qualname, ctx.selfterm or ("param", "self")))]
        out = []
        for s2, fn in self.eval(e.func, s, ctx):
            res = [(s2, (), ())]
            for a in e.args:
                nxt = []
                for s3, pos, kw in res:
                    if isinstance(a, ast.Starred):
                        for s4, t in self.eval(a.value, s3, ctx):
                            nxt.append((s4, pos + tuple(x if x[0] != "rep" else ("star", ("list", (x,))) for x in self.as_items(t, s4)), kw))
                    else:
                        for s4, t in self.eval(a, s3, ctx):
                            nxt.append((s4, pos + (t,), kw))
                res = nxt
            for k in e.keywords:
                nxt = []
                for s3, pos, kw in res:
                    for s4, t in self.eval(k.value, s3, ctx):
                        if k.arg is None:
                            if t[0] == "new" and t[1] == "dict" and (t, "#") in s4.heap:
                                items = s4.heap[(t, "#")]
                                add = tuple(self.splat_item(kk, vv) for kk, vv in items)
                                nxt.append((s4, pos, kw + add))
                            else:
                                nxt.append((s4, pos, kw + (("**", t),)))
                        else:
                            nxt.append((s4, pos, kw + ((k.arg, t),)))
                res = nxt
            for s3, pos, kw in res:
                out += self.apply(fn, pos, kw, s3, ctx, e)
        return out

    def resolve_fn(self, fn):
        """-> (FuncInfo, closure frame, selfterm) or None."""
        if fn[0] == "ref" and fn[1] in self.ix.funcs:
            fi = self.ix.funcs[fn[1]]
            return fi, None, None
        if fn[0] == "closure" and fn[1] in self.ix.funcs:
            return self.ix.funcs[fn[1]], fn[2], None
        if fn[0] == "bound" and fn[2] in self.ix.funcs:
            return self.ix.funcs[fn[2]], None, fn[1]
        return None

    def closure_parents(self, fi, pfid, s, ctx=None):
        parents, p, f = [], fi.outer, pfid
        if fi.parent is None and p is not None and ctx is not None:
            # method of a local class: the frame of the function around the class, if it is active
            f = ctx.fid if ctx.fi is p else next((b for a, b in ctx.parents if a is p), None)
            if f is None:
                f = next((k for k in reversed(list(s.frames)) if isinstance(k, tuple) and k[0] == "f" and k[-1] == p.qualname), None)
        while p is not None:
            parents.append((p, f))
            # find the frame enclosing f
            nf = f - 1 if type(f) is int and f < 0 else s.frames.get(f, {}).get("#parent")
            p, f = p.outer, nf
        return parents

    def bind_args(self, fi, pos, kw, selfterm, s, ctx):
        """Bind call arguments to parameter names. -> (dict, complete?) or None."""
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        pos = tuple(pos)
        if fi.kind in ("method", "class") and selfterm is not None:
            pos = (selfterm,) + pos
        if any(x[0] == "star" for x in pos) or any(k == "**" for k, _ in kw):
            # partially known: bind what is certain
            bound = {}
            i = 0
            for x in pos:
                if x[0] == "star":
                    break
                if i < len(params):
                    bound[params[i]] = x
                i += 1
            names = set(params) | {x.arg for x in a.kwonlyargs}
            rest = []
            for k, v in kw:
                if k in names:
                    bound[k] = v
                else:
                    rest.append((k, v))
            return bound, False, pos[i:], tuple(rest)
        bound = {}
        for n, x in zip(params, pos):
            bound[n] = x
        extra = pos[len(params):]
        names = set(params) | {x.arg for x in a.kwonlyargs}
        rest = []
        for k, v in kw:
            if k in names:
                bound[k] = v
            else:
                rest.append((k, v))
        return bound, True, extra, tuple(rest)

    def apply(self, fn, pos, kw, s, ctx, node):
        if fn[0] == "call" and fn[1] == ref("functools.partial") and fn[2]:
            ppos = tuple(v for k, v in fn[2] if isinstance(k, int))
            pkw = tuple((k, v) for k, v in fn[2] if not isinstance(k, int))
            return self.apply(ppos[0], ppos[1:] + pos, pkw + kw, s, ctx, node)
        m = self.model(fn, pos, kw, s, ctx, node)
        if m is not None:
            return m
        r = self.resolve_fn(fn)
        if r is not None:
            fi, pfid, selfterm = r
            b = self.bind_args(fi, pos, kw, selfterm, s, ctx)
            isctx = fi.is_generator and any((self.ix.resolve_expr(fi.module, d) or "").endswith("contextmanager") for d in fi.decorators)
            inl = self.p.inline_when(fi, b[0], s) if self.p.inline_when and b is not None else None
            if inl:
                inl = ctx.depth < self.p.max_depth and ctx.stack.count(fi.qualname) < 10
            elif inl is None:
                again = ctx.stack.count(fi.qualname)
                inl = self.p.wants_inline(fi) and ctx.depth < self.p.max_depth and \
                    (not again or self.p.inline_when is not None and again < 5 and fi.qualname not in self.p.baseline and fi.parent is None)
            if b is not None and b[1] and inl and isctx:
                frame = self.make_frame(fi, b, pfid, s, ctx, node)
                if frame is not None:
                    s2, fr = frame
                    t = ("genctx", fi.qualname, pfid, tuple(sorted(fr.items(), key=lambda x: x[0])), selfterm,
                         self.classof(selfterm, s) if selfterm is not None else None, self.serial(node, ctx, "gen"))
                    return [(s2, t)]
            if b is not None and b[1] and inl and not fi.is_generator:
                return self.inline(fi, b, pfid, selfterm, s, ctx, node)
            return self.opaque(fn, pos, kw, s, ctx, node, fi, b)
        return self.opaque(fn, pos, kw, s, ctx, node, None, None)

    def make_frame(self, fi, b, pfid, s, ctx, node):
        bound, _, extra, rest = b
        a = fi.node.args
        fr = dict(bound)
        params = a.posonlyargs + a.args
        defaults = dict(zip([x.arg for x in params[len(params) - len(a.defaults):]], a.defaults)) if a.defaults else {}
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n, d in defaults.items():
            if n not in fr:
                dctx = Ctx(fi.parent or fi, pfid if fi.parent else ("d", 0), self.closure_parents(fi, pfid, s)[1:] if fi.parent else [], None, ctx.depth, ctx.stack)
                if fi.parent is None:
                    dctx = Ctx(_modulescope(fi), ("d", 0), [], None, ctx.depth, ctx.stack)
                r = self.eval(d, s, dctx)
                if r:
                    s, fr[n] = r[0]
        if a.vararg:
            fr[a.vararg.arg] = ("tuple", tuple(extra))
        if a.kwarg:
            obj = self.fresh("dict", node, ctx, s, "kw")
            s = s.setheap((obj, "#"), tuple((const(k), v) for k, v in rest))
            fr[a.kwarg.arg] = obj
        for x in params + a.kwonlyargs:
            fr.setdefault(x.arg, ("missing", x.arg))
        fr["#parent"] = pfid
        return s, fr

    def inline(self, fi, b, pfid, selfterm, s, ctx, node):
        r = self.make_frame(fi, b, pfid, s, ctx, node)
        s, fr = r
        fid = ("f", self.serial(node, ctx, "call"), fi.qualname)
        s = s.copy()
        s.frames = {**s.frames, fid: fr}
        cls = None
        st = None
        if fi.cls is not None and fi.kind in ("method", "property") and selfterm is not None:
            cls = self.classof(selfterm, s) or fi.cls.qualname
            if selfterm not in self.types:
                self.types[selfterm] = cls
            st = selfterm
        elif fi.parent is not None:
            cls, st = ctx.selfcls, ctx.selfterm
        nctx = Ctx(fi, fid, self.closure_parents(fi, pfid, s, ctx), cls, ctx.depth + 1, ctx.stack + (fi.qualname,), selfterm=st)
        if isinstance(fi.node, ast.Lambda):
            return self.eval(fi.node.body, s, nctx)
        out = []
        for k, s2, v in self.exec_block(fi.node.body, s, nctx):
            if k == "raise":
                self.sinks[-1].append((k, s2, v))
            else:
                if not any(isinstance(x, tuple) and x and x[0] == "closure" and x[2] == fid for x in ([v] if v else [])) and \
                        not _has_closure(fi.node) and not (isinstance(v, tuple) and _mentions(v, fid)):
                    s2 = s2.copy()
                    s2.frames = {a: c for a, c in s2.frames.items() if a != fid}
                out.append((s2, NONE if k == "next" else v))
        # merge equal outcomes
        seen, res = set(), []
        for s2, v in out:
            key = (s2.key(), v)
            if key not in seen:
                seen.add(key)
                res.append((s2, v))
        return res

    def opaque(self, fn, pos, kw, s, ctx, node, fi, b):
        if fi is not None and b is not None:
            bound, complete, extra, rest = b
            args = tuple(sorted(((k, self.snap(s, v)) for k, v in bound.items() if v is not b_self(fi, fn)), key=lambda x: x[0]))
            if fi.kind == "method" and fn[0] == "bound":
                selfname = fi.params()[0] if fi.params() else None
                args = tuple(x for x in args if x[0] != selfname)
            args += tuple(("*", self.snap(s, x)) for x in extra) + tuple((k, self.snap(s, v)) for k, v in rest)
        else:
            args = tuple((i, self.snap(s, x)) for i, x in enumerate(pos)) + tuple((k, self.snap(s, v)) for k, v in kw)
        name = fn[1] if fn[0] == "ref" else None
        serial = 0 if name in PURE or (fi is not None and fi.name in ("isbound", "ismacrocall")) else self.serial(node, ctx, "op")
        t = ("call", fn, args, serial)
        for o, a in self.p.watch:
            s = self.rec(s, Ev("watch", o, a, self.snap(s, s.heap.get((o, a), attr(o, a))), node, ctx.fi))
        if self.p.may_raise(t, self, s):
            s_r = self.rec(s, Ev("callraise", fn, args, t, node, ctx.fi))
            self.sinks[-1].append(("raise", s_r, ("exc", t)))
        if name in ("builtins.type", "builtins.len"):
            return [(s, t)]
        s2 = self.rec(s, Ev("call", fn, args, t, node, ctx.fi))
        return [(s2, t)]

    # -- models of builtins and container methods
    def model(self, fn, pos, kw, s, ctx, node):
        if fn[0] == "ref" and not any(x[0] == "star" for x in pos):
            d = fn[1]
            if d in self.p.models:
                r = self.p.models[d](pos, kw, s)
                if r is not None:
                    return [(s, r)]
            if self.p.shapes and d == "ast.iter_fields" and len(pos) == 1:
                fs = self.fields_of(pos[0], s)
                if fs is not None:
                    return [(s, ("tuple", tuple(("tuple", (const(f), self.getattr(pos[0], f, s, ctx))) for f in fs)))]
            if self.p.shapes and d == "ast.copy_location" and len(pos) == 2:
                return [(s, pos[0])]
            if self.p.shapes and d == "builtins.globals" and not pos:
                return [(s, ("globals", ctx.fi.module.name))]
            if d == "builtins.isinstance" and len(pos) == 2:
                S = _typeset(pos[1], self, s)
                if S is not None:
                    t = ("isinst", pos[0], S)
                    v = self.decide(t, s)
                    return [(s, t if v is None else const(v))]
            if d == "builtins.hasattr" and len(pos) == 2 and pos[1][0] == "const":
                if (pos[0], pos[1][2]) in s.heap:
                    return [(s, TRUE)]
                c = self.classof(pos[0], s) if self.p.shapes else None
                if c and self.ix.class_attr(c, pos[1][2]) is not None:
                    return [(s, TRUE)]
                if c and pos[1][2] not in self.ix.instance_attrs(c):
                    return [(s, FALSE)]
                return [(s, ("hasattr", pos[0], pos[1][2]))]
            if d == "builtins.getattr" and len(pos) >= 2 and pos[1][0] == "const" and isinstance(pos[1][2], str):
                if len(pos) == 2:
                    return [(self.read_event(s, pos[0], _FakeAttr(pos[1][2], node), ctx), self.getattr(pos[0], pos[1][2], s, ctx))]
                s = self.read_event(s, pos[0], _FakeAttr(pos[1][2], node), ctx)
                if (pos[0], pos[1][2]) in s.heap:
                    return [(s, s.heap[(pos[0], pos[1][2])])]
                if s.facts.get(("hasattr", pos[0], pos[1][2])):
                    return [(s, self.getattr(pos[0], pos[1][2], s, ctx))]
                return [(s, ("getattr", pos[0], pos[1][2], pos[2]))]
            if d == "builtins.setattr" and len(pos) == 3 and pos[1][0] == "const":
                s = self.rec(s, Ev("setattr", pos[0], pos[1][2], self.snap(s, pos[2]), node, ctx.fi))
                return [(s.setheap((pos[0], pos[1][2]), pos[2]), NONE)]
            if d == "builtins.setattr" and len(pos) == 3:
                s = self.rec(s, Ev("setattr", pos[0], pos[1], self.snap(s, pos[2]), node, ctx.fi))
                return [(s, NONE)]
            if d == "builtins.delattr" and len(pos) == 2:
                if self.p.may_raise(("delattr",) + pos, self, s):
                    self.sinks[-1].append(("raise", s, ("exc", ("delattr",) + pos)))
                s = self.rec(s, Ev("delattr", pos[0], pos[1][2] if pos[1][0] == "const" else pos[1], None, node, ctx.fi))
                return [(s, NONE)]
            if d == "builtins.enumerate" and len(pos) >= 1:
                return [(s, ("enumerate", pos[0]))]
            if d == "builtins.zip" and pos and not kw:
                return [(s, ("zip", pos))]
            if d == "builtins.reversed" and len(pos) == 1:
                return [(s, ("reversed", pos[0]))]
            if d == "builtins.sorted" and len(pos) == 1 and self.concrete_items(pos[0], s) == ():
                obj = self.fresh("list", node, ctx, s)
                return [(s.setheap((obj, "#"), ()), obj)]
            if d in ("builtins.list", "builtins.tuple", "builtins.iter") and len(pos) == 1 and not kw:
                items = self.concrete_items(pos[0], s)
                if d == "builtins.tuple" and items is not None:
                    return [(s, ("tuple", items))]
                if d == "builtins.iter" and self.p.shapes and items is not None and not (pos[0], "#iterator") in s.heap:
                    obj = self.fresh("list", node, ctx, s)
                    return [(s.setheap((obj, "#"), items).setheap((obj, "#iterator"), TRUE), obj)]
                if d == "builtins.iter":
                    return [(s, pos[0])]
                if items is None and pos[0][0] not in ("new", "rep", "items", "enumerate", "zip", "reversed"):
                    t = ("call", fn, ((0, self.snap(s, pos[0])),), self.serial(node, ctx))
                    if self.p.may_raise(t, self, s):
                        self.sinks[-1].append(("raise", self.rec(s, Ev("callraise", fn, t[2], t, node, ctx.fi)), ("exc", t)))
                obj = self.fresh("list", node, ctx, s)
                return [(s.setheap((obj, "#"), items if items is not None else self.as_items(pos[0], s)), obj)]
            if d in ("builtins.list", "builtins.set", "builtins.tuple") and not pos and not kw:
                if d == "builtins.tuple":
                    return [(s, ("tuple", ()))]
                obj = self.fresh(d[9:], node, ctx, s)
                return [(s.setheap((obj, "#"), ()), obj)]
            if d == "builtins.set" and len(pos) == 1:
                obj = self.fresh("set", node, ctx, s)
                return [(s.setheap((obj, "#"), self.as_items(pos[0], s)), obj)]
            if d == "builtins.dict" and not any(k == "**" for k, _ in kw):
                base = ()
                if len(pos) == 1:
                    if pos[0][0] == "new" and pos[0][1] == "dict" and (pos[0], "#") in s.heap:
                        base = s.heap[(pos[0], "#")]
                    elif self.p.shapes and (ci := self.concrete_items(pos[0], s)) is not None and all(self.concrete_items(x, s) is not None and len(self.concrete_items(x, s)) == 2 for x in ci):
                        base = tuple(dict(tuple(self.concrete_items(x, s)) for x in ci).items())
                    else:
                        base = ((None, pos[0]),)
                if len(pos) <= 1:
                    obj = self.fresh("dict", node, ctx, s)
                    add = tuple((const(k), v) for k, v in kw)
                    names = {k for k, _ in add}
                    return [(s.setheap((obj, "#"), tuple(x for x in base if x[0] not in names) + add), obj)]
            if d == "functools.reduce" and 2 <= len(pos) <= 3 and not kw and (self.resolve_fn(pos[0]) or pos[0][0] in ("ref", "bound", "attr")):
                items = self.concrete_items(pos[1], s)
                if items is not None and len(items) <= self.p.unroll and (len(pos) == 3 or items):
                    live = [(s, pos[2] if len(pos) == 3 else items[0])]
                    for x in items if len(pos) == 3 else items[1:]:
                        live = [r for s2, acc in live for r in self.apply(pos[0], (acc, x), (), s2, ctx, node)]
                    return live
            if d == "builtins.map" and len(pos) == 2 and (self.resolve_fn(pos[0]) or pos[0][0] in ("ref", "bound", "attr")):
                it = pos[1]
                serial = self.serial(node, ctx, "map")
                its = self.snap(s, it)
                s1 = self.rec(s, Ev("loop", its, serial, "comp", node, ctx.fi))
                out = []
                for s2, v in self.apply(pos[0], (self.elem_of(its if it[0] == "new" else it, serial),), (), s1, ctx, node):
                    s2 = self.rec(s2, Ev("endloop", its, serial, "comp", node, ctx.fi))
                    obj = ("new", "list", serial)
                    out.append((s2.setheap((obj, "#"), (("rep", its, self.snap(s2, v), ()),)), obj))
                return out
            if d == "builtins.filter" and len(pos) == 2:
                it = pos[1]
                serial = self.serial(node, ctx, "filter")
                its = self.snap(s, it)
                el = self.elem_of(its if it[0] == "new" else it, serial)
                conds = ()
                if pos[0] != NONE and self.resolve_fn(pos[0]):
                    r = self.apply(pos[0], (el,), (), s, ctx.replace(nofork=True), node)
                    conds = (r[0][1],) if len(r) == 1 else ()
                    s = r[0][0] if len(r) == 1 else s
                elif pos[0] == NONE:
                    conds = (el,)
                else:
                    conds = (("call", pos[0], ((0, el),), 0),)
                obj = ("new", "list", serial)
                return [(s.setheap((obj, "#"), (("rep", its, el, conds),)), obj)]
            if d == "builtins.next" and pos and (pos[0], "#iterator") in s.heap:
                items = s.heap[(pos[0], "#")]
                if items:
                    return [(s.setheap((pos[0], "#"), items[1:]), items[0])]
                if len(pos) > 1:
                    return [(s, pos[1])]
                self.sinks[-1].append(("raise", s, ("call", ref("builtins.StopIteration"), (), self.serial(node, ctx))))
                return []
            if d == "builtins.range" and self.p.shapes and pos and all(x[0] == "const" and type(x[2]) is int for x in pos):
                return [(s, ("tuple", tuple(const(i) for i in range(*(x[2] for x in pos)))))]
            if d == "builtins.type" and self.p.shapes and len(pos) == 1 and pos[0][0] == "const":
                return [(s, ref("builtins." + pos[0][1]))]
            if d == "builtins.type" and self.p.shapes and len(pos) == 1:
                k = self.key_of(("call", fn, ((0, pos[0]),), 0), s)
                if k[0] == "ref":
                    return [(s, k)]
            if d == "builtins.repr" and self.p.shapes and len(pos) == 1 and pos[0][0] == "const":
                return [(s, const(repr(pos[0][2])))]
            if d in ("builtins.any", "builtins.all") and self.p.shapes and len(pos) == 1:
                items = self.concrete_items(pos[0], s)
                ds = None if items is None else [self.decide(self.normcond(x)[0], s) for x in items]
                if ds is not None and None not in ds:
                    ds = [d2 == self.normcond(x)[1] for d2, x in zip(ds, items)]
                    return [(s, const(any(ds) if d.endswith("any") else all(ds)))]
            if d == "builtins.len" and len(pos) == 1:
                items = self.concrete_items(pos[0], s)
                if items is not None:
                    return [(s, const(len(items)))]
            if d in ("builtins.str",) and len(pos) == 1 and not kw and (pos[0][0] in ("fstr",) or pos[0][0] == "const" and pos[0][1] == "str"):
                return [(s, pos[0])]
            if d == "typing.cast" and len(pos) == 2:
                return [(s, pos[1])]
        if fn[0] == "attr":
            b, name = fn[1], fn[2]
            if b[0] == "new":
                return self.container_method(b, name, pos, kw, s, ctx, node)
            if b[0] == "dict" and not kw:
                if name == "get" and pos:
                    kk = self.key_of(pos[0], s)
                    for k, v in b[1]:
                        if k == kk:
                            return [(s, v)]
                    if kk[0] in ("const", "ref") and all(k is not None and k[0] == kk[0] for k, _ in b[1]):
                        return [(s, pos[1] if len(pos) > 1 else NONE)]
                if name == "items" and not pos and all(k is not None for k, _ in b[1]):
                    return [(s, ("tuple", tuple(("tuple", (k, v)) for k, v in b[1])))]
                if name == "keys" and not pos and all(k is not None for k, _ in b[1]):
                    return [(s, ("tuple", tuple(k for k, v in b[1])))]
                if name == "values" and not pos and all(k is not None for k, _ in b[1]):
                    return [(s, ("tuple", tuple(v for k, v in b[1])))]
            if name == "items" and not pos:
                return [(s, ("items", b))]
            if name == "keys" and not pos:
                return [(s, b)] if b[0] != "ref" else None
            if self.p.shapes and b[0] == "const" and b[1] == "str" and name in ("split", "rsplit", "splitlines", "partition", "rpartition", "find", "rfind", "index", "rindex", "count") \
                    and all(x[0] == "const" for x in pos) and all(isinstance(k, str) and x[0] == "const" for k, x in kw):
                try:
                    r = getattr(b[2], name)(*(x[2] for x in pos), **{k: x[2] for k, x in kw})
                except (TypeError, ValueError):
                    r = None
                if isinstance(r, int):
                    return [(s, const(r))]
                if isinstance(r, tuple):
                    return [(s, ("tuple", tuple(const(x) for x in r)))]
                if isinstance(r, list):
                    obj = self.fresh("list", node, ctx, s)
                    return [(s.setheap((obj, "#"), tuple(const(x) for x in r)), obj)]
            if self.p.shapes and b[0] == "const" and b[1] == "str" and not kw:
                if name == "replace" and len(pos) == 2 and pos[0][0] == "const" and pos[0][2] not in b[2]:
                    return [(s, b)]
                if name in ("replace", "startswith", "endswith", "strip", "lstrip", "rstrip", "upper", "lower", "isidentifier", "split") and all(x[0] == "const" for x in pos):
                    try:
                        r = getattr(b[2], name)(*(x[2] for x in pos))
                    except (TypeError, ValueError):
                        r = None
                    if isinstance(r, (str, bool)):
                        return [(s, const(r))]
            if b[0] == "const" and b[1] == "str" and name == "format":
                parts = format_parts(b[2], list(pos), dict(kw))
                return [(s, fstr(parts if parts is not None else [b] + list(pos) + [v for _, v in kw]))]
            if name == "join" and b[0] in ("const", "fstr") and len(pos) == 1:
                it = self.snap(s, pos[0])
                conc = self.concrete_items(pos[0], s)
                if conc is not None:
                    parts = []
                    for i, x in enumerate(conc):
                        if i:
                            parts.append(b)
                        parts.append(x)
                    return [(s, fstr(parts))]
                return [(s, ("join", b, it))]
        return None

    def container_method(self, b, name, pos, kw, s, ctx, node):
        items = s.heap.get((b, "#"))
        if items is None:
            return None
        if b[1] in ("list", "set"):
            if name in ("insert", "reverse", "sort", "clear"):
                s = self.rec(s, Ev("listop", b, name, pos[0] if pos else None, node, ctx.fi))
            if name in ("append", "add") and len(pos) == 1:
                return [(s.setheap((b, "#"), items + (pos[0],)), NONE)]
            if name in ("extend", "update") and len(pos) == 1:
                return [(s.setheap((b, "#"), items + self.as_items(pos[0], s)), NONE)]
            if name == "insert" and len(pos) == 2:
                if pos[0] == const(0):
                    return [(s.setheap((b, "#"), (pos[1],) + items), NONE)]
                return [(s.setheap((b, "#"), items + (pos[1],)), NONE)]
            if name == "copy" and not pos:
                obj = self.fresh(b[1], node, ctx, s)
                return [(s.setheap((obj, "#"), items), obj)]
            if name == "clear":
                return [(s.setheap((b, "#"), ()), NONE)]
            if name == "reverse":
                return [(s.setheap((b, "#"), tuple(reversed(items))), NONE)]
            if name == "pop":
                first = bool(pos) and pos[0] == const(0)
                last = not pos or pos[0] == const(-1)
                if items and (first or last) and items[0 if first else -1][0] not in ("rep", "star"):
                    if first:
                        return [(s.setheap((b, "#"), items[1:]), items[0])]
                    return [(s.setheap((b, "#"), items[:-1]), items[-1])]
        if b[1] == "dict":
            if name == "update":
                add = ()
                for x in pos:
                    if x[0] == "new" and x[1] == "dict" and (x, "#") in s.heap:
                        add += s.heap[(x, "#")]
                    else:
                        add += ((None, x),)
                add += tuple((const(k), v) for k, v in kw if k != "**") + tuple((None, v) for k, v in kw if k == "**")
                names = {k for k, _ in add if k is not None}
                return [(s.setheap((b, "#"), tuple(x for x in items if x[0] is None or x[0] not in names) + add), NONE)]
            if name == "items" and not pos:
                return [(s, ("items", b))]
            if name == "keys" and not pos:
                return [(s, b)]
            if name == "get" and pos:
                self.queried.add(b)
                for k, v in items:
                    if k == pos[0]:
                        return [(s, v)]
                if b in self.dirty:
                    return None
                if pos[0][0] == "const" and not any(k is None or k[0] != "const" for k, _ in items):
                    return [(s, pos[1] if len(pos) > 1 else NONE)]
            if name == "copy" and not pos:
                obj = self.fresh("dict", node, ctx, s)
                return [(s.setheap((obj, "#"), items), obj)]
            if name == "setdefault" and len(pos) == 2:
                self.queried.add(b)
                for k, v in items:
                    if k == pos[0]:
                        return [(s, v)]
                if b in self.dirty:
                    return None
                return [(s.setheap((b, "#"), items + ((pos[0], pos[1]),)), pos[1])]
        return None


def _rooted(t):
    while t[0] == "attr":
        t = t[1]
    return t[0] == "param"


def known_index(items, i):
    """Is position `i` of a partly known sequence certain?"""
    if not -len(items) <= i < len(items):
        return False
    part = items[:i + 1] if i >= 0 else items[i:]
    return not any(x[0] in ("rep", "star") for x in part)


class _FakeAttr:
    def __init__(self, attr, node):
        self.attr = attr
        self.lineno = getattr(node, "lineno", None)


def b_self(fi, fn):
    return None


_SCOPES = {}


def _modulescope(fi):
    """A pseudo function scope for evaluating defaults at module level."""
    m = fi.module
    if m.name not in _SCOPES or _SCOPES[m.name].module is not m:
        node = ast.parse("def _m(): pass").body[0]
        _SCOPES[m.name] = FuncInfo(m.name + ".<module>", "<module>", node, m, None, None)
    return _SCOPES[m.name]


_SIMPLE = {"builtins.str", "builtins.int", "builtins.list", "builtins.dict", "builtins.tuple", "builtins.bytes", "builtins.float",
           "builtins.set", "builtins.NoneType", "builtins.complex"}


def _pytype(d):
    if d.startswith("builtins."):
        if d == "builtins.NoneType":
            return type(None)
        return getattr(builtins, d[9:], None)
    if d.startswith("ast."):
        return getattr(ast, d[4:], None)
    return None


def _is_ast_class(d):
    return d.startswith("ast.") and isinstance(getattr(ast, d[4:], None), type) and issubclass(getattr(ast, d[4:]), ast.AST)


def _typecall(t):
    if t[0] == "call" and t[1] == ref("builtins.type") and len(t[2]) == 1:
        return t[2][0][1]
    if t[0] == "attr" and t[2] == "__class__":
        return t[1]
    return None


def _typeset(t, interp, s):
    t = interp.snap(s, t)
    if t[0] == "ref":
        return frozenset([t[1]])
    if t[0] in ("tuple", "list"):
        out = set()
        for x in t[1]:
            r = _typeset(x, interp, s)
            if r is None:
                return None
            out |= r
        return frozenset(out)
    return None


def format_parts(text, pos, kw):
    """"...{}...".format(...) as the parts of an f-string; None if it uses more than plain fields"""
    out, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(text):
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            if spec:
                return None
            if field == "":
                t, auto = pos[auto], auto + 1
            elif field.isdigit():
                t = pos[int(field)]
            elif field in kw:
                t = kw[field]
            else:
                return None
            out.append(("conv", conv, t) if conv else t)
    except (ValueError, IndexError):
        return None
    return out


def percent_parts(fmt, args):
    if fmt[0] != "const":
        return None
    out, i = [], 0
    for x in re.split(r"(%[sdr%])", fmt[2]):
        if x == "%%":
            out.append(const("%"))
        elif re.fullmatch(r"%[sdr]", x):
            if i >= len(args):
                return None
            out.append(("conv", "r", args[i]) if x == "%r" else args[i])
            i += 1
        elif "%" in x:
            return None
        elif x:
            out.append(const(x))
    return out if i == len(args) else None


def _istext(x):
    return x[0] == "fstr" or x[0] == "const" and x[1] == "str" or x[0] == "call" and x[1] == ("ref", "builtins.str") and len(x[2]) == 1


def _unstr(x):
    """str(y) within a text is y"""
    return x[2][0][1] if x[0] == "call" and x[1] == ("ref", "builtins.str") and len(x[2]) == 1 and x[2][0][0] == 0 else x


def fstr(parts):
    out = []
    for p in parts:
        sub = p[1] if p[0] == "fstr" else (p,)
        for x in sub:
            if x[0] == "const" and x[1] == "str" and out and out[-1][0] == "const" and out[-1][1] == "str":
                out[-1] = const(out[-1][2] + x[2])
            elif x[0] == "const" and x[1] == "str" and x[2] == "":
                continue
            else:
                out.append(x)
    if not out:
        return const("")
    if len(out) == 1 and out[0][0] == "const" and out[0][1] == "str":
        return out[0]
    return ("fstr", tuple(out))


def _assigned_names(stmts, aug=True):
    out = set()
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if not aug and isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
            todo.append(n.value)
            continue
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        todo.extend(ast.iter_child_nodes(n))
    return out


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    return t


_CLO = {}


def _has_closure(node):
    if node not in _CLO:
        _CLO[node] = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)) for n in ast.walk(node) if n is not node)
    return _CLO[node]


def _mentions(t, fid, depth=0):
    if t == fid:
        return True
    if isinstance(t, tuple) and depth < 12:
        return any(_mentions(x, fid, depth + 1) for x in t)
    return False


# ---------------------------------------------------------------------- helpers for rules
def subterms(t):
    """All subterms (tuples whose first item is a tag) of a term."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)
    elif isinstance(t, frozenset):
        for x in t:
            yield from subterms(x)


def contains(t, sub):
    return any(x == sub for x in subterms(t))


def callee(fn):
    """Dotted name of a function term: qualname for repo functions, '.name' for methods of unknown objects."""
    if fn[0] in ("ref", "closure"):
        return fn[1]
    if fn[0] == "bound":
        return fn[2]
    if fn[0] == "attr":
        return "." + fn[2]
    return ""


def is_call(t, *names):
    """Is term `t` a call to one of `names` (full dotted name, or suffix '.name')?"""
    if not (isinstance(t, tuple) and t and t[0] == "call"):
        return False
    return name_matches(callee(t[1]), *names)


def name_matches(c, *names):
    return any(c == n or c.endswith("." + n.lstrip(".")) for n in names)


def argof(t, *keys):
    """Argument of a call term/event by name or position."""
    args = t.b if isinstance(t, Ev) else t[2]
    for k in keys:
        for kk, v in args:
            if kk == k:
                return v
    return None


def calls(trace, *names):
    return [(i, e) for i, e in enumerate(trace) if e.kind == "call" and name_matches(callee(e.a), *names)]


def show(t, depth=0):
    """Readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 8:
        return "…"
    k = t[0]
    sh = lambda x: show(x, depth + 1)
    if k == "const":
        return repr(t[2])
    if k == "param":
        return t[1]
    if k == "free":
        return t[2]
    if k == "ref":
        return t[1].replace("builtins.", "")
    if k == "attr":
        return f"{sh(t[1])}.{t[2]}"
    if k == "bound":
        return f"{sh(t[1])}.{t[2].rsplit('.', 1)[-1]}"
    if k == "closure":
        return t[1].rsplit(".", 1)[-1]
    if k == "call":
        return f"{sh(t[1])}({', '.join((f'{a}=' if isinstance(a, str) else '') + sh(v) for a, v in t[2])})"
    if k == "sub":
        return f"{sh(t[1])}[{sh(t[2])}]"
    if k == "isnone":
        return f"{sh(t[1])} is None"
    if k in ("isinst", "typeis"):
        return f"{'isinstance' if k == 'isinst' else 'type-is'}({sh(t[1])}, {'|'.join(sorted(t[2]))})"
    if k == "cmp":
        return f"({sh(t[2])} {t[1]} {sh(t[3])})"
    if k in ("tuple", "list", "set"):
        return f"{k}[{', '.join(sh(x) for x in t[1])}]"
    if k == "dict":
        return "{" + ", ".join(f"{sh(a) if a else '**'}: {sh(b)}" for a, b in t[1]) + "}"
    if k == "rep":
        return f"{sh(t[2])} for each of {sh(t[1])}" + (f" if {', '.join(sh(c) for c in t[3])}" if t[3] else "")
    if k == "elem":
        return f"elem({sh(t[1])})"
    if k == "fstr":
        return "f\"" + "".join(x[2] if x[0] == "const" and isinstance(x[2], str) else "{" + sh(x) + "}" for x in t[1]) + "\""
    if k == "not":
        return f"not {sh(t[1])}"
    return "(" + " ".join(x if isinstance(x, str) else sh(x) if isinstance(x, tuple) else repr(x) for x in t) + ")"


def show_ev(e):
    k = e.kind
    if k == "call":
        return f"call {show(e.a)}({', '.join((f'{a}=' if isinstance(a, str) else '') + show(v) for a, v in e.b)})"
    if k in ("setattr",):
        return f"{show(e.a)}.{e.b if isinstance(e.b, str) else show(e.b)} := {show(e.c)}"
    if k == "setitem":
        return f"{show(e.a)}[{show(e.b)}] := {show(e.c)}"
    if k == "assume":
        return f"[{'' if e.b else 'not '}{show(e.a)}]"
    return f"{k} " + " ".join(show(x) if isinstance(x, tuple) else str(x) for x in (e.a, e.b, e.c) if x is not None)
