"""The quasiquote compiler, its inverse and its runtime agree.

Rule: for every kind of node of the grammar (optional parts absent and present, lists empty and of two), every kind of constant
and container, every quasiquote marker and `Done`, the quote compiler is interpreted abstractly on it and the term of the code
it emits is fed to the abstract interpretation of the inverse: the composition must be the identity up to the recursive calls.
Every call in the emitted code must name a function or class of the run-time module and bind its signature, marker fields going
to the parameters that bear their name; the detectors, applied to the emitted captures, must give exactly the emitted keys. The
emitted run-time helpers build what their marker stands for.
"""
import ast

from lib.asdl import fields, members
from lib.interp import NONE, TRUE, argof, attr, callee, calls, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import any_call_raises, args_of, at, call_events, norm_ctor, raises, returns, strip_list, where_of
from lib.render import N, Renderer

P = lambda n: ("param", n)
Q = "mcpyrate.quotes."
CONSTS = ("int", "float", "complex", "str", "bytes", "bool", "NoneType", "ellipsis")
MARKERS = {"Unquote": ("body",), "LiftSourcecode": ("body", "filename"), "ASTLiteral": ("body", "syntax"), "ASTList": ("body",),
           "ASTTuple": ("body",), "Capture": ("body", "name")}
RET = {"mcpyrate.utils.gensym": "builtins.str", "mcpyrate.utils.scrub_uuid": "builtins.str"}
PRODUCTS = ("arguments", "arg", "keyword", "alias", "withitem", "match_case", "comprehension")


def dotted(t):
    k = norm_ctor(t)
    if k is None:
        return None
    if k[0] == "Attribute":
        b, a = k[1].get("value"), k[1].get("attr")
        d = dotted(b) if b else None
        return f"{d}.{a[2]}" if d and a and a[0] == "const" else None
    if k[0] == "Name":
        a = k[1].get("id")
        return a[2] if a and a[0] == "const" else None
    return None


def import_path(t):
    """`__import__('a.b', ...).b.c` -> the object path it denotes"""
    k = norm_ctor(t)
    if k is None:
        return None
    if k[0] == "Attribute":
        b = import_path(k[1].get("value")) if k[1].get("value") else None
        a = k[1].get("attr")
        return f"{b}.{a[2]}" if b and a and a[0] == "const" else None
    if k[0] == "Call":
        f = norm_ctor(k[1].get("func")) if k[1].get("func") else None
        if f and f[0] == "Name" and f[1].get("id") == const("__import__"):
            return "*import*"
    return None


class Env:
    def __init__(self, c):
        self.c, self.ix = c, c.ix
        self.fa = c.ix.func(Q + "astify")
        self.fu = c.ix.func(Q + "unastify")
        self.X = P(self.fa.params()[0])
        self.T = P(self.fu.params()[0])
        self.kw = dict(shapes=True, models={"mcpyrate.unparser.unparse": self.m_unparse},
                       node_fields={"mcpyrate.core.Done": ["body"]}, max_depth=25, rettypes=RET, max_paths=4000)

    @staticmethod
    def m_unparse(pos, kw, s):
        d = dotted(pos[0]) if pos else dotted(kw["tree"]) if isinstance(kw, dict) and "tree" in kw else None
        return const(d) if d else None

    def is_compiler(self, fi):
        return fi.qualname == self.fa.qualname or fi.qualname.startswith(self.fa.qualname + ".")

    def when_a(self, fi, bound, s):
        if self.is_compiler(fi):
            ps = fi.params()
            x = bound.get(ps[0]) if ps else None
            if x is None:
                return None
            return x == self.X or x[0] in ("const", "new")
        if fi.name == "capture_macro" or fi.name.startswith("_") and fi.cls is None and fi.module.name in ("mcpyrate.quotes", "mcpyrate.coreutils"):
            return True
        return None

    def when_u(self, fi, bound, s):
        if fi.qualname == self.fu.qualname or fi.qualname.startswith(self.fu.qualname + "."):
            ps = fi.params()
            x = bound.get(ps[0]) if ps else None
            if fi.qualname != self.fu.qualname and fi.name.startswith("lookup"):
                return None
            if x is None:
                return None
            return x[0] in ("list", "new", "tuple") or norm_ctor(x) is not None
        return None

    def emit(self, facts, heap):
        # quoting a tree always happens with an expander
        return self.c.paths(self.fa, facts=facts, heap=heap, inline_when=self.when_a, **self.kw)

    def back(self, o, facts):
        return self.c.paths(self.fu, bind={self.fu.params()[0]: o.value}, facts=facts, heap=o.state.heap, inline_when=self.when_u, **self.kw)

    def rec(self, t):
        """argument of a recursive compiler call"""
        if t[0] == "call":
            d = callee(t[1])
            fi = self.ix.funcs.get(d) if isinstance(d, str) else None
            if d and (d == self.fa.qualname or str(d).startswith(self.fa.qualname + ".")) or (d and str(d).split(".")[-1] == "recurse"):
                return t[2][0][1] if t[2] else None
        return None

    def un(self, t):
        if t[0] == "call" and name_matches(callee(t[1]), "unastify") and t[2]:
            return t[2][0][1]
        return None

    def items(self, t, heap):
        if t[0] == "new":
            return heap.get((t, "#"))
        if t[0] in ("list", "tuple"):
            return t[1]
        return None

    def same(self, got, want, gheap, wheap):
        """Is the composed value the original? True/False/None"""
        if got == want:
            return True
        u = self.un(got)
        if u is not None:
            r = self.rec(u)
            if r is None:
                return False if u == want and want[0] == "attr" else None
            return r == want if not (r[0] == "new" or want[0] == "new") else None
        if want[0] == "new" and want[1] == "list":
            gi, wi = self.items(got, gheap), self.items(want, wheap)
            if got[0] == "tuple":
                return False
            if gi is None or wi is None:
                return None
            if len(gi) != len(wi) and not any(x[0] in ("rep", "star") for x in gi):
                return False
            rs = [self.same(a, b, gheap, wheap) for a, b in zip(gi, wi)]
            return False if False in rs else None if None in rs else True
        if got[0] == "const" or self.rec(got) is not None or norm_ctor(got) is not None:
            return False
        return None


def check(c):
    E = Env(c)
    R = Renderer(c)
    w0 = c.where(E.fa)
    # -- nodes
    kinds = sorted({k for s in members() for k in members()[s]} | set(PRODUCTS))
    n = 0
    for kind in kinds:
        if kind not in fields() or kind in ("FunctionType", "Interactive", "TypeIgnore"):
            continue
        for full in (True, False):
            shape = {}
            for f, t, q in fields()[kind]:
                shape[f] = ([True, True] if full else []) if q == "*" else (True if full or q != "?" else None)
            with c.section(f"C15:{kind}", w0):
                st = {"facts": {}, "heap": {}, "names": {}, "typed": {}}
                R.node(E.X, N(kind, **shape), "", st)
                n += 1
                node(c, E, kind, shape, st)
    # dict unpacking: None among the keys
    with c.section("C15:Dict", w0):
        st = {"facts": {}, "heap": {}, "names": {}, "typed": {}}
        R.node(E.X, N("Dict", keys=[True, None], values=[True, True]), "", st)
        node(c, E, "Dict", {"keys": [True, None], "values": [True, True]}, st)
    # -- constants and containers
    for ty in CONSTS:
        with c.section(f"C15:const:{ty}", w0):
            facts = {("typeis", E.X, frozenset(["builtins." + ty])): True}
            for o in E.emit(facts, {}):
                w = at(c, E.fa, o)
                if o.kind != "return":
                    c.bad(f"C15:const:{ty}", w, f"a constant of type {ty} cannot be quoted")
                    continue
                k = norm_ctor(o.value)
                c.require(f"C15:const:{ty}", None if k is None else k[0] == "Constant" and k[1].get("value") == E.X, w, f"quoted as {show(o.value)[:80]}")
                for o2 in E.back(o, facts):
                    c.require(f"C15:const:{ty}:inverse", o2.kind == "return" and o2.value == E.X, at(c, E.fu, o2), f"becomes {show(o2.value)[:80]}")
    for ty, cls in (("list", "List"), ("tuple", "Tuple"), ("set", "Set"), ("dict", "Dict")):
        with c.section(f"C15:{ty}", w0):
            container(c, E, ty, cls)
    # -- markers
    for m, fs in MARKERS.items():
        with c.section(f"C15:{m}", w0):
            marker(c, E, m, fs)
    with c.section("C15:Done", w0):
        facts = {("typeis", E.X, frozenset(["mcpyrate.core.Done"])): True}
        for o in E.emit(facts, {}):
            if o.kind != "return":
                c.bad("C15:Done", at(c, E.fa, o), "a Done marker cannot be quoted")
                continue
            signature(c, E, "C15:Done", o)
            for o2 in E.back(o, facts):
                v = o2.value
                ok = o2.kind == "return" and is_call(v, "mcpyrate.core.Done") and len(v[2]) == 1
                c.require("C15:Done:inverse", (E.same(v[2][0][1], attr(E.X, "body"), o2.state.heap, {}) if ok else False), at(c, E.fu, o2), f"becomes {show(v)[:80]}")
    # -- emitted by an operator => quotable
    with c.section("C15:operators"):
        operators(c, E)
    helpers(c, E)
    detectors(c, E)
    c.stats["node_shapes"] = n
    c.floor(100)


def unfolded(o):
    return any(e.kind == "call" and name_matches(callee(e.a), "mcpyrate.unparser.unparse") for e in o.state.trace)


def exists(ix, d):
    full = ix.canonical(d)
    return full if full.startswith("ast.") or ix.exists(d) else None


def node(c, E, kind, shape, st):
    key = f"C15:{kind}"
    for o in E.emit(st["facts"], st["heap"]):
        w = at(c, E.fa, o)
        if o.kind != "return":
            c.bad(key, w, f"a {kind} node cannot be quoted: {show(o.value)[:80]}")
            continue
        signature(c, E, key, o)
        for o2 in E.back(o, st["facts"]):
            w2 = at(c, E.fu, o2)
            if o2.kind != "return":
                c.require(key, False if is_call(o2.value, "builtins.TypeError", "builtins.NotImplementedError") and not unfolded(o2) else None, w2, f"the quoted {kind} is not recognised by the inverse: {show(o2.value)[:80]}")
                continue
            k = norm_ctor(o2.value)
            if k is None:
                c.unknown(key, w2, show(o2.value)[:80])
                continue
            if k[0] != kind:
                c.bad(key, w2, f"a {kind} becomes a {k[0]}")
                continue
            for f, t, q in fields()[kind]:
                x = attr(E.X, f)
                want = st["heap"].get((E.X, f), x)
                if f not in k[1]:
                    (c.unknown if None in k[1] else c.bad)(key, w2, f"field {f} of {kind} is lost")
                    continue
                if shape.get(f) is None and q == "?":
                    want = ("none",) if False else const(None)
                c.require(key, E.same(k[1][f], want, o2.state.heap, st["heap"]), w2, f"field {f} of {kind} becomes {show(k[1][f])[:80]}")


def container(c, E, ty, cls):
    X = E.X
    facts = {("typeis", X, frozenset(["builtins." + ty])): True}
    for o in E.emit(facts, {}):
        w = at(c, E.fa, o)
        k = norm_ctor(o.value) if o.kind == "return" else None
        if k is None:
            (c.bad if o.kind == "raise" else c.unknown)(f"C15:{ty}", w, f"a {ty} cannot be quoted")
            continue
        if k[0] != cls:
            c.bad(f"C15:{ty}", w, f"a {ty} is quoted as {k[0]}")
            continue

        if cls == "Dict":
            kk, vv = k[1].get("keys"), k[1].get("values")
            c.require("C15:dict:keys", match_each(E, kk, o, lambda b: b == X or is_call(b, "keys")), w, "the keys are quoted in order")
            c.require("C15:dict:values", match_each(E, vv, o, lambda b: is_call(b, "values") or b[0] == "items"), w, "the values are quoted in order")
        else:
            c.require(f"C15:{ty}:items", match_each(E, k[1].get("elts"), o, lambda b: b == X), w, "every item is quoted, in order")
    # the inverse, on two items
    K1, K2, V1, V2 = P("k1"), P("k2"), P("v1"), P("v2")
    lst = lambda *xs: ("list", xs)
    src = ("call", ref("ast." + cls), (("keys", lst(K1, K2)), ("values", lst(V1, V2))) if cls == "Dict" else (("elts", lst(K1, K2)),))
    for o2 in c.paths(E.fu, bind={E.fu.params()[0]: src}, inline_when=E.when_u, **E.kw):
        v, w = o2.value, at(c, E.fu, o2)
        v = deref(v, o2.state.heap) if v[0] == "new" and v[1] in ("list", "tuple") else v
        if o2.kind != "return":
            c.bad(f"C15:{ty}:inverse", w, f"a quoted {ty} is not recognised")
        elif v[0] not in ("new", "list", "tuple", "dict", "set"):
            c.unknown(f"C15:{ty}:inverse", w, show(v)[:80])
        elif (v[1] if v[0] == "new" else v[0]) != ty:
            c.bad(f"C15:{ty}:inverse", w, f"a quoted {ty} becomes {show(v)[:60]}")
        else:
            items = o2.state.heap.get((v, "#")) if v[0] == "new" else v[1]
            un = lambda x: E.un(x) if isinstance(x, tuple) else None
            got = None if items is None else [(un(k), un(x)) for k, x in items] if ty == "dict" else [un(x) for x in items]
            want = [(K1, V1), (K2, V2)] if ty == "dict" else [K1, K2]
            c.require(f"C15:{ty}:inverse", None if got is None else got == want, w, f"a quoted {ty} becomes {show(v)[:80]}")


def match_each(E, t, o, base):
    it = E.items(t, o.state.heap) if t is not None else None
    if not it or len(it) != 1 or it[0][0] != "rep":
        return None
    _, src, elt, conds = it[0]
    if conds:
        return False
    src = strip_list(src)
    if src[0] in ("reversed",) or is_call(src, "sorted", "reversed"):
        return False
    r = E.rec(elt)
    if r is None:
        return None
    if r[0] == "val":
        return base(("items", r[1]))
    if r[0] in ("elem", "key"):
        return True if base(strip_list(r[1])) else False
    return None


def emitted_calls(t, heap):
    """Call constructor terms inside an emitted term (through containers of the heap)"""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        k = norm_ctor(x)
        if k and k[0] == "Call":
            yield x, k[1]
        if x and x[0] == "new":
            work.extend(y for it in heap.get((x, "#"), ()) for y in (it if isinstance(it, tuple) and it and isinstance(it[0], tuple) else (it,)))
        else:
            work.extend(y for y in x if isinstance(y, tuple))


def signature(c, E, key, o):
    """the calls in the emitted code refer to existing functions with fitting arguments"""
    ix = E.ix
    for t, k in emitted_calls(o.value, o.state.heap):
        f = k.get("func")
        d = dotted(f) if f is not None else None
        if d is None and f is not None and norm_ctor(f) and norm_ctor(f)[0] == "Attribute":
            ip = import_path(f)
            if ip and ip.startswith("*import*.quotes."):
                d = "mcpyrate.quotes." + ip.split(".", 2)[2]
        if d is None and f is not None and norm_ctor(f) and norm_ctor(f)[0] == "Attribute":
            a = norm_ctor(f)[1].get("attr")
            if a is not None and any(is_call(x, "lower", "upper", "title", "capitalize", "swapcase", "strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix") for x in subterms(a) if isinstance(x, tuple) and x and x[0] == "call"):
                c.bad(key + ":callee", at(c, E.fa, o), f"the emitted code constructs {show(a)[:60]}, which is not the class of the node")
        if d is None or not d.startswith("mcpyrate."):
            if d is not None and d not in ("__import__", "globals"):
                c.unknown(key + ":callee", at(c, E.fa, o), f"emitted call of {d}")
            continue
        w = at(c, E.fa, o)
        full = exists(ix, d)
        if full is None:
            c.bad(key + ":callee", w, f"the emitted code calls {d}, which does not exist")
            continue
        pos = E.items(k.get("args", ("tuple", ())), o.state.heap)
        kws = E.items(k.get("keywords", ("tuple", ())), o.state.heap)
        if pos is None or kws is None or any(x[0] in ("rep", "star") for x in pos + kws):
            c.unknown(key + ":args", w, f"arguments of {d}")
            continue
        names = []
        for x in kws:
            kk = norm_ctor(x)
            names.append(kk[1].get("arg")[2] if kk and kk[1].get("arg") and kk[1]["arg"][0] == "const" else None)
        if full.startswith("ast."):
            cls = getattr(ast, full[4:], None)
            if not isinstance(cls, type):
                c.bad(key + ":callee", w, f"the emitted code constructs {full}, which does not exist")
            else:
                c.require(key + ":args", len(pos) <= len(cls._fields) and all(a is None or a in cls._fields + cls._attributes for a in names), w, f"arguments of {full}")
            continue
        fi = ix.funcs.get(full) or (ix.find_method(full, "__init__") if full in ix.classes else None)
        if fi is None:
            (c.unknown if full in ix.classes else c.bad)(key + ":callee", w, f"the emitted code calls {d}")
            continue
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if full in ix.classes:
            ps = ps[1:]
        need = ps[:len(ps) - len(a.defaults)]
        bound = ps[:len(pos)] + names
        c.require(key + ":args", (len(pos) <= len(ps) or a.vararg is not None) and all(p in bound for p in need) and all(n_ is None or n_ in ps or a.kwarg for n_ in names), w,
                  f"{d} takes ({', '.join(ps)}), the emitted call gives {len(pos)} positional and {names}")
        # marker fields go where their names say
        for p, x in list(zip(ps, pos)) + [(n_, norm_ctor(y)[1].get("value")) for n_, y in zip(names, kws) if n_]:
            kx = norm_ctor(x) if x is not None else None
            if kx and kx[0] == "Constant":
                src = kx[1].get("value")
                if src and src[0] == "attr" and src[1] == E.X:
                    F = src[2]
                    c.require(key + ":order", True if p == F else False if F in ps else None, w, f"the field {F} of the marker is passed as parameter {p} of {d}")


def marker(c, E, m, fs):
    ix, X = E.ix, E.X
    key = f"C15:{m}"
    facts0 = {("typeis", X, frozenset([Q + m])): True}
    for o in E.emit(facts0, {}):
        w = at(c, E.fa, o)
        facts = {**facts0}
        macro = any(contains(x, ("attr", attr(X, "body"), "id")) and is_call(x, "dumps") for x in subterms(deref(o.value, o.state.heap)))
        if o.kind != "return":
            # only a bound non-callable may be refused
            noncall = any(e.kind == "assume" and is_call(e.a, "builtins.callable") and e.b is False for e in o.state.trace)
            c.require(key, noncall, w, f"a {m} marker cannot be quoted: {show(o.value)[:80]}")
            continue
        k = norm_ctor(o.value)
        if k is None or k[0] != "Call":
            c.require(key, None if k is None else False, w, f"a {m} marker compiles to {show(o.value)[:60]}")
            continue
        signature(c, E, key, o)
        for o2 in E.back(o, {**facts, **o.state.facts}):
            w2 = at(c, E.fu, o2)
            v = o2.value
            if unfolded(o2):
                c.unknown(key + ":inverse", w2, "the called function is not recognised")
                continue
            if o2.kind != "return" or not is_call(v, Q + m):
                c.require(key + ":inverse", None if o2.kind == "return" and v[0] not in ("call", "const") else False, w2, f"the code for a {m} marker is turned back into {show(v)[:80]}")
                continue
            init = ix.find_method(Q + m, "__init__")
            ps = init.params()[1:] if init is not None else ["body"]
            got = {ps[a] if isinstance(a, int) and a < len(ps) else a: x for a, x in v[2]}
            if macro:
                b = got.get("body")
                kb = norm_ctor(b) if b is not None else None
                idt = kb[1].get("id") if kb and kb[0] == "Name" else None
                key3 = [norm_ctor(x)[1]["value"] for x in macro_key(E, o) or ()]
                if is_call(b, "lookup_macro"):
                    kt = argof(b, "key", 0)
                    c.require(key + ":inverse", (tuple(kt[1]) == tuple(key3)) if kt is not None and kt[0] == "tuple" and key3 else None, w2, f"the macro is looked up with {show(kt)[:80]}")
                else:
                    c.require(key + ":inverse", (idt == key3[1]) if idt is not None and key3 else None, w2, f"the macro is referred to as {show(b)[:80]}")
                c.require(key + ":inverse", got.get("name") == key3[0] if key3 else None, w2, f"the name of the captured macro becomes {show(got.get('name'))[:60]}")
            else:
                for f in fs:
                    c.require(key + ":inverse", got.get(f) == attr(X, f), w2, f"{f} of {m} becomes {show(got.get(f))[:60] if got.get(f) else 'nothing'}")


def deref(t, heap, depth=0):
    if not isinstance(t, tuple) or depth > 30:
        return t
    if t and t[0] == "new" and (t, "#") in heap:
        return ("list", tuple(deref(x, heap, depth + 1) for x in heap[(t, "#")]))
    return tuple(deref(x, heap, depth + 1) for x in t)


def macro_key(E, o):
    k = norm_ctor(o.value)
    a = E.items(k[1].get("args"), o.state.heap)
    if a and len(a) == 1:
        kt = norm_ctor(a[0])
        if kt and kt[0] == "Tuple":
            return E.items(kt[1].get("elts"), o.state.heap)
    return None


def operators(c, E):
    """every marker class an operator constructs is known to the compiler"""
    ix = E.ix
    found = set()
    for op in "unasth":
        fi = ix.func(Q + op)
        c.analysed.add(fi.qualname)
        stack, seen = [fi], set()
        while stack:
            f = stack.pop()
            if f.qualname in seen:
                continue
            seen.add(f.qualname)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                    r = exists(ix, Q + x.func.id)
                    if r in ix.classes and ix.is_subclass(r, Q + "QuasiquoteMarker"):
                        found.add((op, r, where(f, x)))
                    elif r in ix.funcs and r not in c.baseline:
                        stack.append(ix.funcs[r])
    for op, r, w in sorted(found):
        if r.endswith(".QuasiquoteSearchDone"):
            continue
        facts = {("typeis", E.X, frozenset([r])): True}
        for o in E.emit(facts, {}):
            bad = o.kind == "raise" and not any(e.kind == "assume" and is_call(e.a, "builtins.callable") and e.b is False for e in o.state.trace)
            c.require(f"C15:operators:{op}", not bad, w, f"the operator {op} produces {r}, which the quote compiler refuses")


def where(f, n):
    return f"{f.file}:{n.lineno}"


def helpers(c, E):
    ix = E.ix
    with c.section("C15:lift_sourcecode"):
        fi = ix.func(Q + "lift_sourcecode")
        for o in returns(c.paths(fi)):
            v, w = o.value, at(c, fi, o)
            inner = v[1] if v[0] == "attr" and v[2] == "body" else None
            ok = inner is not None and is_call(inner, "ast.parse", "compile")
            if ok and is_call(inner, "ast.parse"):
                ok = argof(inner, "source", 0) == P(fi.params()[0]) and argof(inner, "mode", 2) == const("eval")
                c.require("C15:lift_sourcecode", ok, w, f"the lifted expression is {show(v)[:100]}")
            else:
                c.require("C15:lift_sourcecode", False if is_call(v, "ast.parse") else None, w, f"the lifted expression is {show(v)[:80]}")
    for name, cls in (("ast_list", "List"), ("ast_tuple", "Tuple")):
        with c.section(f"C15:{name}"):
            fi = ix.func(Q + name)
            for o in returns(c.paths(fi)):
                k, w = norm_ctor(o.value), at(c, fi, o)
                c.require(f"C15:{name}", None if k is None else k[0] == cls and "elts" in k[1], w, f"builds {show(o.value)[:80]}")
                if k and "elts" in k[1]:
                    e = k[1]["elts"]
                    c.require(f"C15:{name}:items", contains(e, P(fi.params()[0])) or (None if e[0] == "new" else False), w, f"with {show(e)[:80]}")
    with c.section("C15:ast_literal"):
        fi = ix.func(Q + "ast_literal")
        T, S = fi.params()[:2]
        for mode in ("expr", "block"):
            outs = c.paths(fi, bind={S: const(mode)})
            c.require("C15:ast_literal:mode", bool(returns(outs)), c.where(fi), f"mode {mode}, which the quote compiler emits, is refused")
            for isast in (True, False):
                for o in returns(c.paths(fi, bind={S: const(mode)}, facts={("isinst", P(T), frozenset(["ast.AST"])): isast})):
                    v, w = o.value, at(c, fi, o)
                    if mode == "expr" and isast:
                        c.require("C15:ast_literal", v == P(T) or None if v[0] not in ("const",) and not is_call(v, "SpliceNodes") else v == P(T), w, f"a node is interpolated as {show(v)[:60]}")
                    else:
                        c.require("C15:ast_literal", is_call(v, "SpliceNodes") and contains(v, P(T)) or (False if v == P(T) or v[0] in ("const", "list", "new") else None), w, f"nodes of mode {mode} are interpolated as {show(v)[:60]}")
    with c.section("C15:splice"):
        splice(c, E)
    with c.section("C15:typecheck"):
        typecheck(c, ix)
    with c.section("C15:q:marks"):
        kept(c, E)
    with c.section("C15:q"):
        quote(c, E)


def splice(c, E):
    """list-valued literals are spliced at any depth"""
    ix = E.ix
    fi = ix.func(Q + "splice_ast_literals")
    inner = [f for f in ix.funcs.values() if f.parent is not None and f.parent.qualname == fi.qualname]
    rets = returns(c.paths(fi, opaque=[f.name for f in inner]))
    for o in rets:
        w = at(c, fi, o)
        c.require("C15:splice:returns", o.value == P(fi.params()[0]) or (None if o.value[0] in ("call", "attr") else False), w, f"returns {show(o.value)[:60]}")
        c.require("C15:splice:checked", bool(call_events(o.state.trace, "check_no_markers_remaining")) or None, w, "misplaced literals are reported")
    walkers = [f for f in inner if any(e for o in rets for _, e in call_events(o.state.trace, f.name))]
    if len(walkers) != 1:
        c.unknown("C15:splice:walk", c.where(fi), "the recursion is not a local function")
        return
    fd = walkers[0]
    X = P(fd.params()[0])
    isrec = lambda e: name_matches(callee(e.a), fd.name)
    # a list
    outs = c.paths(fd, opaque=[fd.name], facts={("isinst", X, frozenset(["builtins.list"])): True})
    looping = any(e.kind == "loop" for o in outs for e in o.state.trace)
    for o in outs:
        w = at(c, fd, o)
        tr = o.state.trace
        if o.kind != "return":
            c.bad("C15:splice:list", w, "a list raises")
            continue
        loops = [e for e in tr if e.kind == "loop"]
        sets = [e for e in tr if e.kind == "setitem" and e.a == X]
        if loops and not any(e.kind in ("setitem", "delitem", "augassign") and e.a == X or e.kind == "call" and e.a[0] in ("attr", "bound") and e.a[1] == X for e in tr) and o.value == NONE:
            ms = [e for e in tr if e.kind == "assume" and e.a[0] in ("isinst", "typeis") and any("SpliceNodes" in x for x in e.a[2]) and e.b]
            c.require("C15:splice:replace", False if ms else None, w, "the list itself is not changed")
        if not loops:
            if looping:
                continue
            c.bad("C15:splice:list", w, "the items of a list are not visited") if not call_events(tr) else c.unknown("C15:splice:list", w, "no loop")
            continue
        ms = [e for e in tr if e.kind == "assume" and e.a[0] in ("isinst", "typeis") and any("SpliceNodes" in x for x in e.a[2])]
        for e in ms:
            elem = e.a[1]
            rec = [x for x in tr if x.kind == "call" and isrec(x)]
            c.require("C15:splice:descend", any(contains(x.b, elem) for x in rec), w, "contents are not searched for further literals")
            new = sets[-1].c if sets else None
            if new is None or new[0] != "list":
                c.unknown("C15:splice:replace", w, "how the list is replaced is not recognised") if new is not None or not sets else None
                continue
            flat = list(new[1])
            body = attr(elem, "body")
            # rep(it, item, conds) or star
            if e.b:
                spliced = any(contains(x, body) and (x[0] == "star" or x[0] == "rep" and any(y[0] in ("star", "rep") and contains(y, body) for y in subterms(x[2]) if isinstance(y, tuple) and y)) for x in flat)
                c.require("C15:splice:replace", True if spliced else (False if any(x[0] == "rep" and x[2] in (elem, body) for x in flat) else None), w, f"the list becomes {show(new)[:100]}")
            else:
                c.require("C15:splice:keep", True if any(contains(x, elem) for x in flat) else False, w, f"the list becomes {show(new)[:100]}")
    # a node
    outs = c.paths(fd, opaque=[fd.name], facts={("isinst", X, frozenset(["builtins.list"])): False, ("isinst", X, frozenset(["ast.Global", "ast.Nonlocal"])): False,
                                                ("isinst", X, frozenset(["ast.AST"])): True})
    got = False
    for o in outs:
        w = at(c, fd, o)
        tr = o.state.trace
        neg = [e for e in tr if e.kind == "assume" and e.a[0] in ("isinst", "typeis") and e.a[1] != X and not e.b]
        got = got or any(x.kind == "call" and isrec(x) and x.b for x in tr)
        for e in neg:
            # what is skipped must be neither a list nor a node
            c.require("C15:splice:fields", {"builtins.list", "ast.AST"} <= {s for n in neg if n.a[1] == e.a[1] for s in n.a[2]} or
                      any(n.kind == "assume" and n.a[0] in ("isinst", "typeis") and n.a[1] == e.a[1] and n.b for n in tr), w, "a field that may hold statements or expressions is not searched")
    c.require("C15:splice:fields", got, c.where(fd), "the fields of a node are not searched for literals")
    # only what can hold no nodes is left out
    leaf = {"ast.Global", "ast.Nonlocal", "ast.Constant", "ast.Num", "ast.Str", "ast.Bytes", "ast.NameConstant", "ast.Ellipsis", "ast.Pass", "ast.Break", "ast.Continue", "ast.alias", "ast.Import", "ast.ImportFrom", "ast.Load", "ast.Store", "ast.Del", "ast.expr_context", "ast.operator", "ast.cmpop", "ast.boolop", "ast.unaryop", "ast.Name"}
    for o in c.paths(fd, opaque=[fd.name]):
        tr = o.state.trace
        if o.kind != "return" or any(e.kind == "call" for e in tr):
            continue
        for e in tr:
            if e.kind == "assume" and e.b and e.a[0] in ("isinst", "typeis") and e.a[1] == X:
                more = {x for x in e.a[2] if x.startswith("ast.") and x != "ast.AST"} - leaf
                c.require("C15:splice:kinds", not more, at(c, fd, o), f"literals inside of {', '.join(sorted(more))} are not spliced")


def typecheck(c, ix):
    """every node in a marker is checked"""
    fi = ix.func(Q + "_typecheck")
    N = P(fi.params()[0])
    body = attr(N, "body")
    n = 0
    for o in c.paths(fi, opaque=[fi.name]):
        for e in o.state.trace:
            if e.kind == "loop" and contains(e.a, body):
                n += 1
                c.require("C15:typecheck:all", True if e.a == body else False if e.a[0] == "sub" and e.a[2][0] == "slice" and (e.a[2][1] not in (const(0), NONE) or e.a[2][2] != NONE) else None, where_of(e, at(c, fi, o)), f"only {show(e.a)[:60]} is checked")
    c.require("C15:typecheck:some", n > 0 or None, c.where(fi), "")


def kept(c, E):
    """the marks that are taken out before quoting are those of the search for quotes alone"""
    ix = E.ix
    fi = ix.func(Q + "q")
    for syn in ("expr", "block"):
        for o in c.paths(fi, bind={"syntax": const(syn)}, opaque=["astify", "delete_markers"]):
            for _, e in call_events(o.state.trace, "delete_markers"):
                cl = argof(e, "cls", 1)
                name = cl[1].split(".")[-1] if cl and cl[0] == "ref" else None
                c.require("C15:q:marks", True if name == "QuasiquoteSearchDone" else None if cl is not None and name is None else False, where_of(e, at(c, fi, o)), f"markers of the kind {name or 'ASTMarker'} are taken out of the quoted code")


def quote(c, E):
    """q emits splice_ast_literals(tree, filename), which the inverse drops"""
    ix = E.ix
    fi = ix.func(Q + "q")
    n = 0
    for syn in ("expr", "block"):
        for o in returns(c.paths(fi, bind={"syntax": const(syn)}, inline_when=E.when_a, shapes=True, max_depth=12, opaque=["astify", "recurse"])):
            w = at(c, fi, o)
            v = deref(o.value, o.state.heap)
            calls_ = [(t, k) for t, k in emitted_calls(o.value, o.state.heap) if dotted(k.get("func", const(None))) and dotted(k["func"]).endswith(".splice_ast_literals")]
            asty = [e.c for _, e in call_events(o.state.trace, "astify")]
            if not asty:
                continue
            if not calls_:
                c.require("C15:q:splice", None if v[0] in ("call",) and norm_ctor(v) is None else False, w, "the quoted tree is not passed through the splicer of list-valued literals")
                continue
            for t, k in calls_:
                n += 1
                o3 = type("O", (), {"value": t, "state": o.state, "kind": "return"})
                signature(c, E, "C15:q", o3)
                pos = E.items(k["args"], o.state.heap)
                c.require("C15:q:tree", pos and any(contains(pos[0], a) or contains(deref(pos[0], o.state.heap), a) for a in asty), w, "the first argument is not the quoted tree")
                kf = norm_ctor(pos[1]) if pos and len(pos) > 1 else None
                c.require("C15:q:filename", None if kf is None else kf[0] == "Constant" and kf[1].get("value", ())[:1] == ("attr",) and kf[1]["value"][2] == "filename", w, f"the second argument is {show(pos[1])[:60] if pos and len(pos) > 1 else 'missing'}")
                for o2 in c.paths(E.fu, bind={E.fu.params()[0]: t}, heap=o.state.heap, inline_when=lambda f, b, s: None, **E.kw):
                    u = E.un(o2.value) if o2.kind == "return" else None
                    if unfolded(o2):
                        c.unknown("C15:q:inverse", at(c, E.fu, o2), "the called function is not recognised")
                        continue
                    c.require("C15:q:inverse", u == pos[0] if u is not None else (False if o2.value == pos[0] and pos[0][0] not in ("list", "tuple", "new") or o2.kind == "raise" or is_call(o2.value, "Unquote") else None), at(c, E.fu, o2), f"the quote is turned back into {show(o2.value)[:80]}")


def detectors(c, E):
    ix, X = E.ix, E.X

    def run(det, o, facts):
        fd = ix.func(Q + det)
        return fd, c.paths(fd, bind={fd.params()[0]: o.value}, facts=facts, heap=o.state.heap, inline_when=lambda f, b, s: True if f.name in ("_is_mcpyrate_quotes_reference",) else None, **E.kw)

    def expect(key, det, o, facts, want):
        fd, outs = run(det, o, facts)
        for o2 in outs:
            w = at(c, fd, o2)
            v = o2.value
            if o2.kind != "return":
                c.require(key, None if is_call(v, "builtins.AssertionError") and undecided_type(o2) else False, w, f"{det} fails on code that the quote system emits: {show(v)[:60]}")
            elif want is None:
                c.require(key, v == const(False), w, f"{det} takes the code for {show(v)[:60]}")
            else:
                c.require(key, v[1] == tuple(want) if v[0] == "tuple" else (False if v == const(False) or v == const(None) else None), w, f"{det} gives {show(v)[:80]}, expected ({', '.join(show(x)[:30] for x in want)})")

    def undecided_type(o):
        return any(e.kind == "assume" and e.a[0] in ("isinst", "typeis") for e in o.state.trace)

    def key_of(o, n):
        ks = macro_key(E, o)
        if ks is None or len(ks) != n:
            return None
        out = [norm_ctor(x) for x in ks]
        return [k[1]["value"] for k in out] if all(k and k[0] == "Constant" and "value" in k[1] for k in out) else None

    # captured at run time
    with c.section("C15:capture_value"):
        fi = ix.func(Q + "capture_value")
        NAME = P(fi.params()[1])
        facts = {("typeis", NAME, frozenset(["builtins.str"])): True}
        for o in returns(c.paths(fi, inline_when=E.when_a, facts=facts, **E.kw)):
            w = at(c, fi, o)
            signature(c, E, "C15:capture_value", o)
            k = key_of(o, 2)
            if k is None:
                c.unknown("C15:capture_value", w, show(o.value)[:80])
                continue
            c.require("C15:capture_value:key", k[0] == NAME and is_call(k[1], "pickle.dumps"), w, f"the key is ({show(k[0])[:40]}, {show(k[1])[:40]})")
            expect("C15:capture_value:detect", "is_captured_value", o, dict(o.state.facts), k)
            expect("C15:capture_value:nomacro", "is_captured_macro", o, dict(o.state.facts), None)
    with c.section("C15:lookup"):
        fi = ix.func(Q + "lookup_value")
        for o in returns(c.paths(fi)):
            K = P(fi.params()[0])
            ld = [e for _, e in call_events(o.state.trace, "pickle.loads")]
            for e in ld:
                c.require("C15:lookup_value", argof(e, "data", 0) == ("sub", K, const(1)) or (None if not contains(e.b, K) else False), at(c, fi, o), f"thaws {show(e.b)[:60]}")
        fi = ix.func(Q + "lookup_macro")
        for o in returns(c.paths(fi)):
            K = P(fi.params()[0])
            w = at(c, fi, o)
            k = norm_ctor(o.value)
            c.require("C15:lookup_macro:name", None if k is None else k[0] == "Name" and k[1].get("id") == ("sub", K, const(1)), w, f"evaluates to {show(o.value)[:60]}")
            for _, e in call_events(o.state.trace, "pickle.loads"):
                c.require("C15:lookup_macro:value", argof(e, "data", 0) == ("sub", K, const(2)), w, f"thaws {show(e.b)[:60]}")
            for e in o.state.trace:
                if e.kind == "setitem" and e.a == ref("mcpyrate.core.global_bindings"):
                    c.require("C15:lookup_macro:bind", e.b == ("sub", K, const(1)), w, f"binds {show(e.b)[:60]}")
    # compiled captures
    with c.section("C15:Capture:detect"):
        facts0 = {("typeis", X, frozenset([Q + "Capture"])): True, ("typeis", attr(X, "name"), frozenset(["builtins.str"])): True}
        for o in returns(E.emit(facts0, {})):
            d = None
            k = norm_ctor(o.value)
            d = dotted(k[1]["func"]) if k and k[0] == "Call" else None
            facts = dict(o.state.facts)
            if d and d.endswith(".capture_value"):
                expect("C15:Capture:detect", "is_captured_value", o, facts, [attr(X, "name"), const(None)])
                expect("C15:Capture:nomacro", "is_captured_macro", o, facts, None)
            elif d and d.endswith(".lookup_macro"):
                k3 = key_of(o, 3)
                if k3 is None:
                    c.unknown("C15:Capture:macro", at(c, E.fa, o), show(o.value)[:80])
                    continue
                c.require("C15:capture_macro:key", is_call(k3[2], "pickle.dumps") and is_call(k3[1], "gensym"), at(c, E.fa, o), f"the key is ({', '.join(show(x)[:30] for x in k3)})")
                expect("C15:Capture:macro", "is_captured_macro", o, facts, k3)
                expect("C15:Capture:novalue", "is_captured_value", o, facts, None)
            else:
                c.unknown("C15:Capture:detect", at(c, E.fa, o), f"emits a call of {d}")
    # other emitted calls are no captures
    for m in ("Unquote", "ASTLiteral", "LiftSourcecode"):
        with c.section(f"C15:{m}:detect"):
            for o in returns(E.emit({("typeis", X, frozenset([Q + m])): True}, {})):
                expect(f"C15:{m}:detect", "is_captured_value", o, dict(o.state.facts), None)
                expect(f"C15:{m}:detect", "is_captured_macro", o, dict(o.state.facts), None)
