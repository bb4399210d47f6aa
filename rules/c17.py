"""Hygienic captures keep denoting what was captured.

Rule: capturing freezes its argument at once and the code it emits carries the frozen bytes; the look-up, on every path, either
finds the entry of its cache or stores, under the very key it tests and reads, what it thaws from the frozen bytes of the same
capture; the cache key contains the identity of the capture, and if that is an object's address the entry keeps the object
alive; nothing in the package removes or replaces entries of the cache or of the table of captured macros. A captured macro is
bound under the generated unique name of its key, never replacing an entry, in the table that every expander consults.
"""
import ast

from lib.index import loc
from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import argof, at, call_events, norm_ctor, raises, returns, where_of

P = lambda n: ("param", n)
Q = "mcpyrate.quotes."
GB = ref("mcpyrate.core.global_bindings")
REMOVERS = {"pop", "popitem", "clear", "__delitem__"}


def thaw_of(t):
    """argument of the pickle.loads that a term is"""
    return argof(t, "data", 0) if is_call(t, "pickle.loads") else None


def global_refs(ix, dotted):
    """(module, node, parent chain) of every use of a module global in the package"""
    for m in ix.modules.values():
        parents = {}
        for n in ast.walk(m.tree):
            for ch in ast.iter_child_nodes(n):
                parents[ch] = n
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and ix.resolve_expr(m, n) == dotted:
                yield m, n, parents


def no_removal(c, key, dotted, what):
    for m, n, parents in global_refs(c.ix, dotted):
        w = f"{m.relpath if hasattr(m, 'relpath') else m.name}:{n.lineno}"
        p = parents.get(n)
        if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Del):
            c.bad(key, w, f"an entry of {what} is deleted")
        elif isinstance(p, ast.Attribute) and p.value is n and p.attr in REMOVERS and isinstance(parents.get(p), ast.Call):
            c.bad(key, w, f"entries of {what} are removed ({p.attr})")
        elif isinstance(n.ctx, (ast.Store, ast.Del)) and not (isinstance(p, (ast.Assign, ast.AnnAssign)) and isinstance(parents.get(p), ast.Module)):
            fn = p
            while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = parents.get(fn)
            if fn is None or isinstance(n, ast.Attribute) or any(isinstance(x, ast.Global) and n.id in x.names for x in ast.walk(fn)):
                c.bad(key, w, f"{what} is replaced")
        else:
            c.ok(key, w, f"use of {what}")


def table_kind(c, key, dotted, what):
    mod, _, name = dotted.rpartition(".")
    m = c.ix.module(mod)
    for st in m.tree.body:
        ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []
        if any(isinstance(t, ast.Name) and t.id == name for t in ts) and st.value is not None:
            v = st.value
            f = c.ix.resolve_expr(m, v.func) if isinstance(v, ast.Call) else None
            w = f"{m.relpath}:{st.lineno}"
            if isinstance(v, ast.Dict) or f in ("builtins.dict", "collections.OrderedDict"):
                c.ok(key, w, f"{what} is a plain dictionary")
            elif f and f.startswith("weakref."):
                c.bad(key, w, f"{what} is a {f}: its entries vanish")
            else:
                c.unknown(key, w, f"{what} is {ast.dump(v)[:60]}")


def unscrubbed(t):
    """the term with what loses the generated part of a name left out"""
    if not isinstance(t, tuple):
        return t
    if is_call(t, "scrub_uuid") or t[:1] == ("sub",) and t[2][0] == "slice" and is_call(t[1], "gensym"):
        return NONE
    return tuple(unscrubbed(x) for x in t)


def check(c):
    ix = c.ix
    cache = None
    # -- capture
    with c.section("C17:capture_value"):
        fi = ix.func(Q + "capture_value")
        V, NM = P(fi.params()[0]), P(fi.params()[1])
        for o in returns(c.paths(fi)):
            w = at(c, fi, o)
            ds = [t for t in subterms(_deref(o.value, o.state.heap)) if is_call(t, "pickle.dumps")]
            c.require("C17:capture_value:frozen", True if any(argof(t, "obj", 0) == V for t in ds) else False, w, "the emitted look-up does not carry the value frozen at capture time")
    for fn in ("capture_macro", "capture_as_macro"):
        with c.section("C17:" + fn):
            fi = ix.func(Q + fn)
            M = P(fi.params()[0])
            n = 0
            for o in returns(c.paths(fi, shapes=True, inline_when=lambda f, b, s: False if f.name in ("lookup_macro",) else None)):
                w = at(c, fi, o)
                v = _deref(o.value, o.state.heap)
                key = _key(v)
                if key is None:
                    c.unknown(f"C17:{fn}:key", w, show(o.value)[:100])
                    continue
                n += 1
                a, u, z = key
                c.require(f"C17:{fn}:unique", True if is_call(u, "mcpyrate.utils.gensym") else False if not any(is_call(t, "gensym") for t in subterms(u)) or not any(is_call(t, "gensym") for t in subterms(unscrubbed(u))) else None, w,
                          f"the captured macro is bound under {show(u)[:60]}, which is not a generated name")
                c.require(f"C17:{fn}:frozen", is_call(z, "pickle.dumps") and argof(z, "obj", 0) == M or (None if contains(z, M) and z[0] == "call" else False), w, f"what is frozen is {show(z)[:60]}")
    # -- look-up of values
    with c.section("C17:lookup_value"):
        fi = ix.func(Q + "lookup_value")
        K = P(fi.params()[0])
        NAME, FROZEN = ("sub", K, const(0)), ("sub", K, const(1))
        outs = c.paths(fi)
        for o in outs:
            f = o.state.facts.get(("isnone", FROZEN))
            if f is True:
                c.require("C17:lookup_value:uncaptured", o.kind == "raise", at(c, fi, o), "a value that was not captured yet is looked up")
        for o in returns(outs):
            w = at(c, fi, o)
            tr = o.state.trace
            thaw = [e for _, e in call_events(tr, "pickle.loads")]
            for e in thaw:
                c.require("C17:lookup_value:thaw", argof(e, "data", 0) == FROZEN or (False if not contains(e.b, FROZEN) and not contains(e.b, K) else None), where_of(e, w), f"thaws {show(e.b)[:60]}")
            sets = [e for e in tr if e.kind == "setitem" and e.a[0] == "ref"]
            sd = [e for e in tr if e.kind == "call" and e.a[0] in ("attr", "ref") and (callee(e.a) or "").endswith(".setdefault")]
            if thaw:
                if not sets and not sd:
                    # nothing remembered: the next look-up gives another object
                    other = any(e.kind in ("setattr", "setitem", "augassign") or (e.kind == "call" and e.a[0] in ("attr", "bound") and contains(e.b, thaw[0].c)) for e in tr)
                    c.require("C17:lookup_value:remembered", None if other else False, w, "the thawed value is not remembered: a second look-up gives a different object")
                    continue
                if not sets:
                    c.unknown("C17:lookup_value:remembered", w, "remembered by setdefault")
                    continue
                st = sets[-1]
                cache = st.a
                ck, val = st.b, st.c
                c.require("C17:lookup_value:stored", contains(val, thaw[0].c), where_of(st, w), f"what is remembered is {show(val)[:60]}")
                keycheck(c, ck, val, NAME, FROZEN, K, where_of(st, w))
                # the value returned is the stored one
                v = o.value
                ok = v == thaw[0].c or contains(v, st.a) and contains(v, ck) or contains(v, thaw[0].c)
                c.require("C17:lookup_value:same", True if ok else False, w, f"returns {show(v)[:60]}")
                tested = [e for e in tr if e.kind == "assume" and e.a[0] == "cmp" and e.a[1] == "In" and e.a[3] == st.a and not e.b]
                for e in tested:
                    c.require("C17:lookup_value:key", e.a[2] == ck, where_of(st, w), f"tested under {show(e.a[2])[:60]}, stored under {show(ck)[:60]}")
            else:
                v = o.value
                hit = [e for e in tr if e.kind == "assume" and e.a[0] == "cmp" and e.a[1] == "In" and e.b]
                for e in hit:
                    got = [t for t in subterms(v) if isinstance(t, tuple) and len(t) == 3 and t[0] == "sub" and t[1] == e.a[3]]
                    c.require("C17:lookup_value:hit", (got[0][2] == e.a[2] if got else None), w, f"tested under {show(e.a[2])[:50]}, read as {show(v)[:60]}")
                    keycheck(c, e.a[2], None, NAME, FROZEN, K, w)
                if not hit:
                    g = [t for t in subterms(v) if is_call(t, "get")]
                    (c.unknown if g or v[0] in ("call", "carried", "sub", "attr") else c.bad)("C17:lookup_value:hit", w, f"returns {show(v)[:60]}")
    # decorated with a cache of bounded size?
    with c.section("C17:lookup_value:decorators"):
        fi = ix.func(Q + "lookup_value")
        for d in fi.node.decorator_list:
            r = ix.resolve_expr(fi.module, d.func if isinstance(d, ast.Call) else d)
            (c.bad if r in ("functools.lru_cache", "functools.cache") else c.unknown)("C17:lookup_value:decorators", c.where(fi), f"look-ups are cached by {r}: equal keys of different captures share an object")
        c.ok("C17:lookup_value:decorators", c.where(fi), "no decorator")
    if cache is not None and cache[0] == "ref":
        table_kind(c, "C17:cache:kind", cache[1], "the cache of captured values")
        no_removal(c, "C17:cache:kept", cache[1], "the cache of captured values")
        # nobody else writes it
        for m, n, parents in global_refs(ix, cache[1]):
            p = parents.get(n)
            if isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Store):
                fn = p
                while fn is not None and not isinstance(fn, ast.FunctionDef):
                    fn = parents.get(fn)
                c.require("C17:cache:writer", True if fn is not None and fn.name == "lookup_value" else None, f"{m.relpath}:{n.lineno}", "another writer of the cache")
    # -- macros
    with c.section("C17:lookup_macro"):
        fi = ix.func(Q + "lookup_macro")
        K = P(fi.params()[0])
        UNIQ, FZ = ("sub", K, const(1)), ("sub", K, const(2))
        bound = False
        for o in returns(c.paths(fi, reads=True)):
            tr, w = o.state.trace, at(c, fi, o)
            sets = [e for e in tr if e.kind == "setitem" and e.a == GB]
            sd = [e for _, e in call_events(tr, "setdefault")]
            absent = o.state.facts.get(("cmp", "In", UNIQ, GB))
            for e in sets:
                bound = True
                c.require("C17:lookup_macro:name", e.b == UNIQ, where_of(e, w), f"the macro is bound under {show(e.b)[:60]}")
                c.require("C17:lookup_macro:value", thaw_of(e.c) == FZ or (None if e.c[0] == "call" and contains(e.c, FZ) else False), where_of(e, w), f"bound to {show(e.c)[:60]}")
                c.require("C17:lookup_macro:once", True if absent is False else None if any(x.kind == "except" or x.kind == "assume" and contains(x.a, UNIQ) for x in tr) else False, where_of(e, w), "an existing binding is replaced by another object")
            for e in sd:
                bound = True
                c.require("C17:lookup_macro:name", argof(e, 0) == UNIQ, where_of(e, w), f"bound under {show(argof(e, 0))[:60]}")
            if not sets and not sd:
                c.require("C17:lookup_macro:bound", True if absent is True else False if absent is False and not any(x.kind in ("setattr", "augassign", "except") or x.kind == "call" and contains(x.b, UNIQ) for x in tr) else None if any(x.kind in ("setitem", "setattr", "getitem") or x.kind == "assume" and contains(x.a, UNIQ) for x in tr) else False, w, "the macro is not bound though it is absent")
            k = norm_ctor(o.value)
            c.require("C17:lookup_macro:result", None if k is None else k[0] == "Name" and k[1].get("id") == UNIQ, w, f"evaluates to {show(o.value)[:60]}")
        c.require("C17:lookup_macro:binds", bound or None, c.where(fi), "no path binds the macro")
    table_kind(c, "C17:global:kind", GB[1], "the table of captured macros")
    no_removal(c, "C17:global:kept", GB[1], "the table of captured macros")
    # every expander consults the live table
    with c.section("C17:expanders"):
        B = "mcpyrate.core.BaseMacroExpander"
        fi = ix.find_method(B, "__init__")
        for o in returns(c.paths(fi, selfcls=B)):
            b = o.state.heap.get((P("self"), "bindings"))
            w = at(c, fi, o)
            if b is None:
                c.unknown("C17:expanders", w, "bindings")
            elif is_call(b, "ChainMap"):
                c.require("C17:expanders", any(x == GB for _, x in b[2]), w, f"the expander's bindings are {show(b)[:80]}, without the live table of captured macros")
            else:
                c.require("C17:expanders", None if contains(b, GB) else None, w, f"bindings are {show(b)[:60]}")
        fi = ix.find_method(B, "isbound")
        for glob in (True, False):
            for o in returns(c.paths(fi, bind={"global_only": const(glob)}, selfcls=B)):
                v = o.value
                if v[0] == "sub":
                    base = v[1]
                    c.require("C17:isbound", base == GB or (not glob and base == attr(P("self"), "bindings")) or (None if base[0] not in ("ref", "attr") else False), at(c, fi, o), f"looks the macro up in {show(base)[:60]}")
    # the short cut for trees without anything to expand looks at the captured macros, too
    with c.section("C17:gate"):
        for cls in ("mcpyrate.expander.MacroExpander", "mcpyrate.expander.MacroCollector"):
            fi = ix.find_method(cls, "visit")
            if fi is None:
                continue
            X = P("self") if cls.endswith("Expander") else attr(P("self"), "expander")
            local = attr(X, "local_bindings")
            for o in returns(c.paths(fi, selfcls=cls)):
                gates = [e for e in o.state.trace if e.kind == "assume" and isinstance(e.a, tuple) and contains(e.a, local) and not contains(e.a, attr(X, "bindings"))]
                if o.state.facts.get(local):
                    gates = []
                if gates and not any(e.kind == "call" for e in o.state.trace if e.kind == "call" and e.a != ref("builtins.len") and e.a[0] != "ref"):
                    both = any(e.kind == "assume" and isinstance(e.a, tuple) and (contains(e.a, GB) or contains(e.a, attr(X, "bindings"))) for e in o.state.trace)
                    c.require("C17:gate:global", None if both else False, at(c, fi, o), "a tree is left alone because the module itself binds no macros, though it may use captured ones")
                else:
                    c.ok("C17:gate:global", at(c, fi, o))
    c.floor(12)


def keycheck(c, ck, val, NAME, FROZEN, K, w):
    ids = [t for t in subterms(ck) if is_call(t, "builtins.id")]
    byid = [t for t in ids if argof(t, 0, "obj") in (FROZEN, K)]
    if byid:
        x = argof(byid[0], 0, "obj")
        if x == K:
            c.bad("C17:key:identity", w, "the cache key has the address of the key tuple, which each look-up makes anew")
            return
        c.ok("C17:key:identity", w, "the cache key has the identity of the capture")
        if val is not None:
            alive = [t for t in subterms(val) if t == FROZEN]
            inner = [t for t in subterms(val) if is_call(t, "pickle.loads")]
            # FROZEN must occur outside of the thawing call
            out = contains(_drop(val, inner), FROZEN)
            c.require("C17:key:alive", out or contains(_dropids(ck), FROZEN), w, "the cache key has the address of the frozen value but the entry does not keep it alive: the address may come to denote another capture")
    elif contains(ck, FROZEN):
        plain = ck == FROZEN or ck[0] == "tuple" and FROZEN in ck[1] or ck == K
        if plain:
            c.bad("C17:key:identity", w, "captures of equal values under equal names share one object")
        else:
            h = [t for t in subterms(ck) if t[0] == "call" and contains(t, FROZEN)]
            (c.bad if any(is_call(t, "builtins.hash", "builtins.len") for t in h) else c.unknown)("C17:key:identity", w, f"the cache key is {show(ck)[:60]}")
    elif ck == K:
        c.bad("C17:key:identity", w, "captures of equal values under equal names share one object")
    else:
        c.require("C17:key:identity", None if contains(ck, K) and not contains(ck, NAME) and ck != K and ck[0] == "call" else False, w, f"the cache key {show(ck)[:60]} does not tell different captures of a name apart")


def _drop(t, xs):
    if not isinstance(t, tuple):
        return t
    if t in xs:
        return ("dropped",)
    return tuple(_drop(x, xs) for x in t)


def _dropids(t):
    return _drop(t, [x for x in subterms(t) if is_call(x, "builtins.id")])


def _deref(t, heap, depth=0):
    if not isinstance(t, tuple) or depth > 30:
        return t
    if t and t[0] == "new" and (t, "#") in heap:
        return ("list", tuple(_deref(x, heap, depth + 1) for x in heap[(t, "#")]))
    return tuple(_deref(x, heap, depth + 1) for x in t)


def _key(v):
    """(name, unique name, frozen) in the emitted or performed look-up of a macro"""
    if is_call(v, "lookup_macro"):
        k = argof(v, "key", 0)
        return k[1] if k is not None and k[0] in ("tuple", "list") and len(k[1]) == 3 else None
    for t in subterms(v):
        k = norm_ctor(t) if isinstance(t, tuple) and t and t[0] == "call" else None
        if k and k[0] == "Tuple" and k[1].get("elts", ("",))[0] in ("list", "tuple") and len(k[1]["elts"][1]) == 3:
            out = [norm_ctor(x) for x in k[1]["elts"][1]]
            if all(x and x[0] == "Constant" for x in out):
                return [x[1]["value"] for x in out]
    return None
