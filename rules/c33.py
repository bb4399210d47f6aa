"""Walkers visit everything once and scope their state to subtrees.

Rule: all paths of the base walker and of visiting by a visitor and by a transformer are enumerated, with every call of user code raising or
not. The state given for a node is a copy of the current state, updated with the given values; children given a state together share it. Visiting looks for a state given for the
node and takes it out; if there is one (whatever it contains) it is pushed before the node is examined and popped after, on all exits, and otherwise
the stack is left alone. A list is visited element by element, and for a transformer becomes the flattened results; any other node is handed over exactly
once, and the result returned. Flattening keeps order, drops absent items and splices nested lists (on lists of many shapes). Collected
items are appended; a reset makes the stack, the given states and the collected items anew. The state object copies into a new store and reads and writes that store.
"""
import itertools

from lib.interp import FALSE, NONE, TRUE, Interp, Policy, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, call_events, returns, truth, where_of
from lib.shape import P, items_of

MW, MB = "mcpyrate.walkers.", "mcpyrate.bunch.Bunch"
S = P("self")


def own(t, *names):
    """a call of a method of the walker itself"""
    return isinstance(t, tuple) and t and t[0] == "call" and (t[1][0] == "attr" and t[1][1] == S and t[1][2] in names or
                                                              t[1][0] == "bound" and t[1][1] == S and t[1][2].rsplit(".", 1)[-1] in names)


class Names:
    """names of the private attributes, from what a reset puts into them"""
    stack = overrides = None


def check(c):
    ix = c.ix
    N = Names()
    with c.section("C33:reset"):
        reset(c, ix, N)
    for k in ("withstate", "generic_withstate"):
        with c.section(f"C33:{k}"):
            given(c, ix.find_method(MW + "BaseASTWalker", k), N, k)
    for k, m in (("ASTVisitor", "examine"), ("ASTTransformer", "transform")):
        with c.section(f"C33:{k}"):
            visit(c, ix.find_method(MW + k, "visit"), N, k, m)
    with c.section("C33:state"):
        state(c, ix, N)
    with c.section("C33:collect"):
        for o in returns(c.paths(ix.find_method(MW + "BaseASTWalker", "collect"))):
            w = at(c, ix.find_method(MW + "BaseASTWalker", "collect"), o)
            adds = [e for e in o.state.trace if e.kind == "call" and e.c[0] == "call" and e.c[1][0] == "attr" and e.c[1][1] == attr(S, "collected") or e.kind in ("listop", "setattr")]
            one = len(adds) == 1 and adds[0].kind == "call"
            c.require("C33:collect:appended", True if one and adds[0].c[1][2] == "append" and argof(adds[0].c, 0) == P("value") else False if not adds or one and adds[0].c[1][2] in ("insert", "append") else None, w, "a collected item is not put at the end")
            c.require("C33:collect:value", o.value == P("value"), w, f"returns {show(o.value)[:60]}")
    with c.section("C33:flatten"):
        flatten(c, ix.func("mcpyrate.utils.flatten"))
    with c.section("C33:bunch"):
        bunch(c, ix)
    c.floor(40)


def reset(c, ix, N):
    fi = ix.find_method(MW + "BaseASTWalker", "reset")
    for o in returns(c.paths(fi)):
        w = at(c, fi, o)
        b = P("bindings")
        done = {}
        for e in o.state.trace:
            if e.kind == "setattr" and e.a == S:
                done[e.b] = e.c
        for k, v in done.items():
            items = v[1] if v[0] in ("list", "tuple") else None
            if v[0] == "new":
                items = items_of(v, o.state)
            if items and len(items) == 1 and is_call(items[0], MB):
                N.stack = k
                c.require("C33:reset:state", [x for _, x in items[0][2]] == [b], w, f"the walk starts with the state {show(items[0])[:80]}")
            elif v == ("dict", ()) or v[0] == "new" and v[1] == "dict" or is_call(v, "builtins.dict") and not v[2]:
                N.overrides = k
        v = done.get("collected")
        c.require("C33:reset:collected", False if v is None else True if v in (("list", ()),) or is_call(v, "builtins.list") and not v[2] or v[0] == "new" and not items_of(v, o.state) else None, w, "items collected by an earlier walk are kept")
        c.require("C33:reset:stack", True if N.stack else None, w, "")
        c.require("C33:reset:given", True if N.overrides else None, w, "")
        for k, v in done.items():
            if any(contains(v, x) for x in (attr(S, k),)) or v[0] == "getattr" and v[1] == S:
                c.bad("C33:reset:fresh", w, f"what an earlier walk left in {k} is kept")
        cleared = [e for e in o.state.trace if e.kind == "call" and e.c[1][0] == "attr" and e.c[1][2] == "clear"]
        if N.stack and not N.overrides and not cleared and len(done) < 3:
            c.bad("C33:reset:given", w, "states given in an earlier walk are kept")
    fi = ix.find_method(MW + "BaseASTWalker", "__init__")
    for o in returns(c.paths(fi)):
        w = at(c, fi, o)
        call = [e for e in o.state.trace if e.kind == "call" and own(e.c, "reset")]
        sets = {e.b for e in o.state.trace if e.kind == "setattr" and e.a == S}
        c.require("C33:reset:init", True if call and [v for _, v in call[0].c[2]] == [P("bindings")] else None if {"collected", N.stack, N.overrides} <= sets else False if call or not sets else None, w, "a new walker does not start with the given state")


def state(c, ix, N):
    """reading the state gives what is on the top of the stack, and setting it replaces that"""
    if not N.stack:
        return
    get, set_ = Interp(ix, Policy(c.baseline)).find_property(MW + "BaseASTWalker", "state") or (None, None)
    if get is None:
        c.unknown("C33:state:form", "", "")
        return
    for o in returns(c.paths(get)):
        c.require("C33:state:get", True if o.value == top(N) else False if o.value[0] == "sub" and o.value[1] == attr(S, N.stack) else None, at(c, get, o), f"the state is {show(o.value)[:60]}")
    if set_ is None:
        m = [f for f in ix.funcs.values() if f.qualname.startswith(MW + "BaseASTWalker.") and f.node.name == "state" and f is not get]
        set_ = m[0] if m else None
    if set_ is None:
        c.unknown("C33:state:set", c.where(get), "")
        return
    V = P(set_.params()[1])
    for o in returns(c.paths(set_)):
        sets = [e for e in o.state.trace if e.kind == "setitem" and e.a == attr(S, N.stack)]
        adds = [e for e in o.state.trace if e.kind == "call" and e.c[0] == "call" and e.c[1] == attr(attr(S, N.stack), "append")]
        c.require("C33:state:set", True if len(sets) == 1 and sets[0].b == const(-1) and sets[0].c == V and not adds else False if adds and not sets or any(e.kind == "call" and e.c[0] == "call" and e.c[1][0] in ("attr", "bound") and e.c[1][1] == top(N) and e.c[1][2].rsplit(".", 1)[-1] in ("replace", "update", "clear") for e in o.state.trace) or sets and (sets[0].b[0] == "const" and sets[0].b != const(-1)) or not o.state.trace else None, at(c, set_, o), "setting the state does not replace the one in force")


def top(N):
    return ("sub", attr(S, N.stack), const(-1))


def chain(v):
    """x.copy().copy() -> x, [copy calls from the outermost]"""
    out = []
    while v[0] == "call":
        if v[1][0] in ("attr", "bound") and v[1][2] == "copy" and not v[2]:
            out.append(v)
            v = v[1][1]
        elif is_call(v, "copy.copy", "copy.deepcopy"):
            out.append(v)
            v = argof(v, 0)
        else:
            break
    return v, out


def given(c, fi, N, key):
    T, B = P("tree"), P("bindings")
    if not N.stack or not N.overrides:
        c.unknown(f"C33:{key}:form", c.where(fi), "")
        return
    done = set()
    for o in returns(c.paths(fi, reads=True, inline=[q for q in c.ix.funcs if q.startswith(MW) and c.ix.funcs[q] is not fi and not q.endswith((".visit", ".withstate", ".generic_withstate", ".reset", ".__init__", ".collect"))])):
        tr, f, w = o.state.trace, o.state.facts, at(c, fi, o)
        loops = [(i, e) for i, e in enumerate(tr) if e.kind == "loop"]
        islist = next((b for k, b in f.items() if k[0] in ("isinst", "typeis") and k[1] == T and "builtins.list" in k[2]), None)
        wanted = None
        if key == "withstate" and islist:
            if not loops:
                continue
            wanted = ("elem", T, loops[0][1].b) if loops[0][1].a == T else None
        elif key == "withstate":
            if islist is None:
                c.bad(f"C33:{key}:list", w, "the nodes of a suite do not get the state")
            wanted = T
        else:
            if not loops:
                if not any(e.kind == "call" and is_call(e.c, "ast.iter_child_nodes") for e in tr):
                    c.unknown(f"C33:{key}:children", w, "")
                continue
            wanted = ("elem", loops[0][1].a, loops[0][1].b) if is_call(loops[0][1].a, "ast.iter_child_nodes") and argof(loops[0][1].a, 0) == T else None
        if wanted is None:
            c.unknown(f"C33:{key}:children", w, "")
            continue
        rec = [e for e in tr if e.kind == "call" and own(e.c, "withstate")]
        sets = [(i, e) for i, e in enumerate(tr) if e.kind == "setitem" and e.a == attr(S, N.overrides)]
        sets += [(i, None) for i, e in enumerate(tr) if e.kind == "call" and e.c[0] == "call" and e.c[1][0] == "attr" and e.c[1][1] == attr(S, N.overrides)]
        if rec and not sets:
            c.require(f"C33:{key}:each", True if [v for _, v in rec[0].c[2]] == [wanted, B] else None, w, "")
            done.add(islist)
            continue
        if len(sets) != 1 or sets[0][1] is None:
            weak = any(e.kind == "call" and e.c[0] == "call" and e.c[1] == attr(attr(S, N.overrides), "setdefault") for e in tr)
            c.require(f"C33:{key}:set", False if not sets or weak and len(sets) == 1 else None, w, "the state is not noted for the node")
            continue
        i, e = sets[0]
        ww = where_of(e, w)
        kk = e.b
        c.require(f"C33:{key}:key", True if is_call(kk, "builtins.id") and argof(kk, 0) == wanted else False if is_call(kk, "builtins.id") and argof(kk, 0) == T else None, ww, f"the state is noted for {show(kk)[:60]}")
        v = e.c
        if is_call(v, MB):
            st = [x for k, x in v[2] if k == "**"]
            none = not any(contains(x, attr(S, N.stack)) for _, x in v[2])
            c.require(f"C33:{key}:values", True if len(st) == 2 and contains(st[0], top(N)) and st[1] == B or len(st) == 1 and contains(st[0], top(N)) and contains(st[0], B) else False if none and not any(e.kind == "call" and e.c[0] == "call" and e.c[1][0] in ("attr", "bound") and e.c[1][1] == v for e in tr) else None, ww, "what is in force is lost in the state given for the node")
            continue
        base, copies = chain(v)
        if base != top(N):
            c.require(f"C33:{key}:base", False if base[0] == "sub" and base[1] == attr(S, N.stack) and base[2][0] == "const" else None, ww, f"the state given for the node is made from {show(base)[:80]}, which is not the one in force")
            continue
        c.require(f"C33:{key}:copy", bool(copies), ww, "the state noted for the node is the current state itself")
        ups = [(j, u) for j, u in enumerate(tr[:i]) if u.kind == "call" and u.c[0] == "call" and u.c[1][0] in ("attr", "bound") and u.c[1][2] == "update" and [x for _, x in u.c[2]] == [B]]
        upd = [u for j, u in ups if u.c[1][1] in copies]
        state = [u for j, u in ups if u.c[1][1] == base]
        c.require(f"C33:{key}:current", not state, ww, "the current state is updated with the values given for the node")
        for l in (x for x in tr if x.kind == "loop" and x.a in (B, ("items", B))):
            if not any(x.kind == "setitem" and x.a in copies or x.kind == "call" and x.c[0] == "call" and x.c[1][0] in ("attr", "bound") and x.c[1][2] in ("__setitem__", "update") or x.kind == "call" and is_call(x.c, "builtins.setattr") or x.kind == "setattr" for x in tr):
                c.bad(f"C33:{key}:values", ww, "one of the given values is not in the state of the node")
        c.require(f"C33:{key}:values", True if upd else False if not ups and not any(contains(x, B) for u in tr for x in (u.a, u.b, u.c) if isinstance(x, tuple)) else None, ww, "the given values are not in the state of the node")
        if wanted != T and copies:
            li = loops[0][0]
            when = next((j for j, u in enumerate(tr) if u.kind == "call" and u.c == v), None)
            c.require(f"C33:{key}:shared", None if when is None else when < li, ww, "each child gets a state of its own, and does not see what is changed at another one")
        done.add(islist)
    c.require(f"C33:{key}:done", bool(done) or None, c.where(fi), "")


def user(t, interp=None, state=None):
    return own(t, "examine", "transform", "visit", "generic_visit") or is_call(t, "mcpyrate.utils.flatten")


def visit(c, fi, N, cls, meth):
    T = P("tree")
    if not N.stack or not N.overrides:
        c.unknown(f"C33:{cls}:form", c.where(fi), "")
        return
    ST, OV = attr(S, N.stack), attr(S, N.overrides)
    idt = lambda x: is_call(x, "builtins.id") and argof(x, 0) == T
    n = 0
    helpers = [q for q in c.ix.funcs if q.startswith(MW) and c.ix.funcs[q] is not fi and not q.endswith((".visit", ".withstate", ".generic_withstate", ".reset", ".__init__", ".collect", ".examine", ".transform"))]
    for o in c.paths(fi, may_raise=user, reads=True, inline=helpers, max_paths=30000):
        tr, f, w = o.state.trace, o.state.facts, at(c, fi, o)
        # the state given for the node
        look = drop = None
        for i, e in enumerate(tr):
            if e.kind == "call" and e.c[0] == "call" and e.c[1] == attr(OV, "pop") and e.c[2] and idt(argof(e.c, 0)):
                look = drop = e.c
            elif e.kind == "call" and e.c[0] == "call" and e.c[1] == attr(OV, "get") and e.c[2] and idt(argof(e.c, 0)):
                look = e.c
            elif e.kind == "getitem" and e.a == OV and idt(e.b):
                look = ("sub", OV, e.b)
            elif e.kind == "delitem" and e.a == OV and idt(e.b):
                drop = e
        member = next((b for k, b in f.items() if k[0] == "cmp" and k[1] == "In" and k[3] == OV and idt(k[2])), None)
        none = f.get(("isnone", look)) if look else None
        has = member if member is not None else (not none) if none is not None else None
        if look is None and member is None:
            c.require(f"C33:{cls}:lookup", None if any(contains(x, OV) for e in tr for x in (e.a, e.b, e.c) if isinstance(x, tuple)) else False, w, "the state given for the node is not looked for")
            continue
        if look and has is None and look in f:
            c.bad(f"C33:{cls}:empty", w, "whether a state is given for the node is decided by what it contains")
            continue
        push = [i for i, e in enumerate(tr) if e.kind == "call" and e.c[0] == "call" and e.c[1] == attr(ST, "append")]
        pop = [i for i, e in enumerate(tr) if e.kind == "call" and e.c[0] == "call" and e.c[1] == attr(ST, "pop") and (not e.c[2] or argof(e.c, 0) == const(-1)) or e.kind == "delitem" and e.a == ST and e.b == const(-1)]
        odd = [e for e in tr if e.kind == "call" and e.c[0] == "call" and e.c[1][0] == "attr" and e.c[1][1] == ST and e.c[1][2] not in ("append", "pop") or e.kind in ("setitem", "delitem") and e.a == ST and not (e.kind == "delitem" and e.b == const(-1)) or e.kind == "setattr" and e.a == S and e.b == N.stack]
        work = [i for i, e in enumerate(tr) if e.kind in ("call", "callraise") and user(e.c)]
        how = "normal exit" if o.kind == "return" else "exception"
        n += 1
        if odd:
            c.unknown(f"C33:{cls}:stack", w, "")
        elif has:
            default = argof(look, 1) if look and look[0] == "call" else None
            ok = len(push) == 1 and (not work or push[0] < work[0])
            c.require(f"C33:{cls}:pushed", ok, w, f"the state given for the node is not in force while it is visited ({how})")
            if push:
                p = tr[push[0]].c
                c.require(f"C33:{cls}:which", True if argof(p, 0) == look else None if look and contains(argof(p, 0), look) else False, w, f"pushes {show(argof(p, 0))[:60]}")
            c.require(f"C33:{cls}:popped", True if len(pop) == len(push) and (not work or not pop or pop[-1] > work[-1]) else False, w, f"the state that was in force is not restored at {how}")
            c.require(f"C33:{cls}:taken", True if drop is not None else False if look and (look[0] == "sub" or look[1][2] == "get") else None, w, "the state given for the node stays noted, and is applied to another one")
        elif has is False:
            c.require(f"C33:{cls}:untouched", len(push) == len(pop) == 0, w, "the stack of states changes though no state is given for the node")
        else:
            c.require(f"C33:{cls}:balanced", True if len(push) == len(pop) else False, w, f"the stack of states is not restored at {how}")
        if o.kind != "return":
            continue
        islist = next((b for k, b in f.items() if k[0] in ("isinst", "typeis") and k[1] == T and "builtins.list" in k[2]), None)
        mine = [e for e in tr if e.kind == "call" and own(e.c, meth)]
        if islist:
            loops = [e for e in tr if e.kind == "loop" and e.a == T]
            others = [e for e in tr if e.kind == "loop" and e.a != T]
            vis = [e for e in tr if e.kind == "call" and own(e.c, "visit")]
            c.require(f"C33:{cls}:nodes", not mine or None, w, "")
            for e in tr:
                if e.kind == "endloop" and e.a == T and e.c == "break":
                    c.require(f"C33:{cls}:rest", False if any(contains(k, v.c) for k in f for v in vis) or not f else None, w, "elements of a list are not visited because of what visiting an earlier one gives")
            back = [e for e in tr if e.kind == "loop" and (e.a == ("reversed", T) or e.a[0] == "sub" and e.a[1] == T and e.a[2] == ("slice", NONE, NONE, const(-1)))]
            if back and vis:
                c.bad(f"C33:{cls}:inorder", w, "the elements of a list are not visited in order")
            if loops:
                el = ("elem", T, loops[0].b)
                c.require(f"C33:{cls}:each", True if len(vis) == 1 and argof(vis[0].c, "tree", 0) == el else False if not vis and not others else None, w, "the elements of a list are not visited once each")
            if cls == "ASTTransformer":
                sets = [e for e in tr if e.kind == "setitem" and e.a == T]
                v = sets[-1].c if sets else o.value
                c.require(f"C33:{cls}:same", False if o.value == NONE else True if o.value == T and sets or not sets and o.value != T else False if o.value == T or o.value == NONE else None, w, "the list of results is not put in the place of the list")
                fl = [x for x in subterms(v) if is_call(x, "mcpyrate.utils.flatten")]
                empty = v == ("list", ()) or v[0] == "new" and not items_of(v, o.state)
                if loops:
                    fact = [k for k, b in f.items() if b is False and is_call(k, "mcpyrate.utils.flatten")]
                    good = True if fl or empty and fact else False if empty and not fact else None
                    c.require(f"C33:{cls}:results", good, w, f"the list becomes {show(v)[:80]}")
        else:
            c.require(f"C33:{cls}:once", True if len(mine) == 1 and argof(mine[0].c, "tree", 0) == T else False if not mine or len(mine) > 1 else None, w, "a node is not handed over exactly once")
            if mine:
                c.require(f"C33:{cls}:value", True if o.value == mine[0].c else False if o.value in (NONE, T) else None, w, f"returns {show(o.value)[:60]} instead of the result")
    c.require(f"C33:{cls}:some", n > 0 or None, c.where(fi), "")


def flatten(c, fi):
    def want(t):
        return [y for x in t[1] for y in (want(x) if x[0] == "list" else [] if x == NONE else [x])]

    a = [P(f"x{i}") for i in range(4)]
    atoms = [a[0], NONE, ("list", (a[1],)), ("list", ()), ("list", (NONE, a[2], ("list", (a[3], NONE)))), a[0]]
    facts = {}
    for x in a:
        facts[("isinst", x, frozenset(["builtins.list"]))] = False
        facts[("typeis", x, frozenset(["builtins.list"]))] = False
        facts[("isnone", x)] = False
        facts[x] = True
    p0 = fi.params()[0]
    for k in range(4):
        for t in itertools.product(atoms, repeat=k):
            if k == 3 and len(set(t)) < 3:
                continue
            L = ("list", tuple(t))
            for o in c.paths(fi, bind={p0: L, "recursive": TRUE}, facts=facts, inline_when=lambda f, b, s: f.qualname == fi.qualname or None, shapes=True):
                w = at(c, fi, o)
                if o.kind != "return":
                    c.bad("C33:flatten:raises", w, f"raises for {show(L)[:80]}")
                    continue
                v = items_of(o.value, o.state) if o.value is not None else None
                if v is None or any(isinstance(x, tuple) and x and x[0] in ("rep", "star", "opaque") for x in v):
                    c.unknown("C33:flatten:value", w, show(o.value)[:80])
                    continue
                c.require("C33:flatten:value", list(v) == want(L), w, f"{show(L)[:80]} becomes {show(('list', tuple(v)))[:80]}")


def bunch(c, ix):
    def m(name):
        return ix.find_method(MB, name)
    fi = m("__init__")
    D = None
    for o in returns(c.paths(fi)):
        for e in o.state.trace:
            if e.kind == "setattr" and e.a == S and e.c == P("bindings"):
                D = e.b
    if D is None:
        c.unknown("C33:bunch:form", c.where(fi), "")
        return
    DT = attr(S, D)
    fi = m("copy")
    for o in returns(c.paths(fi)):
        w, v = at(c, fi, o), o.value
        direct = [e for e in o.state.trace if e.kind == "setattr" and e.b == D and e.c == DT]
        good = None
        if v == S or direct:
            good = False
        elif is_call(v, "mcpyrate.bunch.bunchify") and argof(v, "d", 0) == DT:
            good = False
        elif v[0] == "call" and (is_call(v, MB) or contains(v[1], S)):
            good = True if any(k == "**" and x == DT for k, x in v[2]) else None
            if any(k == "**" and x[0] == "dict" and any(kk is not None and kk[0] == "rep" and kk[3] and contains(kk[1], DT) for kk, _ in x[1]) for k, x in v[2]):
                good = False
            if not v[2] and not any(e.kind in ("setattr", "call", "setitem") and e.c != v for e in o.state.trace):
                good = False
        c.require("C33:bunch:copy", good, w, "a copy shares its values' store with the original, or does not have the values")
    fi = m("update")
    outs = returns(c.paths(fi))
    loops = any(e.kind == "loop" for o in outs for e in o.state.trace)
    for o in outs:
        w = at(c, fi, o)
        ups = [e for e in o.state.trace if e.kind == "call" and e.c[0] == "call" and e.c[1] == attr(DT, "update") and [x for _, x in e.c[2]] == [P("bindings")]]
        oth = [e for e in o.state.trace if e.kind in ("setitem", "setattr", "call")]
        c.require("C33:bunch:update", True if ups else None if oth or loops else False, w, "an update does not set the given values")

    def rk(t, interp=None, state=None):
        return t[0] == "getitem"
    fi = m("__getattr__")
    NM = P(fi.params()[1])
    kinds = set()
    for o in c.paths(fi, may_raise=rk, reads=True):
        w = at(c, fi, o)
        if o.kind == "return":
            v = o.value
            c.require("C33:bunch:get", True if v == ("sub", DT, NM) or v[0] == "call" and v[1][0] == "attr" and v[1][1] == DT and v[1][2] == "__getitem__" else False if v[0] == "call" and v[1] == attr(DT, "get") or v == NONE else None, w, f"reading gives {show(v)[:60]}")
        else:
            v = o.value
            kinds.add("attribute" if is_call(v, "builtins.AttributeError") and any(e.kind == "except" for e in o.state.trace) else "item" if v[0] == "exc" and v[1][0] == "getitem" else "key" if is_call(v, "builtins.KeyError") else "special" if is_call(v, "builtins.AttributeError") else "?")
        if o.kind == "return" and (f := o.state.facts) is not None:
            special = [b for k, b in f.items() if k[0] == "cmp" and k[1] == "Eq" and NM in k[2:] and const(D) in k[2:] or k[0] == "in" and k[1] == NM and const(D) in k[2]]
            special += [True for k, b in f.items() if contains(k, NM) and (is_call(k, "builtins.hasattr") or "startswith" in str(k) or "__dict__" in str(k))]
            c.require("C33:bunch:recursion", True if special else False, w, "reading from an object without a store (one being copied or unpickled) never ends")
    c.require("C33:bunch:missing", False if "key" in kinds else True if "attribute" in kinds else False if "item" in kinds else None, c.where(fi), "reading a name that is not there does not raise the error of attributes")
    fi = m("__setattr__")
    ps = fi.params()
    NM, VL = P(ps[1]), P(ps[2])
    for o in returns(c.paths(fi)):
        w, f = at(c, fi, o), o.state.facts
        st = [e for e in o.state.trace if e.kind == "setitem" and e.a == DT]
        sup = [e for e in o.state.trace if e.kind == "call" and e.c[1][0] in ("attr", "bound") and e.c[1][2] == "__setattr__"]
        if st:
            c.require("C33:bunch:set", (st[-1].b, st[-1].c) == (NM, VL), w, f"writing sets {show(st[-1].b)[:40]} to {show(st[-1].c)[:40]}")
        else:
            inside = [b for k, b in f.items() if b and (k[0] == "in" and k[1] == NM or k[0] == "cmp" and k[1] == "Eq" and NM in k[2:])]
            c.require("C33:bunch:set", True if sup and inside else None if sup or o.state.trace else False, w, "writing has no effect")
    for name in ("__contains__", "__getitem__", "__setitem__", "__delitem__", "keys", "items", "values", "pop", "popitem", "clear", "setdefault"):
        fi = m(name)
        if fi is None:
            continue
        args = [P(p) for p in fi.params()[1:]]
        for o in returns(c.paths(fi)):
            w, v = at(c, fi, o), o.value
            good = None
            evs = o.state.trace
            if v == (name, DT) or name == "keys" and v == DT:
                good = True
            direct = [e for e in evs if e.kind == "call" and e.c[0] == "call" and e.c[1][0] == "attr" and e.c[1][1] == DT]
            if direct:
                e = direct[-1]
                plain = [x for k, x in e.c[2]]
                if e.c[1][2] == name:
                    good = plain[:len(args)] == args[:len(plain)] and (v == e.c or name in ("__setitem__", "__delitem__", "clear"))
                    if not good and (v != e.c and v != NONE):
                        good = None
            elif not evs and v == NONE and name != "popitem":
                good = False
            c.require(f"C33:bunch:{name.strip('_')}", good, w, f"does not act on the stored values as `{name}` of a dictionary")
