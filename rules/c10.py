"""Name contexts are right for every assignment, deletion and load position.

Rule: from the context fixer's transform method a context transfer table is derived - for each node class of the running
Python's grammar and each child field, the context class given to the children in that field (set explicitly, or inherited
from the node). Starting from the load context at the root, every reachable combination of node class, inherited context
and field must give exactly the context that Python's grammar requires there (table below). Every node class with a ctx
field gets the context in force, before its children are visited, and all children are visited. With copying on, nodes
seen before are copied before any context is set up, the copy's child lists are its own, and every node met is remembered.
"""
from lib import asdl
from lib.interp import FALSE, NONE, TRUE, attr, const, ref, show, subterms
from lib.q import argof, at, call_events, callee, contains, is_call, returns, strip_list, truth, where_of

P = lambda n: ("param", n)
S = P("self")
LOAD, STORE, DEL = ref("ast.Load"), ref("ast.Store"), ref("ast.Del")
STORES = {("Assign", "targets"), ("AnnAssign", "target"), ("NamedExpr", "target"), ("AugAssign", "target"), ("For", "target"), ("AsyncFor", "target"),
          ("comprehension", "target"), ("withitem", "optional_vars"), ("TypeAlias", "name")}
DELS = {("Delete", "targets")}
INHERIT = {("Tuple", "elts"), ("List", "elts"), ("Starred", "value")}
TARGETS = {STORE: ["Name", "Attribute", "Subscript", "Starred", "List", "Tuple"], DEL: ["Name", "Attribute", "Subscript", "List", "Tuple"]}


def required(kind, field, incoming):
    if (kind, field) in STORES:
        return STORE
    if (kind, field) in DELS:
        return DEL
    if (kind, field) in INHERIT:
        return incoming
    return LOAD


def reachable():
    """Combinations of node class and inherited context that a well-formed tree can contain."""
    todo = [(k, LOAD) for k in asdl.fields() if k not in ("Load", "Store", "Del")]
    seen = set(todo)
    while todo:
        k, s = todo.pop()
        for f, t, q in asdl.fields()[k]:
            if t != "expr":
                continue
            out = required(k, f, s)
            for k2 in TARGETS.get(out, asdl.members()["expr"]):
                if (k2, out) not in seen:
                    seen.add((k2, out))
                    todo.append((k2, out))
    return sorted(seen, key=str)


def class_of(ix, t):
    """Class of a freshly made object."""
    if t and t[0] == "call" and t[1][0] == "ref" and t[1][1] in ix.classes:
        return t[1][1]
    return None


def ctxfields(f, kind, T):
    """Is this path possible for nodes of the given class, as far as tests for the presence of a ctx field go?"""
    has = any(n == "ctx" for n, t, q in asdl.fields()[kind])
    for k, b in f.items():
        if k[0] == "cmp" and k[1] == "In" and k[2] == const("ctx") and k[3][0] == "attr" and k[3][2] == "_fields":
            if b != has:
                return False
        if k[0] == "in" and k[1] == const("ctx") and k[2][0] == "attr" and k[2][2] == "_fields" and b != has:
            return False
        if k[0] == "hasattr" and k[1] == T and k[2] == "ctx" and b != has and not has:
            return False
    return True


def check(c):
    ix = c.ix
    fi = ix.func("mcpyrate.astfixers.fix_ctx")
    T = P("tree")
    fixer, copier = None, None
    with c.section("C10:entry"):
        n = {True: 0, False: 0}
        for o in returns(c.paths(fi)):
            copying = truth(P("copy_seen_nodes"), o.state.facts)
            v = o.value
            w = at(c, fi, o)
            if not is_call(v, "visit"):
                c.unknown("C10:entry:walker", w, show(v)[:80])
                continue
            recv = v[1][1]
            cls = class_of(ix, recv)
            arg0 = argof(v, "tree", 0)
            if cls is None:
                c.unknown("C10:entry:walker", w, show(recv)[:80])
                continue
            fixer = (cls, recv)
            if copying is None:
                # the walker is told to copy
                c.unknown("C10:entry:mode", w, "copying does not depend on the argument on this path")
                continue
            n[copying] += 1
            if copying:
                inner = arg0
                if is_call(inner, "visit") and argof(inner, "tree", 0) == T and class_of(ix, inner[1][1]):
                    copier = (class_of(ix, inner[1][1]), inner[1][1])
                    c.ok("C10:entry:copies-first", w)
                else:
                    c.require("C10:entry:copies-first", False if inner == T else None, w, "shared nodes are not copied before the contexts are set up, so that a node at several positions gets conflicting contexts")
            else:
                c.require("C10:entry:tree", arg0 == T, w, f"contexts are fixed in {show(arg0)[:60]}")
        c.require("C10:entry:exercised", True if all(n.values()) else None, c.where(fi), f"{n}")
    if fixer is None:
        c.floor(40)
        return
    cls, recv = fixer
    # initial context
    with c.section("C10:root"):
        init = ix.find_method(cls, "__init__")
        got = argof(recv, "ctxclass")
        if got is None and init is not None:
            for o in c.paths(init, selfcls=cls, inline=["BaseASTWalker.__init__", "BaseASTWalker.reset", "reset"]):
                for e in o.state.trace:
                    if e.kind == "call":
                        a = argof(e, "ctxclass") or next((argof(x, "ctxclass") for x in subterms(e.b) if isinstance(x, tuple) and x and x[0] == "call" and argof(x, "ctxclass")), None)
                        if a is None and argof(e, "bindings") is not None:
                            a = next((v for k, v in (argof(e, "bindings")[1] if argof(e, "bindings")[0] == "dict" else ()) if k == const("ctxclass")), None)
                        got = got or a
        c.require("C10:root", None if got is None else got == LOAD, c.where(init) if init else "", f"the context at the root is {show(got) if got else '?'}")
    tr_fi = ix.find_method(cls, "transform")
    N = P(tr_fi.params()[1])
    states = {}
    for k, s in reachable():
        states.setdefault(k, []).append(s)
    for kind in sorted(states):
        key = f"C10:{kind}"
        with c.section(key):
            fs = asdl.fields()[kind]
            hasctx = any(n == "ctx" for n, t, q in fs)
            ps = [o for o in returns(c.paths(tr_fi, selfcls=cls, inline=["_fix_one", "_setup_subtree_contexts"], facts={("typeis", N, frozenset(["ast." + kind])): True})) if ctxfields(o.state.facts, kind, N)]
            if not ps:
                c.unknown(key, c.where(tr_fi), "no path")
                continue
            for o in ps:
                w = at(c, tr_fi, o)
                tr, f = o.state.trace, o.state.facts
                gv = [(i, e) for i, e in call_events(tr, "generic_visit", raising=False)]
                if not c.require(key + ":children", len(gv) == 1, w, f"the children of a {kind} are visited {len(gv)} times"):
                    continue
                gi, ge = gv[0]
                node = argof(ge, "node", "tree", 0)
                c.require(key + ":result", o.value == ge.c, w, f"a {kind} becomes {show(o.value)[:60]}")
                if node != N and not is_call(node, "copy.copy"):
                    c.unknown(key + ":node", w, show(node)[:60])
                    continue
                if hasctx:
                    v = o.state.heap.get((node, "ctx"))
                    ok = v is not None and v[0] == "call" and v[1][0] == "attr" and v[1][2] == "ctxclass"
                    if v is not None and v[0] == "call" and v[1] in (LOAD, STORE, DEL):
                        ok = False
                    c.require(key + ":ctx", False if v is None else ok or (False if v[0] == "call" and v[1][0] == "ref" else None), w, f"a {kind} gets {'no context' if v is None else 'context ' + show(v)[:60]}, not the one in force")
                given, odd = {}, False
                late = False
                for i, e in call_events(tr, "withstate", "generic_withstate", raising=False):
                    x, cc = argof(e, "tree", 0), argof(e, "ctxclass")
                    if cc is None and argof(e, "bindings") is not None and argof(e, "bindings")[0] == "dict":
                        cc = dict(argof(e, "bindings")[1]).get(const("ctxclass"))
                    if i > gi:
                        late = True
                    if callee(e.a).endswith("generic_withstate") and x == node:
                        for n2, t2, q2 in fs:
                            given[n2] = cc
                    elif x is not None and x[0] == "attr" and x[1] == node:
                        given[x[2]] = cc
                    elif x is not None and x[0] == "elem" and x[1][0] == "attr" and x[1][1] == node:
                        given[x[1][2]] = cc
                    else:
                        odd = True
                c.require(key + ":before", not late, w, f"the contexts below a {kind} are set up after its children have been visited")
                for n2, t2, q2 in fs:
                    if t2 != "expr":
                        continue
                    if truth(attr(node, n2), f) is False:
                        continue
                    for s in states[kind]:
                        want = required(kind, n2, s)
                        got = given.get(n2, s)
                        c.require(f"{key}.{n2}:{s[1][4:]}", None if odd and n2 not in given else got == want, w,
                                  f"{n2} of a {kind} that is itself in {s[1][4:]} context gets {show(got)}, Python requires {want[1]}")
    # copying
    if copier is not None:
        ccls, crecv = copier
        with c.section("C10:copy"):
            cf = ix.find_method(ccls, "transform")
            N = P(cf.params()[1])
            for kind in [k for k in sorted(asdl.fields()) if any(n == "ctx" for n, t, q in asdl.fields()[k])]:
                key = f"C10:copy:{kind}"
                n = own_lists = 0
                for o in returns(c.paths(cf, selfcls=ccls, facts={("typeis", N, frozenset(["ast." + kind])): True})):
                    tr, f = o.state.trace, o.state.facts
                    if not ctxfields(f, kind, N):
                        continue
                    w = at(c, cf, o)
                    seen = None
                    for k, b in f.items():
                        if k[0] in ("cmp", "in") and is_call(k[-2], "builtins.id") and argof(k[-2], 0) == N:
                            seen = b
                    gv = call_events(tr, "generic_visit", raising=False)
                    if len(gv) != 1:
                        c.require(key + ":children", False, w, "the children are not visited once")
                        continue
                    node = argof(gv[0][1], "node", "tree", 0)
                    c.require(key + ":result", o.value == gv[0][1].c, w, f"becomes {show(o.value)[:60]}")
                    if seen is None:
                        c.require(key + ":asked", False if node == N else None, w, f"a {kind} is not checked for having been seen before")
                        continue
                    n += 1
                    if seen:
                        c.require(key + ":copied", is_call(node, "copy.copy", "copy.deepcopy") and argof(node, 0) == N, w, f"a {kind} that was seen before is not copied")
                        if is_call(node, "copy.copy"):
                            for n2, t2, q2 in asdl.fields()[kind]:
                                if q2 != "*":
                                    continue
                                own = o.state.heap.get((node, n2))
                                loops = [e for e in tr if e.kind == "setattr" and e.a == node or e.kind == "call" and callee(e.a) == "builtins.setattr" and argof(e, 0) == node]
                                itf = any(e.kind in ("loop", "endloop") or is_call(e.c, "iter_fields") for e in tr if e.kind in ("loop", "endloop", "call"))
                                own_lists += bool(own is not None or loops)
                                if own is not None:
                                    c.require(key + ":lists", own != attr(N, n2) and strip_list(own) in (attr(N, n2), attr(node, n2)), w, f"the copy shares its {n2} list with the original")
                                elif loops:
                                    c.ok(key + ":lists", w)
                                elif itf and not loops:
                                    # a pass in which no list was met
                                    continue
                                else:
                                    c.bad(key + ":lists", w, f"the copy of a {kind} shares its {n2} list with the original, which is edited in place")
                    else:
                        c.require(key + ":first", node == N, w, f"a {kind} that was not seen before is replaced by {show(node)[:60]}")
                    adds = [e for e in tr if e.kind == "call" and e.a[0] == "attr" and e.a[2] == "add"]
                    ok = any(argof(e, 0) is not None and is_call(argof(e, 0), "builtins.id") and argof(argof(e, 0), 0) in (node, N) for e in adds)
                    c.require(key + ":remembered", ok, w, f"a {kind} is not remembered as seen")
                if any(q2 == "*" for n2, t2, q2 in asdl.fields()[kind]) and n >= 2:
                    deep = any(is_call(argof(e, "node", "tree", 0), "copy.deepcopy") for o in c.paths(cf, selfcls=ccls, facts={("typeis", N, frozenset(["ast." + kind])): True}) for _, e in call_events(o.state.trace, "generic_visit"))
                    c.require(key + ":own-lists", own_lists > 0 or deep, c.where(cf), f"the copy of a {kind} shares its list with the original, which is edited in place")
                c.require(key + ":exercised", True if n >= 2 else None, c.where(cf), "")
    c.floor(40)
