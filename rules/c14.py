"""Renaming reaches every identifier.

Rule: for every kind of node of the grammar of the running Python and every combination of absent and present identifiers and
of lists of identifiers, the renamer's code for one node is interpreted abstractly: on every path each identifier has been
compared for equality with the old name and is replaced by the new name exactly if it was equal, no other part is replaced,
and the walk goes on into the children.
"""
import itertools

from lib.asdl import fields, ftype, members
from lib.interp import argof, attr, callee, const, contains, is_call, name_matches, ref, show
from lib.q import at, call_events, norm_ctor, returns, where_of
from lib.render import N, Renderer

from .c10 import class_of

P = lambda n: ("param", n)
PURE = tuple("builtins." + x for x in ("any", "all", "len", "type", "isinstance", "getattr", "hasattr", "set", "list", "tuple", "str", "repr"))
PRODUCTS = ("arguments", "arg", "keyword", "alias", "withitem", "match_case", "comprehension")


def shapes(kind):
    """Presence of the optional parts and lengths of the lists of identifiers."""
    opts = []
    has_id = any(t == "identifier" for _, t, _ in fields()[kind])
    for f, t, q in fields()[kind]:
        if t == "identifier":
            opts.append([(f, v) for v in ((True, None) if q == "?" else ([], [True], [True, True], [True, True, True]) if q == "*" else (True,))])
        elif q == "*":
            opts.append([(f, [True]), (f, [])] if f not in ("body",) and has_id else [(f, [True])])
        elif q == "?":
            opts.append([(f, True), (f, None)])
    return [dict(x) for x in itertools.product(*opts)]


def check(c):
    ix = c.ix
    fi = ix.func("mcpyrate.utils.rename")
    R = Renderer(c)
    OLD = {P(fi.params()[0])}
    NEW = {P(fi.params()[1])}
    TREE = P(fi.params()[2])
    cls = None
    with c.section("C14:entry"):
        for o in returns(c.paths(fi)):
            w = at(c, fi, o)
            v = o.value
            vs = [e for _, e in call_events(o.state.trace, "visit") if argof(e, "tree", 0) == TREE and e.a[0] in ("attr", "bound")]
            if not vs:
                (c.bad if not any(e.kind in ("call", "loop") and (contains(e.a, TREE) or e.kind == "call" and contains(e.b, TREE)) for e in o.state.trace) else c.unknown)("C14:entry", w, "the tree is not walked")
                continue
            k = class_of(ix, vs[0].a[1])
            if k is None:
                c.unknown("C14:entry", w, show(vs[0].c)[:80])
                continue
            cls = k
            c.require("C14:entry:returns", True if v in (vs[0].c, TREE) else None, w, f"returns {show(v)[:60]}")
            recv = vs[0].a[1]
            # names handed to the walker instead of being closed over
            init = ix.find_method(cls, "__init__")
            if is_call(recv) and recv[2] and init is not None and init.qualname.startswith(cls):
                for oi in returns(c.paths(init, selfcls=cls)):
                    for i, (a, x) in enumerate(recv[2]):
                        pname = a if isinstance(a, str) else (init.params()[1:] + [None])[i]
                        for S, names in ((OLD, P(fi.params()[0])), (NEW, P(fi.params()[1]))):
                            if x == names:
                                for (obj, f), val in oi.state.heap.items():
                                    if val == P(pname) and obj == P("self"):
                                        S.add(attr(obj, f))
    if cls is None:
        c.unknown("C14:walker", c.where(fi), "no walker found")
        return
    for S, n in ((OLD, fi.params()[0]), (NEW, fi.params()[1])):
        S.add(("free", fi.qualname, n))
    tr = ix.find_method(cls, "transform") or ix.find_method(cls, "visit")
    T = P(tr.params()[1])
    for kind in sorted({k for s in members() for k in members()[s]} | set(PRODUCTS)):
        if kind not in fields():
            continue
        key = f"C14:{kind}"
        for shape in shapes(kind):
            with c.section(key, c.where(tr)):
                st = {"facts": {}, "heap": {}, "names": {}, "typed": {}}
                R.node(T, N(kind, **shape), "", st)
                for x in OLD | NEW:
                    st["facts"][("isnone", x)] = False
                    st["facts"][x] = True
                R.runs += 1
                for o in returns(c.paths(tr, selfcls=cls, facts=st["facts"], heap=st["heap"], shapes=True, max_paths=8000)):
                    one(c, key, kind, shape, o, st, T, OLD, NEW, at(c, tr, o))
    c.stats["shapes"] = R.runs
    c.floor(120)


def one(c, key, kind, shape, o, st, T, OLD, NEW, w):
    tr = o.state.trace
    atoms = [e for e in tr if e.kind == "assume"]

    def slot(name, orig, now):
        eq = {e.b for e in atoms if e.a[0] == "cmp" and e.a[1] in ("Eq", "Is") and orig in e.a[2:] and (set(e.a[2:]) - {orig}) & OLD}
        other = [e for e in atoms if contains(e.a, orig) and not (e.a[0] == "cmp" and e.a[1] in ("Eq", "Is"))]
        inexact = [e for e in other if e.a[0] == "cmp" and e.a[1] == "In" and e.a[3] == orig
                   or e.a[0] == "call" and name_matches(callee(e.a[1]), "startswith", "endswith", "find", "count", "search", "match", "fullmatch")]
        what = f"{name} of {kind}"
        same = [e for e in atoms if e.a[0] == "cmp" and e.a[1] == "Is" and orig in e.a[2:] and (set(e.a[2:]) - {orig}) & OLD]
        if same:
            c.bad(key, w, f"{what} is compared by identity, though equal names need not be the same object")
        elif eq == {True, False}:
            c.unknown(key, w, what)
        elif now in NEW:
            if eq == {True}:
                c.ok(key, w, f"{what} is renamed if equal")
            elif eq == {False} or inexact or not other:
                c.bad(key, w, f"{what} is replaced though it is not {'exactly ' if inexact else ''}the old name")
            else:
                c.unknown(key, w, f"{what} under {show(other[0].a)[:60]}")
        elif now == orig:
            if eq == {False}:
                c.ok(key, w, f"{what} is kept if different")
            elif eq == {True} or not other:
                c.bad(key, w, f"{what} is not renamed")
            else:
                c.unknown(key, w, f"{what} under {show(other[0].a)[:60]}")
        elif is_call(now, "replace", "sub") and contains(now, orig):
            c.bad(key, w, f"parts of {what} are replaced")
        elif now[0] == "const" or not contains(now, orig) and not any(contains(now, x) for x in NEW):
            c.bad(key, w, f"{what} becomes {show(now)[:60]}")
        else:
            c.unknown(key, w, f"{what} becomes {show(now)[:60]}")

    loops = any(e.kind == "loop" for e in tr)
    for f, t, q in fields()[kind]:
        v = shape.get(f, True if q != "*" else [])
        x = attr(T, f)
        start = st["heap"].get((T, f), x)
        now = o.state.heap.get((T, f), start)
        if t != "identifier":
            c.require(key + ":others", now == start and (start[0] != "new" or o.state.heap.get((start, "#")) == st["heap"].get((start, "#"))), w, f"{f} of {kind} is changed") if now != start else None
            continue
        if v is None:
            c.require(key, now == start, w, f"{f} of {kind} is set though absent")
        elif q == "*":
            items = o.state.heap.get((now, "#")) if now[0] == "new" else now[1] if now[0] in ("list", "tuple") else None
            orig = st["heap"][(start, "#")]
            if items is None or loops:
                c.unknown(key, w, f"list {f} of {kind}")
            elif now[0] == "tuple" or len(items) != len(orig):
                c.bad(key, w, f"{f} of {kind} becomes {show(now)[:60]} of {len(items)} names")
            else:
                for i, (a, b) in enumerate(zip(orig, items)):
                    slot(f"{f}[{i}]", a, b)
        else:
            slot(f, x, now)
    # the walk goes on
    sums = set(members()) | set(PRODUCTS)
    if any(t in sums and t not in ("expr_context", "operator", "unaryop", "boolop", "cmpop") for f, t, q in fields()[kind]):
        gv = [e for _, e in call_events(tr, "generic_visit", "generic_withstate") if argof(e, "tree", 0, "node") == T]
        vis = [e for _, e in call_events(tr, "visit", "visit_children")]
        c.require(f"{key}:descend", True if gv else None if vis or any(e.kind == "call" and not is_call(e.c, *PURE) for e in tr) else False, w, f"the children of {kind} are not visited")
    v = o.value
    c.require(f"{key}:result", v == T or is_call(v, "generic_visit") or (False if norm_ctor(v) is not None else None if v[0] in ("call", "attr") else False), w, f"a {kind} is replaced by {show(v)[:60]}")
