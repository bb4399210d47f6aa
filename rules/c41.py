"""A bundle of named values acts on the mapping it holds.

Rule, per method of the bundle class, on its abstract paths: the store is the attribute that the constructor fills with its
bindings; reading, testing, counting, iterating, comparing, writing and deleting give or change exactly what the same
operation on the store would; names of the bundle's own machinery and methods are not written through attribute access;
a copy and a replacement get a store of their own with the same content; converting a mapping uses that very mapping as the
store, returns a bundle as it is, and is reached only when the mapping tests and the identifier test succeeded.
"""
import ast

from lib.alias import Renamed
from lib.interp import FALSE, NONE, TRUE, attr, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, returns, where_of
from rules import c33

MB = "mcpyrate.bunch.Bunch"
P = lambda n: ("param", n)
S = P("self")


def check(c):
    ix = c.ix
    with c.section("C41:store"):
        c33.bunch(Renamed(c, lambda k: "C41:" + k[len("C33:bunch:"):] if k.startswith("C33:bunch:") else None), ix)
    D = store(c, ix)
    if D is None:
        c.unknown("C41:form", "", "the store of a bundle is not found")
        return
    DT = attr(S, D)
    with c.section("C41:views"):
        views(c, ix, DT)
    with c.section("C41:replace"):
        replace(c, ix, D)
    with c.section("C41:reserved"):
        reserved(c, ix, D)
    with c.section("C41:bunchify"):
        convert(c, ix, D)
    c.floor(15)


def store(c, ix):
    fi = ix.find_method(MB, "__init__")
    for o in returns(c.paths(fi)):
        for e in o.state.trace:
            if e.kind == "setattr" and e.a == S and contains(e.c, P("bindings")):
                return e.b
    return None


def method(t, base):
    """the name of the method of `base` that the term calls"""
    if isinstance(t, tuple) and t and t[0] == "call" and t[1][0] in ("attr", "bound") and len(t[1]) > 2 and t[1][1] == base:
        return t[1][2].rpartition(".")[2]
    return None


def expanded(t, st, depth=0):
    """the term with the content of new containers"""
    if not isinstance(t, tuple) or depth > 6:
        return t
    if t and t[0] == "new":
        return (t, tuple(expanded(x, st, depth + 1) for x in st.heap.get((t, "#"), ())))
    return tuple(expanded(x, st, depth + 1) if isinstance(x, tuple) else x for x in t)


def views(c, ix, DT):
    def outs(name):
        fi = ix.find_method(MB, name)
        if fi is None:
            return None, [], []
        va = fi.node.args.vararg
        names = [p for p in fi.params()[1:] if va is None or p != va.arg] + ([va.arg] if va is not None else [])
        return fi, [P(p) for p in names], c.paths(fi)

    def judge(name, good, fi, o, what):
        c.require(f"C41:{name.strip('_')}", good, at(c, fi, o), f"{what}: gives {show(o.value)[:80]}")

    fi, _, ps = outs("__len__")
    for o in ps:
        v = o.value
        ok = o.kind == "return" and (is_call(v, "builtins.len") and (argof(v, 0) == DT or method(argof(v, 0), DT) in ("keys", "values", "items")) or v == ("len", DT) or method(v, DT) == "__len__")
        judge("__len__", True if ok else False if o.kind == "raise" or v[0] == "const" or not contains(v, DT) and not contains(v, S) else False if v[0] in ("op", "binop") else None, fi, o, "counting does not give the number of stored values")
    fi, _, ps = outs("__iter__")
    for o in ps:
        v = o.value
        m = method(v, DT) or (method(argof(v, 0), DT) if is_call(v, "builtins.iter") else None)
        ok = m in ("__iter__", "keys") or is_call(v, "builtins.iter") and argof(v, 0) == DT
        judge("__iter__", True if ok else False if o.kind == "raise" or m in ("values", "items", "__reversed__") or is_call(v, "builtins.iter") and is_call(argof(v, 0), "builtins.sorted", "builtins.reversed", "builtins.set") or is_call(v, "builtins.reversed") else None, fi, o, "iterating does not give the stored names in order")
    for name, wrong in (("__eq__", "ne"), ("__ne__", "eq")):
        fi, args, ps = outs(name)
        if fi is None:
            if name == "__eq__":
                c.bad("C41:eq", "", "bundles are compared by identity")
            continue
        O = args[0]
        sides = {DT, O}
        for o in ps:
            v = o.value
            neg = False
            while v[0] == "not":
                neg, v = not neg, v[1]
            good = None
            if o.kind == "raise":
                good = False
            elif v[0] == "cmp" and v[1] in ("Eq", "NotEq"):
                isne = (v[1] == "NotEq") != neg
                x, y = v[2], v[3]
                same = {x, y} == sides or {x, y} <= {DT, O, attr(O, DT[2])} and DT in (x, y) and len({x, y}) == 2
                if same:
                    good = isne == (name == "__ne__")
                elif {x, y} == {O, S} and name == "__ne__":
                    good = isne
                elif contains((x, y), ref("builtins.len")) or contains((x, y), attr(DT, "keys")) and not contains((x, y), attr(DT, "values")):
                    good = False
            elif v[0] == "cmp" and v[1] in ("Is", "IsNot") or v[0] == "const" and not any(e.kind == "assume" for e in o.state.trace):
                good = False
            elif v == ref("builtins.NotImplemented") or v[0] == "const":
                good = None
            judge(name, good, fi, o, "comparing is not comparing the stored values")
    fi, args, ps = outs("get")
    if fi is not None and len(args) > 1:
        NM, DF = args[:2]
        dflt = fi.node.args.defaults
        if dflt:
            c.require("C41:get:default", True if isinstance(dflt[-1], ast.Constant) and dflt[-1].value is None else None, c.where(fi), "")
        for o in ps:
            v, f = o.value, o.state.facts
            inn = [b for k, b in f.items() if isinstance(k, tuple) and k[0] == "cmp" and k[1] == "In" and k[2] == NM and k[3] in (S, DT)]
            reads = v in (("sub", S, NM), ("sub", DT, NM)) or method(v, DT) in ("__getitem__",) or method(v, S) in ("__getitem__", "__getattr__") or is_call(v, "builtins.getattr")
            good = None
            if o.kind == "raise":
                good = None if any(e.kind in ("except", "callraise") for e in o.state.trace) else False
            elif method(v, DT) == "get" and [x for _, x in v[2]] == [NM, DF]:
                good = True
            elif method(v, DT) == "get" and [x for _, x in v[2]] == [NM]:
                good = False
            elif is_call(v, "builtins.getattr") and argof(v, 0) == S:
                # methods would be found as well
                good = False
            elif reads:
                good = True if inn == [True] else False if inn == [False] else None
            elif v == DF:
                good = True if inn == [False] else False if inn == [True] else None if any(isinstance(k, tuple) and contains(k, NM) for k in f) else False
                if any(isinstance(k, tuple) and (k == ("sub", DT, NM) or k == ("sub", S, NM) or method(k, DT) == "get") for k in f):
                    good = False
            elif v == NONE:
                good = False if not any(e.kind == "except" for e in o.state.trace) else None
            elif v[0] == "or" or v[0] == "boolop":
                good = False
            judge("get", good, fi, o, "a value with a default is not the stored one, or the default where there is none")
    # in place or by return value: what is done with the name must concern the store
    for name in ("pop", "setdefault"):
        fi, args, ps = outs(name)
        for o in ps:
            if fi is None or o.kind != "return":
                continue
            calls = [e.c for e in o.state.trace if e.kind == "call" and method(e.c, DT)]
            if calls and method(calls[-1], DT) == name:
                n = len(calls[-1][2])
                extra = [x for _, x in calls[-1][2]][1:]
                c.require(f"C41:{name}:default", bool(extra) or None if len(args) < 2 else bool(extra), at(c, fi, o), "the default given is not used")
                c.require(f"C41:{name}:value", o.value == calls[-1] or (False if o.value == NONE else None), at(c, fi, o), "the value is not returned")
    for name in ("popitem", "keys", "values", "items", "__getitem__", "__contains__"):
        fi, args, ps = outs(name)
        if fi is None:
            c.bad(f"C41:{name.strip('_')}", "", f"there is no {name}")
            continue
        for o in ps:
            if o.kind == "return":
                c.require(f"C41:{name.strip('_')}:value", False if o.value == NONE else True if contains(o.value, DT) else None, at(c, fi, o), "nothing is returned")
                m = method(o.value, DT)
                known = {"popitem", "keys", "values", "items", "__getitem__", "__contains__", "get", "pop", "__iter__"}
                c.require(f"C41:{name.strip('_')}:same", False if m in known and m != name and not (name == "__getitem__" and m == "get" and False) else True, at(c, fi, o), f"does {m} of the store instead")
    # what each operation may do to the store
    MUT = {"__setitem__", "__delitem__", "pop", "popitem", "clear", "update", "setdefault"}
    READ = {"__getitem__", "__contains__", "__iter__", "keys", "values", "items", "get", "__len__", "copy"}
    can = {"__contains__": {"__contains__", "keys"}, "__getitem__": {"__getitem__"}, "__setitem__": {"__setitem__", "update"}, "__delitem__": {"__delitem__", "pop"}, "pop": {"pop", "__contains__", "__getitem__", "__delitem__"},
           "popitem": {"popitem"}, "clear": {"clear", "popitem", "keys", "__iter__", "pop"}, "update": {"update", "__setitem__"}, "setdefault": {"setdefault", "__contains__", "__getitem__", "__setitem__"},
           "__setattr__": {"__setitem__", "update"}, "__delattr__": {"__delitem__", "pop", "__contains__"}, "keys": {"keys"}, "values": {"values"}, "items": {"items"}, "__len__": {"__len__", "keys", "values", "items"}, "__iter__": {"__iter__", "keys"}}
    for name, allowed in can.items():
        fi, args, ps = outs(name)
        key = f"C41:{name.strip('_')}"
        for o in ps:
            w, v, tr = at(c, fi, o), o.value, o.state.trace
            for e in tr:
                m = method(e.c, DT) if e.kind == "call" else None
                if m in MUT | READ:
                    c.require(key + ":does", True if m in allowed else False if m in MUT or o.kind == "return" and contains(v, e.c) else None, where_of(e, w), f"does {m} of the store")
                if m == "pop" and name in ("__delitem__", "__delattr__"):
                    c.require(key + ":missing", len(e.c[2]) < 2, where_of(e, w), "deleting what is not there goes unnoticed")
                if m == "setdefault" and name == "setdefault" or m == "pop" and name == "pop":
                    star = [x for x in subterms(e.c) if len(args) > 1 and x == args[1]]
                    c.require(key + ":given", True if star else None if len(args) < 2 or any(isinstance(k, tuple) and contains(k, args[1]) for k in o.state.facts) else False, where_of(e, w), "the default given is not used")
                if e.kind == "setattr" and e.a == S and e.b == DT[2]:
                    c.require(key + ":same-store", False if not contains(e.c, DT) or e.c[0] in ("dict", "new", "binop", "op") or is_call(e.c, "builtins.dict") else None, where_of(e, w), "the bundle gets another store, and the mapping it was made from does not change with it")
                if e.kind == "call" and name in ("__setitem__", "__delitem__", "__getitem__") and (method(e.c, S) in ("__setattr__", "__delattr__", "__getattr__") or is_call(e.c, "builtins.setattr", "builtins.delattr", "builtins.getattr") and argof(e.c, 0) == S):
                    c.require(key + ":subscript", False if name != "__getitem__" or is_call(e.c, "builtins.getattr") else None, where_of(e, w), "access by subscript obeys the limits of access by attribute")
            if name in ("__delitem__", "__delattr__"):
                put = [e for e in tr if e.kind == "setitem" and e.a == DT]
                if put:
                    c.bad(key + ":does", where_of(put[0], w), "the name stays, with another value")
            if o.kind == "return" and name == "__contains__":
                if v[0] == "not" and v[1][0] == "isnone" or v[0] == "isnone" or v[0] == "cmp" and v[1] in ("Is", "IsNot") or is_call(v, "builtins.bool") and method(argof(v, 0), DT) == "get" or method(v, DT) == "get":
                    c.bad(key + ":does", w, "a name with an empty value counts as missing")
                elif v[0] == "cmp" and v[1] == "In":
                    c.require(key + ":in", True if v[2] == args[0] and (v[3] == DT or method(v[3], DT) == "keys") else False if method(v[3], DT) in ("values", "items") else None, w, show(v)[:60])
            if o.kind == "return" and name in ("keys", "values", "items", "__iter__"):
                wrap = v if v[0] == "call" and v[1][0] == "ref" else None
                if wrap is not None and is_call(wrap, "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.reversed") or v[0] in ("set", "frozenset"):
                    c.bad(key + ":view", w, f"order or repeated values are lost: {show(v)[:60]}")
                if is_call(v, "builtins.iter") and is_call(argof(v, 0), "builtins.set", "builtins.sorted", "builtins.reversed"):
                    c.bad(key + ":view", w, f"the order is lost: {show(v)[:60]}")
            if name in ("__len__", "__iter__", "keys", "values", "items") and o.kind == "return":
                reps = [x for x in subterms(expanded(v, o.state)) if isinstance(x, tuple) and len(x) == 4 and x[0] == "rep" and x[3]]
                c.require(key + ":filtered", not reps, w, "some of the stored values are left out")
    fi, args, ps = outs("__delattr__")
    if fi is not None:
        for o in ps:
            gone = [e for e in o.state.trace if e.kind == "delitem" and e.a in (DT, S) and e.b == args[0] or e.kind == "call" and method(e.c, DT) in ("pop", "__delitem__") and argof(e.c, 0) == args[0]]
            if o.kind == "return":
                c.require("C41:delattr", True if gone else None if o.state.trace else False, at(c, fi, o), "deleting an attribute does not delete the stored value")


def replace(c, ix, D):
    fi = ix.find_method(MB, "replace")
    if fi is None:
        return
    O = P(fi.params()[1])
    OD = attr(O, D)
    DT = attr(S, D)
    n = 0
    for o in c.paths(fi):
        w, f, tr = at(c, fi, o), o.state.facts, o.state.trace
        isb = [b for k, b in f.items() if isinstance(k, tuple) and k[0] in ("isinst", "typeis") and k[1] == O]
        if o.kind == "raise":
            c.require("C41:replace:rejects", True if False in isb else None, w, "")
            continue
        n += 1
        sets = [e for e in tr if e.kind == "setattr" and e.a == S and e.b == D]
        upd = [e for e in tr if e.kind == "call" and method(e.c, DT) in ("update", "clear")]
        c.require("C41:replace:type", True if True in isb else False if not isb and not any(isinstance(k, tuple) and contains(k, O) for k in f) else None, w, "something that is no bundle is taken over")
        if sets:
            v = sets[-1].c
            own = v != OD and v != O
            fresh = v[0] in ("dict", "new") or is_call(v, "builtins.dict", "copy.copy", "copy.deepcopy") or method(v, OD) == "copy" or v[0] == "attr" and v[2] == D and method(v[1], O) == "copy"
            c.require("C41:replace:independent", False if not own else True if fresh else None, where_of(sets[-1], w), "after a replacement both bundles share one store")
            c.require("C41:replace:content", True if any(x in (O, OD) for x in subterms(v)) else None if v[0] in ("new", "dict") and tr[0] is not sets[-1] else False, where_of(sets[-1], w), "the data of the other bundle is not taken over")
        elif upd:
            names = [method(e.c, DT) for e in upd]
            c.require("C41:replace:all", False if names == ["update"] else None, w, "values that the other bundle does not have are kept")
        else:
            c.require("C41:replace:content", None if any(e.kind == "call" for e in tr) else False, w, "nothing is replaced")
    c.require("C41:replace:exercised", n > 0 or None, c.where(fi), "")


def reserved(c, ix, D):
    fi = ix.find_method(MB, "__init__")
    R = None
    for o in returns(c.paths(fi)):
        for e in o.state.trace:
            if e.kind == "setattr" and e.a == S and e.b != D:
                R = e.b
                last = e.c
    sa = ix.find_method(MB, "__setattr__")
    NM = P(sa.params()[1])
    if R is not None:
        c.require("C41:reserved:names", True if is_call(last, "builtins.dir") else False if last[0] in ("list", "set", "tuple", "const") and not last[1:] or last == ("list", ()) else None, c.where(fi), f"the reserved names are {show(last)[:60]}")
    rejected = 0
    for o in c.paths(sa):
        f, w = o.state.facts, at(c, sa, o)
        res = [b for k, b in f.items() if isinstance(k, tuple) and (k[0] == "cmp" and k[1] == "In" and k[2] == NM and R is not None and k[3] == attr(S, R))]
        own = [k for k, b in f.items() if b and isinstance(k, tuple) and k[0] == "in" and k[1] == NM]
        if o.kind == "raise":
            if True in res:
                rejected += 1
                c.require("C41:reserved:error", True if is_call(o.value, "builtins.AttributeError") else None, w, "")
            continue
        puts = [e for e in o.state.trace if e.kind == "setitem" and e.a == attr(S, D)]
        if puts and R is not None:
            c.require("C41:reserved:kept", True if False in res else False if True in res or not any(isinstance(k, tuple) and contains(k, attr(S, R)) for k in f) and not any(isinstance(k, tuple) and k[0] == "call" for k in f) else None, w, "a value can be stored under a name that a method has")
        sup = [e for e in o.state.trace if e.kind == "call" and e.c[0] == "call" and e.c[1][0] in ("attr", "bound") and e.c[1][2] == "__setattr__"]
        if sup and own:
            more = {x[2] for k in own if isinstance(k[2], frozenset) for x in k[2] if x[0] == "const"} - {D, R}
            c.require("C41:reserved:own", not more or (None if all(x.startswith("_") for x in more) else False), w, f"a value named {', '.join(sorted(more))} is not stored in the mapping")
    if R is not None:
        c.require("C41:reserved:rejects", True if rejected else None, c.where(sa), "")


def convert(c, ix, D):
    fi = ix.func("mcpyrate.bunch.bunchify")
    X = P(fi.params()[0])
    n = 0
    isb = lambda f: next((b for k, b in f.items() if isinstance(k, tuple) and k[0] in ("isinst", "typeis") and k[1] == X and any(q.endswith("Bunch") for q in k[2])), None)
    for o in c.paths(fi):
        f, w, tr, v = o.state.facts, at(c, fi, o), o.state.trace, o.value
        b = isb(f)
        if o.kind == "raise":
            c.require("C41:bunchify:bundle", b is not True, w, "a bundle is rejected")
            continue
        if v == X:
            c.require("C41:bunchify:bundle", True if b else False if b is False else None, w, "something that is no bundle is returned as it is")
            continue
        n += 1
        c.require("C41:bunchify:bundle", False if b or b is None and not any(isinstance(k, tuple) and k[0] in ("isinst", "typeis") for k in f) else True, w, "a bundle is not returned as it is")
        # the store is the very mapping
        sets = [e for e in tr if e.kind == "setattr" and e.b == D]
        if sets:
            s = sets[-1]
            c.require("C41:bunchify:shared", True if s.c == X else False if contains(s.c, X) and (is_call(s.c, "builtins.dict", "copy.copy", "copy.deepcopy") or method(s.c, X) == "copy" or s.c[0] in ("dict", "new")) or not contains(s.c, X) and s.c[0] in ("dict", "const") else None, where_of(s, w), f"the store of the bundle is {show(s.c)[:60]}, not the mapping itself")
            c.require("C41:bunchify:result", True if s.a == v else None, w, "")
        elif is_call(v, MB):
            c.require("C41:bunchify:shared", False if any(k == "**" for k, _ in v[2]) or not v[2] else None, w, "the bundle has a copy of the mapping, or none of it")
        # the tests
        ids = [k for k in f if isinstance(k, tuple) and any(isinstance(x, tuple) and x and x[0] == "attr" and x[2] == "isidentifier" for x in subterms(k))]
        good = [k for k in ids if f[k]]
        # a test in a loop of its own
        looped = [e for e in tr if e.kind == "assume" and isinstance(e.a, tuple) and any(isinstance(x, tuple) and x and x[0] == "attr" and x[2] == "isidentifier" for x in subterms(e.a))]
        alls = [k for k in good if is_call(k, "builtins.all")]
        anys = [k for k in good if is_call(k, "builtins.any")]
        c.require("C41:bunchify:identifiers", True if alls else False if anys or not ids and not looped and not any(isinstance(k, tuple) and k[0] == "new" or isinstance(k, tuple) and is_call(k, "builtins.any", "builtins.all", "builtins.len") and "comp" not in k for k in f if isinstance(k, tuple) and contains(k, X)) and not any(e.kind == "call" and e.c[0] == "call" and e.c[1][0] == "ref" and e.c[1][1].startswith("mcpyrate") and not is_call(e.c, MB) for e in tr) else None, w, "names that are no identifiers are accepted")
        for k in alls:
            srcs = [x[1] for x in subterms(k) if isinstance(x, tuple) and x and x[0] == "rep"]
            c.require("C41:bunchify:every", False if any(s[0] == "sub" and s[2][0] == "slice" for s in srcs) else True, w, "only some names are checked")
        maps = [k for k in f if isinstance(k, tuple) and (k[0] in ("isinst", "typeis") and k[1] == X and not all(q.endswith("Bunch") for q in k[2]) or is_call(k, "builtins.all", "builtins.any", "builtins.isinstance") and not any(isinstance(x, tuple) and x and x[0] == "attr" and x[2] == "isidentifier" for x in subterms(k)))]
        for k in maps:
            for x in subterms(k):
                if isinstance(x, tuple) and x and x[0] == "ref" and x[1].startswith("mcpyrate.bunch."):
                    m, e = ix.global_value(x[1])
                    if isinstance(e, (ast.Tuple, ast.List)) and f[k]:
                        names = {n.id if isinstance(n, ast.Name) else getattr(n, "attr", "?") for n in e.elts}
                        c.require("C41:bunchify:mutable", True if "MutableMapping" in names or "dict" in names else False, w, "something that is no mutable mapping is accepted")
        anym = [k for k in maps if is_call(k, "builtins.any") and f[k] and any(is_call(x, "builtins.isinstance") for x in subterms(k))]
        c.require("C41:bunchify:mapping", False if anym or not maps and not looped and not any(e.kind == "call" and e.c[0] == "call" and e.c[1][0] == "ref" and e.c[1][1].startswith("mcpyrate") and not is_call(e.c, MB) for e in tr) else True if any(f[k] for k in maps) else None, w, "something that is no mapping is accepted")
    c.require("C41:bunchify:exercised", n > 0 or None, c.where(fi), "")
