"""Higher phases are lifted completely, in order and independently.

Rule: the extraction of phase k is analysed on module bodies of many shapes (phase statements with the numbers 1, 2 and 3, future-imports,
other statements): the phase consists of the future-imports and the bodies of the statements for phase k, in order; what remains has, in
the place of each of these, a deep copy of its body (phase 1) or a deep copy of the statement with its number less one, made after
the number was changed; other statements stay in place. The highest phase is the maximum over the statements. A phase statement is
recognised only if all of its conditions hold. The compiler goes through the phases from the highest to zero, extracts each, gives
each the number constant, runs the higher ones in one module made before, and expands phase zero.
"""
import itertools

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, call_events, norm_ctor, returns, where_of
from lib.shape import P, first, flat, items_of, kind, m_future, stmts

MP = "mcpyrate.multiphase."


def m_phase(pos, kw, st):
    t = first(pos, kw)
    if t[0] == "param" and t[1][:1] == "s":
        k = kind_(t)
        return const(int(k)) if k.isdigit() else FALSE
    return None


def kind_(t):
    return t[1].split("_", 1)[1] if "_" in t[1] else t[1][2:]


def extract(c, fi, kinds, k):
    """paths of extracting phase k: (outcome, statements, statements of the phase, remaining statements)"""
    s = tuple(P(f"s{i}{x}") for i, x in enumerate(kinds))
    ps = fi.params()
    T = P(ps[0])
    L = ("new", "list", 999999)
    heap = {(T, "body"): L, (L, "#"): s}
    facts = {}
    for x in s:
        if kind_(x).isdigit():
            it = ("sub", attr(x, "items"), const(0))
            sl = attr(attr(it, "context_expr"), "slice")
            facts[("typeis", sl, frozenset(["ast.Constant"]))] = True
            facts[("isinst", sl, frozenset(["ast.Constant"]))] = True
            facts[("typeis", x, frozenset(["ast.With"]))] = True
    out = []
    for o in c.paths(fi, bind={"phase": const(k)}, heap=heap, facts=facts, shapes=True,
                     models={"mcpyrate.coreutils.isfutureimport": m_future, MP + "iswithphase": m_phase}):
        if o.kind != "return":
            out.append((o, s, None, None))
            continue
        rest = items_of(o.state.heap.get((T, "body"), L), o.state)
        b = o.state.heap.get((o.value, "body"))
        if b is None:
            kk = norm_ctor(o.value)
            b = kk[1].get("body") if kk else None
        this = items_of(b, o.state) if b is not None else None
        if b is not None and b[0] == "attr" and b[2] == "body" and b[1] in s:
            this = [("star", b)]
        out.append((o, s, this, rest))
    return out


def check(c):
    ix = c.ix
    with c.section("C26:extract"):
        extraction(c, ix.func(MP + "extract_phase"))
    with c.section("C26:highest"):
        fi = ix.func(MP + "detect_highest_phase")
        T = P(fi.params()[0])
        for m in range(1, 5):
            for kinds in itertools.product("O12" if m > 2 else "O123", repeat=m):
                s = tuple(P(f"s{i}{x}") for i, x in enumerate(kinds))
                L = ("new", "list", 999999)
                want = max([int(x) for x in kinds if x.isdigit()], default=None)
                for o in c.paths(fi, heap={(T, "body"): L, (L, "#"): s}, shapes=True, models={MP + "iswithphase": m_phase}):
                    v, w = o.value, at(c, fi, o)
                    if o.kind != "return" or v[0] != "const" and v != NONE:
                        c.unknown("C26:highest", w, f"{show(v)[:60]}")
                        continue
                    got = v[2] if v[0] == "const" and v != FALSE else None
                    c.require("C26:highest", got == want or (want is None and not got), w, f"the highest phase of {'/'.join(kinds)} is found to be {show(v)}")
    with c.section("C26:accepted"):
        accepted(c, ix.func(MP + "iswithphase"))
    with c.section("C26:flag"):
        flag(c, ix.func(MP + "ismultiphase"))
    with c.section("C26:driver"):
        driver(c, ix.func(MP + "multiphase_expand"))
    c.floor(30)


def is_copy_of(x, t):
    return is_call(x, "copy.deepcopy") and argof(x, 0, "x") == t


def shallow(t):
    """a new list with the same statements, or with copies that share their parts"""
    if contains(t, ref("copy.deepcopy")):
        return False
    return is_call(t, "builtins.list") or contains(t, ref("copy.copy")) or t[0] == "sub" and t[2][0] == "slice"


def extraction(c, fi):
    shapes = [t for n in (1, 2, 3) for t in itertools.product("FO12", repeat=n) if "F" not in "".join(t).lstrip("F") and any(x.isdigit() for x in t)]
    shapes += [("F", "O", "3", "1", "O"), ("3", "2", "1"), ("O", "3", "O", "3"), ("F", "2", "O", "2", "1", "O"), ("3",)]
    n = 0
    for kinds in shapes:
        for k in (1, 2, 3):
            if str(k) not in kinds:
                continue
            ex = extract(c, fi, kinds, k)
            looped = any(e.kind == "loop" and any(contains(e.a, attr(x, "body")) for x in s) for o, s, _, _ in ex for e in o.state.trace)
            for o, s, this, rest in ex:
                w = at(c, fi, o)
                if looped and not all(any(e.kind == "loop" and contains(e.a, attr(x, "body")) for e in o.state.trace) for x in s if kind_(x) == str(k)):
                    c.unknown("C26:extract", w, "a phase without code")
                    continue
                what = f"phase {k} of {'/'.join(kinds)}"
                if o.kind != "return":
                    c.bad("C26:extract", w, f"extracting {what} raises {show(o.value)[:50]}")
                    continue
                if this is None or rest is None:
                    c.unknown("C26:extract", w, "form not recognised")
                    continue
                n += 1
                mine = [x for x in s if kind_(x) == str(k)]
                code = [x for x in this if not (x[0] == "param" and kind_(x) == "F")]
                want = [("star", attr(x, "body")) for x in mine]
                alt = [("star", ("call", ref("copy.deepcopy"), attr(x, "body"))) for x in mine]
                okc = code == want or [x[1] if x[0] == "star" else x for x in code] == [attr(x, "body") for x in mine] and all(x[0] == "star" for x in code)
                deep = len(code) == len(mine) and all(x[0] == "star" and (x[1] == attr(y, "body") or is_copy_of(x[1], attr(y, "body"))) for x, y in zip(code, mine))
                strange = [x for x in code if x[0] not in ("star", "param") or x[0] == "star" and not any(contains(x, attr(y, "body")) for y in s)]
                c.require("C26:extract:code", okc or deep or (None if strange else False), w, f"{what} consists of {', '.join(show(x) for x in code)[:120]}")
                c.require("C26:extract:tree", o.value != P(fi.params()[0]) and not (o.value == P(fi.params()[0])), w, "the phase is the module itself")
                # what remains
                pos = 0
                for x in s:
                    have = rest[pos] if pos < len(rest) else None
                    if kind_(x) != str(k):
                        c.require("C26:extract:other", have == x or (None if have is not None and have[0] not in ("param", "star") and not is_call(have, "copy.deepcopy") else False), w, f"a statement that is not of {what} does not stay in place")
                        pos += 1
                        continue
                    if have is None:
                        c.bad("C26:extract:lifted", w, f"code of {what} is missing below")
                        continue
                    if k == 1:
                        body = have[1] if have[0] == "star" else None
                        okb = body is not None and (is_copy_of(body, attr(x, "body")) or contains(body, attr(x, "body")) and shallow(body))
                        c.require("C26:extract:lifted", okb or body is not None and body == attr(x, "body") or (None if contains(have, attr(x, "body")) else False), w, f"code of {what} is not at the same place below")
                        if body is not None and (body == attr(x, "body") or shallow(body)):
                            indep = deep and all(is_copy_of(y[1], attr(x, "body")) for y in code if contains(y, attr(x, "body")))
                            c.require("C26:extract:independent", indep or False, w, f"phase 0 shares the code of {what}")
                        pos += 1
                        continue
                    ok = is_copy_of(have, x)
                    c.require("C26:extract:lifted", ok or have == x or (None if contains(have, x) else False), w, f"code of {what} is not at the same place below")
                    if have == x or is_call(have, "copy.copy"):
                        c.require("C26:extract:independent", False if not (deep and not okc) else True, w, f"the lower phases share the code of {what}")
                    tgt = (x, have)
                    dec = [(i, e) for i, e in enumerate(o.state.trace) if e.kind == "setattr" and e.b in ("value", "n") and (contains(e.a, x) or contains(e.a, have))]
                    cp = [i for i, e in enumerate(o.state.trace) if e.kind == "call" and e.c == have]
                    if not dec:
                        ctor = any(e.kind == "setattr" and (contains(e.a, x) or contains(e.a, have)) for e in o.state.trace)
                        c.require("C26:extract:number", None if ctor else False, w, f"the statement keeps the number {k} in the lower phases")
                    else:
                        i, e = dec[-1]
                        v = e.c
                        m1 = v[0] == "op" and (v[1] == "Add" and const(-1) in (v[2], v[3]) or v[1] == "Sub" and v[3] == const(1)) or v == const(k - 1)
                        c.require("C26:extract:number", True if m1 and len(dec) == 1 else False if v[0] in ("op", "const") else None, where_of(e, w), f"the number of the statement becomes {show(v)} (phase {k})")
                        if contains(e.a, have):
                            continue
                        c.require("C26:extract:number", bool(cp) and cp[0] > i or (None if not cp else False), where_of(e, w), "the copy is made before the number is changed")
                    pos += 1
                c.require("C26:extract:other", pos == len(rest) or (None if strange else False), w, f"{len(rest)} statements remain, {pos} expected")
    c.require("C26:extract:exercised", n > 0 or None, c.where(fi), "")
    # phase 0 is the module itself
    T = P(fi.params()[0])
    for o in c.paths(fi, bind={"phase": const(0)}):
        c.require("C26:extract:zero", o.kind == "return" and (o.value == T or None if o.kind == "return" else False), at(c, fi, o), "phase 0 is not what remains of the module")


def accepted(c, fi):
    X = P(fi.params()[0])
    item = ("sub", attr(X, "items"), const(0))
    n = 0
    for o in c.paths(fi, opaque=["destructure_candidate"], max_paths=20000):
        f, v, w = o.state.facts, o.value, at(c, fi, o)
        if o.kind != "return":
            c.unknown("C26:accepted", w, show(v)[:60])
            continue
        if v in (FALSE, NONE):
            # everything holds but it is rejected?
            continue
        n += 1
        nn = v
        tests = {
            "kind": any(k[0] in ("typeis", "isinst") and k[1] == X and set(k[2]) == {"ast.With"} and b for k, b in f.items() if len(k) == 3 and isinstance(k, tuple)),
            "alone": _alone(f, X),
            "as-part": f.get(("isnone", attr(item, "optional_vars"))) is True or f.get(attr(item, "optional_vars")) is False,
            "name": any(k[0] == "cmp" and k[1] == "Eq" and const("phase") in (k[2], k[3]) and b for k, b in f.items() if isinstance(k, tuple)),
            "integer": any(k[0] in ("isinst", "typeis") and k[1] == nn and k[2] <= {"builtins.int", "builtins.bool"} and b for k, b in f.items() if isinstance(k, tuple) and len(k) == 3),
            "positive": any(k[0] == "cmp" and contains(k, nn) and k[1] in ("Lt", "LtE", "Gt", "GtE") and positive(k, b, nn) for k, b in f.items() if isinstance(k, tuple)),
        }
        about = {"kind": X, "alone": attr(X, "items"), "as-part": attr(item, "optional_vars"), "name": None, "integer": nn, "positive": nn}
        if not tests["name"]:
            loose = [k for k, b in f.items() if b and is_call(k, "startswith", "endswith", "find", "match", "count") and any(x == const("phase") for x in subterms(k)) or b and isinstance(k, tuple) and k[0] == "cmp" and k[1] == "In" and const("phase") in (k[2], k[3])]
            c.require("C26:accepted:exact", None if not loose else False, w, "a statement with another name is taken for a phase statement")
        for name, ok in tests.items():
            if name in ("integer", "positive"):
                other = [k for k, b in f.items() if isinstance(k, tuple) and k[0] == "cmp" and contains(k, nn)] if name == "positive" else [k for k in f if isinstance(k, tuple) and k[0] in ("isinst", "typeis") and k[1] == nn]
                c.require("C26:accepted:" + name, True if ok else False if not other or name == "integer" and any(f[k] and not k[2] <= {"builtins.int", "builtins.bool"} for k in other) or name == "positive" and all(k[0] == "cmp" and (k[2][0] == "const" or k[3][0] == "const") for k in other) else None, w, f"a phase statement is accepted whose number is not {'an integer' if name == 'integer' else 'positive'}")
            else:
                a = about[name]
                other = [k for k in f if isinstance(k, tuple) and (contains(k, a) if a else k[0] == "cmp")]
                if name == "kind":
                    other = [k for k in f if isinstance(k, tuple) and k[0] in ("isinst", "typeis") and k[1] == X]
                c.require("C26:accepted:" + name, True if ok else False if not other or name == "alone" and all(k == a or k[0] == "cmp" and "const" in (k[2][0], k[3][0]) for k in other if not contains(k, item)) or name == "as-part" and not any(contains(k, a) for k in f) else None, w, f"a phase statement is accepted without a test of {name}")
        lit = [k for k, b in f.items() if isinstance(k, tuple) and k[0] in ("typeis", "isinst") and b and set(k[2]) & {"ast.Constant", "ast.Num"}]
        c.require("C26:accepted:literal", bool(lit) or None, w, "the number is no literal")
    c.require("C26:accepted:exercised", n > 0 or None, c.where(fi), "")


def bounded(t):
    """a part of a list that leaves out some of its end"""
    return t[0] == "sub" and t[2][0] == "slice" and t[2][2] != NONE


def flag(c, fi):
    """the macro-import that asks for phases is found wherever it stands, and wherever in it the name stands"""
    T = P(fi.params()[0])
    n = 0
    for o in c.paths(fi):
        if o.kind != "return":
            c.unknown("C26:flag", at(c, fi, o), show(o.value)[:60])
            continue
        tr, w = o.state.trace, at(c, fi, o)
        loops = [e for e in tr if e.kind == "loop" and contains(e.a, T)]
        for e in loops:
            c.require("C26:flag:all", False if bounded(e.a) else True, where_of(e, w), f"only {show(e.a)[:60]} is searched for the request of phases")
        if o.value in (FALSE, NONE):
            gave = [e for e in tr if e.kind == "endloop" and e.c in ("return", "break")] if loops else []
            c.require("C26:flag:first", False if any(contains(e.a, T) for e in gave) and not any(e.kind == "endloop" and e.c not in ("return", "break") and contains(e.a, T) for e in tr) else True, w, "the search for the request of phases stops at a statement without it")
        else:
            n += 1
    c.require("C26:flag:exercised", n > 0 or None, c.where(fi), "")


def _alone(f, X):
    I = attr(X, "items")
    for k, b in f.items():
        if isinstance(k, tuple) and k[0] == "cmp" and contains(k, I) and not contains(k, ("sub", I, const(0))) and const(1) in (k[2], k[3]):
            if k[1] == "Eq" and b:
                return True
            if k[1] in ("Gt",) and not b:
                return True
    return False


def positive(k, b, n):
    """the comparison says n >= 1"""
    op, l, r = k[1], k[2], k[3]
    if r == n and l[0] == "const":
        op, l, r = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}[op], r, l
    if l != n or r[0] != "const" or not isinstance(r[2], int):
        return False
    if not b:
        op = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt"}[op]
    return op == "GtE" and r[2] == 1 or op == "Gt" and r[2] == 0


def _elements(t, st):
    """the terms whose elements are elements of the iterable t"""
    yield t
    if t[0] == "new":
        for x in st.heap.get((t, "#")) or ():
            yield from _elements(x, st)
    elif t[0] in ("reversed", "sorted", "star", "elems", "set", "list", "tuple", "copy"):
        for x in (t[1] if t[1] and isinstance(t[1][0], tuple) else t[1:]):
            if isinstance(x, tuple) and x:
                yield from _elements(x, st)
    elif t[0] == "op":
        yield from _elements(t[2], st)
        yield from _elements(t[3], st)
    elif is_call(t, "builtins.sorted", "builtins.reversed", "builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset") and t[2]:
        yield from _elements(t[2][0][1] if isinstance(t[2][0], tuple) and len(t[2][0]) == 2 else t[2][0], st)


def driver(c, fi):
    ps = fi.params()
    T = P(ps[0])
    its = []
    outs = c.paths(fi, opaque=["extract_phase", "detect_highest_phase", "inject_after_futureimports", "isdebug", "create_module", "run", "singlephase_expand"], iters=its, max_paths=20000)
    n = 0
    for it, serial, k, st, fid in its:
        tr = st.trace
        lo = max(i for i, e in enumerate(tr) if e.kind == "loop" and e.b == serial)
        body = tr[lo:]
        ext = [e for e in body if e.kind == "call" and is_call(e.c, "extract_phase")]
        if not ext:
            continue
        n += 1
        w = where_of(ext[0])
        E = ext[0].c
        K = argof(E, "phase")
        hi = ("call", "detect")
        if it[0] == "range" or is_call(it, "builtins.range"):
            a = list(it[1]) if it[0] == "range" else [v for _, v in it[2]]
            start_ok = bool(a) and is_call(a[0], "detect_highest_phase") and argof(a[0], "tree", 0) == T
            full = len(a) == 3 and a[1] == const(-1) and a[2] == const(-1)
            c.require("C26:driver:order", True if start_ok and full else False if start_ok or not any(is_call(x, "detect_highest_phase") for x in subterms(it)) or all(x[0] in ("const",) for x in a[1:]) else None, w, f"the phases are gone through as {show(it)[:80]}")
        else:
            seq = it[1] if it[0] == "reversed" else it
            rng = seq[0] == "range" or is_call(seq, "builtins.range")
            lone = [x for x in _elements(it, st) if x[0] == "rep" and any(is_call(y, "iswithphase") for y in subterms(x))]
            c.require("C26:driver:order", False if lone else False if not rng and it[0] != "while" and contains(it, attr(T, "body")) and not any(is_call(x, "detect_highest_phase") for x in subterms(it)) else None, w, f"the phases are gone through as {show(it)[:80]}")
        isK = K is not None and (K == ("elem", it, serial))
        c.require("C26:driver:extract", True if isK else None if K is not None and contains(K, ("elem", it, serial)) else None, w, f"phase {show(K) if K else None} is extracted")
        c.require("C26:driver:from", argof(E, "tree", 0) == T, w, f"phases are extracted from {show(argof(E, 'tree', 0))[:50]}")
        zero = next((b for kk, b in st.facts.items() if isinstance(kk, tuple) and kk[0] == "cmp" and kk[1] == "Eq" and K in (kk[2], kk[3]) and const(0) in (kk[2], kk[3])), None)
        runs = [e for e in body if e.kind == "call" and is_call(e.c, "mcpyrate.compiler.run")]
        exps = [e for e in body if e.kind == "call" and is_call(e.c, "mcpyrate.compiler.singlephase_expand")]
        about = [(kk, b) for kk, b in st.facts.items() if isinstance(kk, tuple) and contains(kk, E)]
        empty = any(b is False for kk, b in about)
        if empty:
            if not runs and not exps:
                def says_empty(kk, b):
                    if b is False and kk == attr(E, "body"):
                        return True
                    if kk[0] != "cmp":
                        return False
                    if kk[1] == "Eq" and b and any(x[0] in ("list", "tuple") and not x[1] for x in kk[2:4]):
                        return True
                    op, l, r = kk[1:4]
                    n, x = (r, l) if is_call(l, "builtins.len") else (l, r)
                    if not is_call(x, "builtins.len") or n[0] != "const":
                        return False
                    if x == r:
                        op = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op)
                    if not b:
                        op = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt"}.get(op, op)
                    return (op, n[2]) in (("Lt", 1), ("LtE", 0)) or op == "Eq" and n[2] == 0
                size = [kk for kk, b in about if kk[0] == "cmp" and any(is_call(x, "builtins.len") for x in kk[2:4]) or kk[0] == "sub" and kk[1] == attr(E, "body")]
                c.require("C26:driver:skipped", True if any(says_empty(kk, b) for kk, b in about) else False if size and all(kk in size or kk[0] == "cmp" or is_call(kk, "builtins.any", "builtins.all") for kk, b in about) else None, w,
                          f"a phase that has code is skipped, unless {show(about[0][0])[:80]}")
            continue
        # the number constant
        asg = [e for e in body if e.kind == "setattr" and e.b == "body" and e.a == E]
        cons = [x for e in asg for x in subterms(e.c) if isinstance(x, tuple) and x and x[0] == "call" and norm_ctor(x)]
        tgt = [norm_ctor(x)[1].get("id") for x in cons if norm_ctor(x)[0] == "Name"]
        val = [norm_ctor(x)[1].get("value") or norm_ctor(x)[1].get("n") for x in cons if norm_ctor(x)[0] in ("Constant", "Num")]
        use = min([i for i, e in enumerate(body) if e in runs + exps], default=None)
        if const("__phase__") in tgt:
            c.require("C26:driver:number", val == [K] or (False if val and (val[0][0] == "const" or contains(val[0], K) or not isK or is_call(val[0], "detect_highest_phase")) else None), w, f"the phase number constant is {show(val[0]) if val else None}")
            c.require("C26:driver:number", use is None or body.index(asg[-1]) < use, w, "the phase is run without its number")
        else:
            c.require("C26:driver:number", None if asg else False, w, "the phase gets no number constant")
        if zero is True:
            c.require("C26:driver:zero", len(exps) == 1 and not runs, w, "phase 0 is not expanded")
            for e in exps:
                c.require("C26:driver:zero", argof(e, "tree", 0) == E or None, where_of(e, w), "something else is expanded as phase 0")
        elif zero is False:
            c.require("C26:driver:higher", len(runs) == 1 and not exps, w, "a higher phase is not run")
            for e in runs:
                m = argof(e, "module", 1)
                c.require("C26:driver:code", argof(e, "source", 0) == E or None, where_of(e, w), "something else is run")
                made = [i for i, x in enumerate(tr) if x.kind == "call" and x.c == m]
                c.require("C26:driver:module", True if is_call(m, "create_module") and made and made[0] < lo else False if m is None or m == NONE or is_call(m, "create_module") and made and made[0] >= lo else None, where_of(e, w), "the phases do not run in one module")
        else:
            c.unknown("C26:driver:zero", w, "no test for phase 0")
        if k in ("break", "return"):
            c.require("C26:driver:all", zero is True, w, "the phases below are skipped")
    for o in outs:
        if o.kind == "return" and o.value[0] != "unbound":
            c.require("C26:driver:result", True if is_call(o.value, "mcpyrate.compiler.singlephase_expand") else None, at(c, fi, o), f"gives {show(o.value)[:60]}")
    c.require("C26:driver:exercised", n > 0 or None, c.where(fi), "")
