"""Future-imports take effect in every phase and stay first.

Rule: the functions that split a module body and inject into one are analysed on bodies of every shape up to five statements
(docstring or not, future-imports, other statements, future-imports after other statements): the split gives exactly the docstring
statement, exactly the leading future-imports and exactly the rest; the injected statements come between the future-imports and the
rest. The extraction of a phase is analysed on bodies with future-imports, phase statements and other statements: every future-import
is part of the phase, before everything else and in order, and stays in the lower phases. What the phase compiler puts into the body
of a phase is put there by the injector (or in an equivalent way). A future-import is recognised exactly by its kind and module.
"""
import itertools

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, call_events, returns, where_of
from lib.shape import P, first, items_of, kind, m_future, stmts

CU = "mcpyrate.coreutils."
L, L2 = ("new", "list", 999999), ("new", "list", 999998)
GD = "mcpyrate.utils.getdocstring"


def shapes(n):
    """kind strings: D (docstring) only first, F (future-import), O (other)"""
    for k in range(n + 1):
        for t in itertools.product("FO", repeat=k):
            s = "".join(t)
            yield s
            if k < n:
                yield "D" + s


def models(kinds):
    def gd(pos, kw, st):
        return const("a docstring") if kinds[:1] == "D" else NONE
    return {CU + "isfutureimport": m_future, GD: gd}


def emptydoc(kinds):
    def gd(pos, kw, st):
        return const("") if kinds[:1] == "D" else NONE
    return {CU + "isfutureimport": m_future, GD: gd}


def names(ts):
    return "[" + ", ".join({"D": "docstring", "F": "future-import", "O": "statement"}.get(kind(t), show(t)) for t in ts) + "]"


def check(c):
    ix = c.ix
    depth = 4 if c.tier == "quick" else 6
    n = 0
    fi = ix.func(CU + "split_futureimports")
    with c.section("C25:split"):
        B = fi.params()[0]
        for kinds in shapes(depth):
            s = stmts(kinds)
            d = 1 if kinds[:1] == "D" else 0
            f = d
            while f < len(s) and kinds[f] == "F":
                f += 1
            want = [list(s[:d]), list(s[d:f]), list(s[f:])]
            for m in (models(kinds), emptydoc(kinds)) if d else (models(kinds),):
                for o in c.paths(fi, bind={B: L}, heap={(L, "#"): s}, shapes=True, models=m):
                    w = at(c, fi, o)
                    if o.kind != "return":
                        c.bad("C25:split", w, f"a body {names(s)} is rejected: {show(o.value)[:60]}")
                        continue
                    v = o.value
                    got = [items_of(x, o.state) for x in v[1]] if v[0] == "tuple" and len(v[1]) == 3 else [None]
                    n += 1
                    c.require("C25:split", None if None in got else got == want, w, f"the body {names(s)} is split as {' '.join(names(g) for g in got if g is not None)}")
    fi = ix.func(CU + "inject_after_futureimports")
    with c.section("C25:inject"):
        S_, B = fi.params()[:2]
        for kinds in shapes(depth):
            s = stmts(kinds)
            d = 1 if kinds[:1] == "D" else 0
            f = d
            while f < len(s) and kinds[f] == "F":
                f += 1
            for many in (False, True):
                X, Y = P("x1N"), P("x2N")
                want = list(s[:f]) + ([X, Y] if many else [X]) + list(s[f:])
                facts = {("isinst", X, frozenset(["builtins.list"])): False, ("isinst", X, frozenset(["ast.stmt"])): True, ("isinst", X, frozenset(["ast.AST"])): True}
                for o in c.paths(fi, inline=["split_futureimports"], bind={B: L, S_: L2 if many else X}, heap={(L, "#"): s, (L2, "#"): (X, Y)}, shapes=True, models=models(kinds), facts=facts):
                    w = at(c, fi, o)
                    if o.kind != "return":
                        c.unknown("C25:inject", w, f"rejected: {show(o.value)[:60]}")
                        continue
                    got = items_of(o.value, o.state)
                    n += 1
                    c.require("C25:inject", None if got is None else got == want, w, f"injecting x into {names(s)} gives {names(got or [])}")
    c.stats["body_shapes"] = n
    with c.section("C25:recognised"):
        fi = ix.func(CU + "isfutureimport")
        T = P(fi.params()[0])
        for o in c.paths(fi):
            w, f = at(c, fi, o), o.state.facts
            if o.kind != "return":
                continue
            v = o.value
            extra = [k for k in f if isinstance(k, tuple) and k[0] == "cmp" and contains(k, T) and not contains(k, attr(T, "module"))]
            c.require("C25:recognised:extra", False if any(any(x[0] == "attr" and x[2] not in ("module", "level") for x in subterms(k) if isinstance(x, tuple) and len(x) == 3) for k in extra + ([v] if v[0] == "cmp" else [])) else True, w, "future-imports are recognised by something else than kind and module")
            kindok = [b for k, b in f.items() if isinstance(k, tuple) and k[0] in ("isinst", "typeis") and k[1] == T and set(k[2]) == {"ast.ImportFrom"}]
            mods = [(k, b) for k, b in f.items() if isinstance(k, tuple) and k[0] == "cmp" and k[1] == "Eq" and attr(T, "module") in (k[2], k[3])]
            for k, _ in mods:
                c.require("C25:recognised:module", const("__future__") in (k[2], k[3]) or (False if "const" in (k[2][0], k[3][0]) else None), w, f"future-imports are recognised by {show(k)}")
            if v[0] == "cmp" and v[1] == "Eq" and attr(T, "module") in (v[2], v[3]):
                c.require("C25:recognised:module", const("__future__") in (v[2], v[3]), w, f"future-imports are recognised by {show(v)}")
                c.require("C25:recognised:kind", kindok == [True] or None, w, "kind")
            elif v in (TRUE, FALSE):
                full = kindok == [True] and bool(mods) and all(b for _, b in mods)
                c.require("C25:recognised:kind", (v == TRUE) == full if kindok or mods else None, w, "a future-import is not recognised, or something else is")
            else:
                c.unknown("C25:recognised:kind", w, show(v)[:60])
    phases(c)
    c.floor(30)


def phases(c):
    ix = c.ix
    fi = ix.func("mcpyrate.multiphase.extract_phase")
    with c.section("C25:phase"):
        from .c26 import extract
        for kinds in (("F", "1"), ("F", "O", "1"), ("F", "F", "1", "O"), ("D", "F", "2", "1"), ("D", "F", "F", "1", "1"), ("F", "F", "2", "O", "1"), ("F", "O"), ("F",)):
            for k in (1, 2):
                for o, s, this, rest in extract(c, fi, kinds, k):
                    w = at(c, fi, o)
                    F = [x for x in s if kind(x) == "F"]
                    if this is None or rest is None:
                        c.unknown("C25:phase", w, "the phase is built in a way that is not recognised")
                        continue
                    c.require("C25:phase:included", [x for x in this if x in F] == F or (None if any(x not in s and x[0] not in ("star",) for x in this) else False), w, f"future-imports of the module are missing in phase {k} of {'/'.join(kinds)}")
                    c.require("C25:phase:first", this[:len(F)] == F or (None if any(x not in s and x[0] != "star" for x in this) else False), w, f"future-imports do not come first in phase {k} of {'/'.join(kinds)}")
                    c.require("C25:phase:lower", [x for x in rest if x in F] == F or (None if any(x not in s and x[0] != "star" and not contains(x, y) for x in rest for y in s[:1]) else False), w, f"future-imports of the module are missing below phase {k} of {'/'.join(kinds)}")
    with c.section("C25:injection"):
        fm = ix.func("mcpyrate.multiphase.multiphase_expand")
        n = 0
        for o in c.paths(fm, opaque=["extract_phase", "inject_after_futureimports", "split_futureimports"], may_raise=None):
            for e in o.state.trace:
                if e.kind == "setattr" and e.b == "body" or e.kind == "call" and e.c[1][0] == "attr" and e.c[1][2] == "insert" and e.c[1][1][0] == "attr" and e.c[1][1][2] == "body":
                    w = where_of(e)
                    n += 1
                    if e.kind == "call":
                        c.require("C25:injection", False if argof(e.c, 0) == const(0) else None, w, "a statement is put before the docstring and the future-imports")
                        continue
                    v = e.c
                    old = attr(e.a, "body")
                    inj = is_call(v, CU + "inject_after_futureimports")
                    if inj:
                        c.require("C25:injection", argof(v, "body", 1) == old, w, f"the body of the phase becomes {show(v)[:80]}")
                    elif any(is_call(x, CU + "split_futureimports") for x in subterms(v)):
                        c.unknown("C25:injection", w, show(v)[:80])
                    else:
                        its = v[1] if v[0] == "list" else ()
                        c.require("C25:injection", False if its and its[0][0] != "star" and any(x == ("star", old) for x in its) or v[0] == "op" and v[1] == "Add" and v[3] == old else None, w, "a statement is put before the docstring and the future-imports")
        c.require("C25:injection:exercised", n > 0 or None, c.where(fm), "no injection into phases recognised")
