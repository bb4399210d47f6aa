"""Finding macros and expanding macros agree on what a macro use is.

Rule: the expander and the collector handle the same node kinds. For each kind, the assumptions under which the expander
reaches the macro call (the accepted candidate, its position in the node, its arguments and the invocation kind asked
for) equal the assumptions under which the collector records a use. A use is recorded as (accepted name, that kind), only
after a membership test of the same key. After recording, the arguments of every accepted item, all remaining items, and
the body or every other field that can hold code are visited; fields that hold strings are not; a node that is not a use
is traversed. The collector's visit() answers None for absent children before any traversal.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, const, ref, show, subterms
from lib.q import argof, at, call_events, callee, contains, is_call, returns, strip_list, truth, visitor, where_of
from .c08 import S, X, P, macro_call

COL = "mcpyrate.expander.MacroCollector"
EXP = attr(S, "expander")
KINDS = [("Subscript", "expr"), ("With", "block"), ("ClassDef", "decorator"), ("FunctionDef", "decorator"), ("AsyncFunctionDef", "decorator"), ("Name", "name")]


def norm(t, node):
    """Term with the visited node and the expander named canonically, without call serial numbers."""
    if t == node:
        return "NODE"
    if t == EXP or t == S:
        return "EXPANDER"
    if isinstance(t, tuple):
        if t and t[0] == "call":
            args = tuple((k, norm(v, node)) for k, v in t[2] if k not in ("filename", "_validate_call_syntax"))
            return ("call", callee(t[1]).rsplit(".", 1)[-1] if callee(t[1]) else norm(t[1], node), args)
        return tuple(norm(x, node) for x in t)
    return t


def acceptance(facts, node):
    out = set()
    for k, b in facts.items():
        if not b:
            continue
        if is_call(k, "ismacrocall") or k[0] == "sub" and is_call(k[1], "_detect_macro_items"):
            out.add(norm(k, node))
    return frozenset(out)


def string_fields(kind):
    doc = getattr(ast, kind).__doc__ or ""
    inner = doc[doc.find("(") + 1:doc.rfind(")")]
    out = set()
    for part in inner.split(","):
        p = part.split()
        if len(p) == 2 and p[0].rstrip("*?") in ("identifier", "string", "int", "constant"):
            out.add(p[1])
    return out


def check(c):
    ix = c.ix
    have = {}
    for cls in (X, COL):
        ks = set()
        for k in dir(ast):
            if isinstance(getattr(ast, k), type) and issubclass(getattr(ast, k), ast.AST) and ix.class_attr(cls, "visit_" + k) is not None:
                ks.add(k)
        have[cls] = ks
    for k in sorted(have[X] | have[COL]):
        w = "mcpyrate/expander.py"
        c.require(f"C09:kinds:{k}", k in have[X] and k in have[COL], w, f"{k} nodes are treated by the {'expander' if k in have[X] else 'collector'} only")
    for kind, syn in KINDS:
        key = f"C09:{kind}"
        e, g = visitor(ix, X, kind), visitor(ix, COL, kind)
        if e is None or g is None:
            continue
        with c.section(key):
            NE, NC = P(e.params()[1]), P(g.params()[1])
            acc_e, acc_c = set(), set()
            for o in returns(c.paths(e, inline=["_visit_Decorated", "expand", "_apply_macro"], selfcls=X, max_paths=60000)):
                if any(x.kind == "call" and macro_call(x.c) for x in o.state.trace):
                    acc_e.add(acceptance(o.state.facts, NE))
            n = {"recorded": 0, "plain": 0, "again": 0}
            fields_seen = None
            for o in returns(c.paths(g, inline=["_visit_Decorated"], selfcls=COL, max_paths=60000)):
                tr, f = o.state.trace, o.state.facts
                w = at(c, g, o)
                acc = acceptance(f, NC)
                rec = [x for x in tr if x.kind == "call" and x.a == attr(attr(S, "collected"), "append")]
                keys_asked = {k[2]: b for k, b in f.items() if k[0] == "cmp" and k[1] == "In" and k[3] in (attr(S, "_seen"), attr(S, "collected"))}
                keys_asked.update({k[1]: b for k, b in f.items() if k[0] == "in" and k[2] in (attr(S, "_seen"), attr(S, "collected"))})
                for x in rec:
                    n["recorded"] += 1
                    acc_c.add(acc)
                    v = argof(x, 0)
                    c.require(key + ":new", keys_asked.get(v) is False, where_of(x), "a macro use is recorded without checking that it is not yet recorded")
                    if attr(S, "_seen") in {k[3] for k in f if k[0] == "cmp" and k[1] == "In" and k[2] == v}:
                        c.require(key + ":remembered", any(y.kind == "call" and y.a == attr(attr(S, "_seen"), "add") and argof(y, 0) == v for y in tr), where_of(x), "a recorded macro use is not remembered, so it is recorded again")
                    if not (v and v[0] == "tuple" and len(v[1]) == 2):
                        c.unknown(key + ":key", where_of(x), show(v)[:60])
                        continue
                    c.require(key + ":kind", v[1][1] == const(syn), where_of(x), f"a {syn} use is recorded as {show(v[1][1])}")
                    nm = v[1][0]
                    if syn == "name":
                        ok = nm == attr(NC, "id")
                    elif nm[0] == "sub" and is_call(nm[1], "destructure_candidate") and nm[2] == const(0):
                        cand = argof(nm[1], "tree", 0)
                        if syn == "expr":
                            ok = cand == attr(NC, "value")
                        else:
                            it = cand[1] if syn == "block" and cand[0] == "attr" and cand[2] == "context_expr" else cand
                            ok = it[0] in ("elem", "sub") and it[1][0] == "sub" and is_call(it[1][1], "_detect_macro_items") and it[1][2] == const(0)
                            if it[0] == "sub":
                                ok = False
                    else:
                        ok = None
                    c.require(key + ":name", ok, where_of(x), f"a macro use is recorded under the name {show(nm)[:80]}")
                visited = [argof(x, "tree", 0) for _, x in call_events(tr, "MacroCollector.visit", raising=False)]
                visited = [v for v in visited if v is not None]
                gen = any(argof(x, "node", "tree", 0) == NC for _, x in call_events(tr, "generic_visit", raising=False))
                if not acc:
                    n["plain"] += 1
                    if syn != "name":
                        c.require(key + ":traversed", gen, w, f"a {kind} that is not a macro use is not looked into")
                    c.require(key + ":unrecorded", not rec, w, f"a {kind} that is not a macro use is recorded")
                    continue
                if gen:
                    continue
                n["again"] += 1
                if syn == "name":
                    if not keys_asked and not rec:
                        other = [k for k in f if isinstance(k, tuple) and contains(k, NC) and not contains(k, attr(NC, "id"))]
                        c.require(key + ":reported", False if other else None, w, f"a name use is recorded only under a further condition: {show(other[0])[:60] if other else ''}")
                    if keys_asked:
                        c.require(key + ":reported", bool(rec) or any(k[0] == "tuple" and len(k[1]) == 2 and k[1][1] == const(syn) and b for k, b in keys_asked.items()), w, "a name use is not recorded, and was not found to be recorded as such already")
                    continue
                # children of a use
                keyed = bool(rec) or any(k[0] == "tuple" and len(k[1]) == 2 and k[1][1] == const(syn) and b for k, b in keys_asked.items())
                items = any(x.kind == "endloop" and x.c != "comp" and x.a[0] == "sub" and is_call(x.a[1], "_detect_macro_items") and x.a[2] == const(0) for x in tr)
                if keys_asked and (items or syn == "expr"):
                    c.require(key + ":reported", keyed, w, f"a {syn} use is not recorded, and was not found to be recorded as such already")
                if syn == "expr":
                    D = next((k for k in f if is_call(k, "ismacrocall")), None)
                    argsok = any(v == argof(D, "macroargs", 1) or strip_list(v) == argof(D, "macroargs", 1) or v[0] == "elem" and v[1] == argof(D, "macroargs", 1) for v in visited) or truth(argof(D, "macroargs", 1), f) is False \
                        or any(x.kind == "endloop" and x.a == argof(D, "macroargs", 1) for x in tr) or attr(NC, "value") in visited
                    c.require(key + ":arguments", argsok, w, "the arguments of a macro use are not looked into")
                    c.require(key + ":contents", attr(NC, "slice") in visited, w, "the contents of a macro use are not looked into")
                    continue
                for lp in [x for x in tr if x.kind == "endloop" and x.c != "comp" and x.a[0] == "sub" and is_call(x.a[1], "_detect_macro_items")]:
                    if lp.a[2] == const(0):
                        def arg_of_item(v):
                            b = v[1] if v[0] == "elem" else v
                            return b[0] == "sub" and is_call(b[1], "destructure_candidate") and b[2] == const(1) and any(x == ("elem", lp.a, lp.b) for x in subterms(b))
                        inside = next((i for i, x in enumerate(tr) if x.kind == "loop" and x.b == lp.b), 0), tr.index(lp)
                        during = [argof(x, "tree", 0) for i, x in call_events(tr, "MacroCollector.visit", raising=False) if inside[0] < i < inside[1]]
                        c.require(key + ":arguments", any(v is not None and arg_of_item(v) for v in during), where_of(lp), "the arguments of a macro use are not looked into")
                    else:
                        parts = {v[2] for v in visited if v[0] == "attr" and v[1] == ("elem", lp.a, lp.b)}
                        ok = any(v == ("elem", lp.a, lp.b) for v in visited) or {"context_expr", "optional_vars"} <= parts
                        c.require(key + ":others", ok, where_of(lp), "the remaining items next to a macro use are not looked into")
                        fields_seen = fields_seen or set()
                if syn == "block":
                    ok = any(v == attr(NC, "body") or v[0] == "elem" and v[1] == attr(NC, "body") for v in visited) or any(x.kind == "endloop" and x.a == attr(NC, "body") for x in tr)
                    c.require(key + ":body", ok, w, "the body of a block macro use is not looked into")
                else:
                    itf = [x for x in tr if x.kind == "call" and is_call(x.c, "iter_fields") and argof(x, 0) == NC]
                    strings = string_fields(kind)
                    code = set(getattr(ast, kind)._fields) - strings - {"decorator_list"}
                    if itf:
                        for lp in [x for x in tr if x.kind == "endloop" and x.a == itf[-1].c]:
                            el = ("elem", lp.a, lp.b)
                            excl = None
                            for k, b in f.items():
                                if k[0] == "in" and k[1] == ("sub", el, const(0)) and isinstance(k[2], frozenset):
                                    excl = ({x[2] for x in k[2]}, b)
                                elif k[0] == "cmp" and k[1] == "In" and k[2] == ("sub", el, const(0)) and k[3][0] in ("tuple", "list", "set"):
                                    excl = ({x[2] for x in k[3][1]}, b)
                            vis = any(v == ("sub", el, const(1)) or v[0] == "elem" and v[1] == ("sub", el, const(1)) for v in visited)
                            typed = any(k[0] in ("isinst", "typeis") and k[1] == ("sub", el, const(1)) for k in f)
                            eqs = {(k[3] if k[2] == ("sub", el, const(0)) else k[2]): b for k, b in f.items() if k[0] == "cmp" and k[1] == "Eq" and ("sub", el, const(0)) in (k[2], k[3])}
                            if excl is None and eqs and all(x[0] == "const" for x in eqs):
                                yes, no = {x[2] for x, b in eqs.items() if b}, {x[2] for x, b in eqs.items() if not b}
                                excl = (yes, True) if yes else (no, False)
                                if not yes and not vis and code - no and not typed:
                                    c.bad(key + ":fields", where_of(lp), f"fields {sorted(code - no)} of a {kind} that has a macro decorator are not looked into")
                            if excl is None:
                                c.require(key + ":fields", None if typed else (vis and False) or None, where_of(lp), "fields are not selected by name")
                                continue
                            names, inside = excl
                            if inside and not vis:
                                c.require(key + ":fields", not (names & code), where_of(lp), f"fields {sorted(names & code)} of a {kind} that has a macro decorator are not looked into")
                            elif not inside and vis:
                                c.require(key + ":strings", typed or strings <= names, where_of(lp), f"string fields {sorted(strings - names)} of a {kind} are visited as if they were trees, which raises")
                            elif not inside:
                                c.require(key + ":fields", None if typed else False, where_of(lp), f"the fields of a {kind} that has a macro decorator are not looked into")
                    else:
                        got = {v[2] for v in visited if v[0] == "attr" and v[1] == NC} | {v[1][2] for v in visited if v[0] == "elem" and v[1][0] == "attr" and v[1][1] == NC} | {x.a[2] for x in tr if x.kind == "endloop" and x.a[0] == "attr" and x.a[1] == NC}
                        c.require(key + ":fields", code <= got if got else None, w, f"fields {sorted(code - got)} of a {kind} that has a macro decorator are not looked into")
            if syn in ("block", "decorator"):
                c.require(key + ":others-visited", True if fields_seen is not None else False if n["again"] else None, c.where(g), "the remaining items next to a macro use are never looked into")
            c.require(key + ":exercised", True if n["recorded"] and n["plain"] else None, c.where(g), f"{n}")
            if acc_e and acc_c and all(acc_e) and all(acc_c):
                # a kind of test that only one side makes
                c.require(key + ":same", acc_e == acc_c, c.where(g), f"the collector recognises a {syn} macro use in a {kind} under other conditions than the expander: {sorted(map(str, acc_c ^ acc_e))[:2]}")
            else:
                c.unknown(key + ":same", c.where(g), "acceptance conditions not found")
    with c.section("C09:visit"):
        fi = ix.find_method(COL, "visit")
        T = P(fi.params()[1])
        n = 0
        for o in returns(c.paths(fi, selfcls=COL)):
            tr, f = o.state.trace, o.state.facts
            for k, b in f.items():
                if k[0] in ("isinst", "typeis") and k[1] == T and b and not any(e.kind in ("call", "loop") for e in tr):
                    more = {x for x in k[2] if x in ix.classes and not ix.is_subclass(x, "mcpyrate.core.Done")}
                    c.require("C09:visit:skipped", not more, at(c, fi, o), f"nodes of {sorted(more)} are skipped, which the expander looks into")
            if not any(e.kind in ("call", "loop") for e in tr):
                # an expander that has bindings, own or global, is asked about every tree
                EX = attr(S, "expander")
                other = [k for k, b in f.items() if not b and k[0] == "attr" and k[1] == EX and k[2] != "bindings"]
                plain = f.get(("isnone", T)) or any(k[0] in ("isinst", "typeis") and k[1] == T and b for k, b in f.items()) or f.get(T) is False or f.get(attr(EX, "bindings")) is False
                if other and not plain:
                    c.bad("C09:visit:nothing-bound", at(c, fi, o), f"nothing is looked for when {show(other[0])} is empty, although the expander also recognises other bindings")
            for e in tr:
                if e.kind == "call" and e.a[0] == "attr" and e.a[1][0] == "super":
                    n += 1
                    pos = [k for k, b in f.items() if k[0] in ("isinst", "typeis") and k[1] == T and b]
                    c.require("C09:visit:absent", f.get(("isnone", T)) is False or bool(pos), where_of(e), "an absent child is traversed, which raises")
                    c.require("C09:visit:lists", f.get(("isinst", T, frozenset(["builtins.list"]))) is False or bool(pos), where_of(e), "a list is traversed as if it were a node")
        c.require("C09:visit:exercised", True if n else None, c.where(fi), "")
    seen_used = any(isinstance(n, ast.Attribute) and n.attr == "_seen" and isinstance(n.ctx, ast.Load) for m in ix.classes[COL].methods.values() if m.name != "clear" for n in ast.walk(m.node))
    with c.section("C09:clear"):
        fi = ix.find_method(COL, "clear")
        for o in returns(c.paths(fi)):
            for a in ("_seen", "collected") if seen_used else ("collected",):
                v = o.state.heap.get((S, a))
                called = any(x.kind == "call" and x.a == attr(attr(S, a), "clear") for x in o.state.trace)
                if (S, a) in o.state.heap or called:
                    c.ok("C09:clear:" + a, at(c, fi, o))
                else:
                    c.bad("C09:clear:" + a, at(c, fi, o), f"clearing the collector leaves {a}")
    c.floor(40)
