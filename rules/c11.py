"""Source locations are filled without gaps or clobbering.

Rule: in fix_locations (inner recursion inlined one level), for each of the three modes and each combination of "the node
class can carry this part of a location" and "the node already has it": the part is written exactly when it is missing or
overwriting was asked for, with the value from the reference; the value handed to the children is the reference's, or in
parent mode the node's own where it has one; every child (and every list element) is handed on; the reference node is
never written. In the functions that make nodes on the expander's behalf, every node constructed that can carry a
location is given the location of the node it replaces.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, const, ref, show, subterms
from lib.q import argof, at, call_events, callee, contains, is_call, norm_ctor, partial_loops, returns, strip_list, truth, where_of

P = lambda n: ("param", n)
S = P("self")
T, R = P("tree"), P("reference_node")


def has(f, obj, name):
    """Does the object have the attribute, as far as the path knows?"""
    for k, b in f.items():
        if k[0] == "hasattr" and k[1] == obj and k[2] == name:
            return b
        if k[0] == "isnone" and k[1][0] == "getattr" and k[1][1] == obj and k[1][2] == name:
            return not b
        if k[0] == "isnone" and is_call(k[1], "builtins.getattr") and argof(k[1], 0) == obj and argof(k[1], 1) == const(name):
            return not b
    return None


def can(f, obj, name):
    """Can nodes of this class have the attribute?"""
    for k, b in f.items():
        if k[0] in ("cmp", "in") and const(name) == k[-2] and k[-1] == attr(obj, "_attributes"):
            return b
    return None


PARTS = (("lineno", "end_lineno"), ("col_offset", "end_col_offset"))


def check(c):
    ix = c.ix
    fi = ix.func("mcpyrate.astfixers.fix_locations")
    children = lambda t: is_call(t, "iter_child_nodes") and argof(t, 0) == T

    def drift(key, calls, serial):
        for x in calls:
            for _, v in x.b:
                c.require(key, not (v[0] == "carried" and v[2] == serial and any(y in (attr(R, a), attr(T, a)) for a in ("lineno", "col_offset", "end_lineno", "end_col_offset") for y in subterms(v[3]))),
                          where_of(x), "the location handed on changes from one element to the next")

    for mode in ("reference", "update", "overwrite"):
        key = f"C11:{mode}"
        with c.section(key):
            n = rec = lists = 0
            for o in c.paths(fi, bind={"mode": const(mode)}, max_paths=40000):
                w = at(c, fi, o)
                tr, f = o.state.trace, o.state.facts
                c.require(key + ":total", o.kind == "return" and o.value == T, w, f"filling in locations ends with {o.kind} {show(o.value)[:60]}")
                c.require(key + ":reference", not any(e.kind in ("setattr", "delattr") and e.a == R for e in tr), w, "the reference node is changed")
                located = has(f, R, "lineno") and has(f, R, "col_offset")
                wrote = {e.b: e.c for e in tr if e.kind == "setattr" and e.a == T}
                if not located:
                    c.require(key + ":unlocated", not wrote, w, "locations are written although the reference has none")
                    continue
                if f.get(("isnone", T)):
                    continue
                if f.get(("isinst", T, frozenset(["builtins.list"]))):
                    for e in partial_loops(tr, T):
                        c.bad(key + ":list", where_of(e), f"only some elements of a list are given locations: {show(e.a)[:60]}")
                    for e in tr:
                        if e.kind == "endloop" and e.a == T:
                            lists += 1
                            each = [x for x in tr if x.kind == "call" and ("elem", T, e.b) in [v for k, v in x.b]]
                            c.require(key + ":list", bool(each), where_of(e), "the elements of a list are not given locations")
                            drift(key + ":list", each, e.b)
                    continue
                n += 1
                for part, endpart in PARTS:
                    k = f"{key}:{part}"
                    able, present = can(f, T, part), has(f, T, part)
                    if able is False:
                        c.require(k + ":unable", part not in wrote, w, f"{part} is written on a node whose class has none")
                        continue
                    want = attr(R, part)
                    if mode == "overwrite":
                        c.require(k + ":overwritten", wrote.get(part) == want if (able or part in wrote) else None, w, f"{part} is not overwritten with the reference's ({show(wrote[part])[:40] if part in wrote else 'not written'})")
                    elif present:
                        c.require(k + ":kept", part not in wrote, w, f"{part} of an already located node is overwritten")
                    elif present is False:
                        c.require(k + ":filled", wrote.get(part) == want, w, f"a missing {part} is {'filled with ' + show(wrote[part])[:40] if part in wrote else 'not filled'}")
                    else:
                        c.require(k + ":asked", False if part in wrote else None, w, f"{part} is written without asking whether the node has one")
                        continue
                    if part in wrote:
                        ableend = can(f, T, endpart)
                        if endpart in wrote:
                            v = wrote[endpart]
                            okv = v == attr(R, endpart) and has(f, R, endpart) is not False or v == NONE and not has(f, R, endpart) or v[0] in ("ifexp", "getattr") and contains(v, R)
                            c.require(k + ":end", okv, w, f"{endpart} becomes {show(v)[:40]}")
                        elif ableend:
                            c.bad(k + ":end", w, f"a node gets {part} from the reference but keeps its own {endpart}")
                # recursion
                for lp in [e for e in tr if e.kind == "endloop" and children(e.a)]:
                    el = ("elem", lp.a, lp.b)
                    calls = [x for x in tr if x.kind == "call" and el in [v for k, v in x.b]]
                    if not c.require(key + ":children", len(calls) == 1, where_of(lp), "a child is not given a location" if not calls else "a child is treated more than once"):
                        continue
                    rec += 1
                    drift(key + ":children", calls, lp.b)
                    given = [v for k, v in calls[0].b if v != el]
                    flat = [y for v in given for y in subterms(v)]
                    for part, endpart in PARTS:
                        own = mode == "update" and has(f, T, part) and can(f, T, part) is not False
                        src, other = (T, R) if own else (R, T)
                        if not any(x in (attr(T, p), attr(R, p)) for p in ("lineno", "col_offset") for x in flat):
                            c.unknown(f"{key}:{part}:passed", where_of(calls[0]), "values handed to the children not recognised")
                            continue
                        if own and has(f, T, endpart) is not True:
                            mixed = [v for v in given if v[0] == "getattr" and v[1] == T and v[2] == endpart and len(v) > 3 and contains(v[3], R)]
                            c.require(f"{key}:{part}:passed", not mixed, where_of(calls[0]), f"the children of a located node get its {part}, but the {endpart} of the reference")
                        c.require(f"{key}:{part}:passed", attr(src, part) in flat and attr(other, part) not in flat, where_of(calls[0]),
                                  f"the children of a {'located' if own else 'node'} get {part} from {'the reference' if attr(R, part) in flat else 'their parent'}")
                itc = [e for e in tr if e.kind == "call" and children(e.c)]
                c.require(key + ":descends", bool(itc) or any(is_call(e.c, "ast.walk", "iter_fields") for e in tr if e.kind == "call") or None if any(e.kind == "loop" for e in tr) else bool(itc), w, "the children of a node are not given locations")
            c.require(key + ":exercised", True if n and rec and lists else None, c.where(fi), f"{n} {rec} {lists}")

    # -- nodes made on the expander's behalf
    def located_class(k):
        return "lineno" in getattr(ast, k, ast.AST)._attributes

    def made(key, fi, where_ref, inline=(), only=None):
        """Every node with a location constructed on a path gets the location of the node it stands for."""
        n = 0
        for o in returns(c.paths(fi, inline=list(inline))):
            tr = o.state.trace
            for i, e in enumerate(tr):
                nc = norm_ctor(e.c) if e.kind == "call" else None
                if nc is None or not located_class(nc[0]) or only and nc[0] not in only:
                    continue
                n += 1
                cp = [x for x in tr[i:] if x.kind == "call" and is_call(x.c, "ast.copy_location") and argof(x, 0, "new_node") == e.c]
                fx = [x for x in tr[i:] if x.kind == "call" and is_call(x.c, "fix_locations") and contains(argof(x, "tree", 0), e.c)]
                kw = [v for k, v in e.b if k in ("lineno", "col_offset")]
                if cp:
                    r = argof(cp[0], 1, "old_node")
                    c.require(key, where_ref(r), where_of(e), f"a {nc[0]} made by the expander gets the location of {show(r)[:60]}")
                elif fx:
                    r = argof(fx[0], "reference_node", 1)
                    c.require(key, where_ref(r), where_of(e), f"a {nc[0]} made by the expander gets the location of {show(r)[:60]}")
                elif len(kw) == 2:
                    c.require(key, all(x[0] == "attr" and where_ref(x[1]) for x in kw), where_of(e), f"a {nc[0]} made by the expander gets location {show(kw[0])[:40]}")
                else:
                    c.bad(key, where_of(e), f"a {nc[0]} made by the expander has no location")
        c.require(key + ":exercised", True if n else None, c.where(fi), "no node is made")
    M = P("macronode")
    for q in ("_insert_coverage_dummy_stmt", "_make_coverage_dummy_expr"):
        with c.section(f"C11:made:{q}"):
            helpers = [f for f in ix.funcs.values() if f.qualname == "mcpyrate.expander." + q]
            # under another name: told apart by what they make
            helpers = helpers or [f for f in ix.funcs.values() if f.module.name == "mcpyrate.expander" and f.cls is None and f.parent is None and "macronode" in f.params()]
            if not helpers:
                c.unknown(f"C11:made:{q}", "mcpyrate/expander.py", "no function that makes the nodes that stand for a macro use")
            for f in helpers:
                made(f"C11:made:{q}", f, lambda r: r == M)
    body = attr(P("tree"), "body")

    def stmt_of(r):
        b = r
        while b and b[0] == "sub" and not (b[1] == body):
            b = b[1]
        return b is not None and (b[0] == "elem" and contains(b, body) or b[0] == "sub" and b[1] == body)
    with c.section("C11:made:find_macros"):
        made("C11:made:find_macros", ix.func("mcpyrate.expander.find_macros"), stmt_of)
    with c.section("C11:made:dialect-import"):
        fi = ix.find_method("mcpyrate.dialects.DialectExpander", "find_dialectimport_ast")
        if fi is not None:
            made("C11:made:dialect-import", fi, lambda r: contains(r, body) and not (r[0] == "sub" and r[1] == body and r[2][0] == "const"), only=("alias", "Import"))
    # the node whose location is used by the visitors
    for kind, who in (("Subscript", "subscript"), ("Name", "name"), ("With", "withstmt"), ("ClassDef", "decorated"), ("FunctionDef", "decorated")):
        with c.section(f"C11:visitor:{kind}"):
            v = ix.find_method("mcpyrate.expander.MacroExpander", "visit_" + kind)
            if v is None:
                continue
            N = P(v.params()[1])
            for o in returns(c.paths(v, inline=["_visit_Decorated"])):
                for _, e in call_events(o.state.trace, "_insert_coverage_dummy_stmt", "_make_coverage_dummy_expr", raising=False):
                    m = argof(e, "macronode", 1) if callee(e.a).endswith("stmt") else argof(e, "macronode", 0)
                    ok = m == N or contains(m, N)
                    c.require(f"C11:visitor:{kind}", ok, where_of(e), f"the node that stands for a macro use gets the location of {show(m)[:60]}")
    # fill_location
    with c.section("C11:fill_location"):
        fi = ix.func("mcpyrate.metatools.fill_location")
        for o in returns(c.paths(fi)):
            fx = call_events(o.state.trace, "fix_locations", raising=False)
            for _, e in fx:
                c.require("C11:fill_location", argof(e, "mode", 2) != const("overwrite"), where_of(e), "filling in locations overwrites those that are there")
    c.floor(60)
