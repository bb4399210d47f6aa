"""Markers are found and removed at any depth.

Rule: all paths of the walkers that look for and remove markers are enumerated. Looking for markers notes each node that is an instance of the given class and,
noted or not, goes on into its children; removing returns the visited contents of a matching node (so that markers directly inside are removed
too) and goes on into any other node. The class is the one asked for, compared by instance-of. Looking for markers returns what the walk of the given tree collected;
removing returns what the walk of it gave. The final check raises with the file name whenever the markers of the tree are not none, whatever class is given; every
expansion of a module is checked after its last transformation. Each marker class of the package has its contents among the fields that walkers go through.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, call_events, returns, truth, where_of
from lib.shape import P, items_of

MM = "mcpyrate.markers."
S, T, CLS = P("self"), P("tree"), P("cls")


def own(t, *names):
    """a call of a method of the walker itself"""
    return isinstance(t, tuple) and t and t[0] == "call" and (t[1][0] == "attr" and (t[1][1] == S or t[1][1][0] == "super") and t[1][2] in names or
                                                              t[1][0] == "bound" and (t[1][1] == S or t[1][1][0] == "super") and t[1][2].rsplit(".", 1)[-1] in names)


def check(c):
    ix = c.ix
    with c.section("C34:find"):
        find(c, ix)
    with c.section("C34:delete"):
        delete(c, ix)
    with c.section("C34:check"):
        remaining(c, ix.func(MM + "check_no_markers_remaining"))
    with c.section("C34:compiled"):
        compiled(c, ix.func("mcpyrate.compiler.singlephase_expand"))
    with c.section("C34:others"):
        g = ix.func("mcpyrate.core.global_postprocess")
        for o in returns(c.paths(g)):
            for e in o.state.trace:
                if e.kind == "call" and is_call(e.c, MM + "delete_markers"):
                    cl = argof(e.c, "cls", 1)
                    c.require("C34:others", False if cl is None or cl in (NONE, ref(MM + "ASTMarker")) else True if cl[0] == "ref" else None, where_of(e), "all markers are removed after the expansion of a module, so that forgotten ones are not found")
    with c.section("C34:classes"):
        classes(c, ix)
    c.floor(14)


def walkers(ix, base):
    return [ci for q, ci in sorted(ix.classes.items()) if q.startswith(MM) and "mcpyrate.walkers." + base in ix.mro(q)]


def matches(f, x, w, c, key):
    """truth of "x is an instance of the class asked for" on a path; reports other tests"""
    out = None
    for k, b in f.items():
        if is_call(k, "builtins.isinstance") and argof(k, 0) == x or k[0] == "isinst" and k[1] == x:
            cl = argof(k, 1) if k[0] == "call" else None
            if k[0] == "isinst":
                if {q for q in k[2]} <= {"mcpyrate.markers.ASTMarker"}:
                    c.bad(key + ":class", w, "the class asked for is not used")
                    out = b
                continue
            if cl == CLS or cl[0] == "free" and cl[2] == "cls" or contains(cl, S):
                out = b
            elif cl[0] == "ref":
                c.bad(key + ":class", w, "the class asked for is not used")
                out = b
        elif k[0] == "typeis" and k[1] == x or len(k) > 2 and k[0] in ("in", "cmp") and any(is_call(y, "builtins.type") and argof(y, 0) == x for y in k[1:3]):
            c.bad(key + ":class", w, "markers of a class that descends from the one asked for are not recognised")
            out = b
    return out


def find(c, ix):
    gm = ix.func(MM + "get_markers")
    ws = walkers(ix, "ASTVisitor")
    n = 0
    for o in returns(c.paths(gm)):
        w = at(c, gm, o)
        v = o.value
        vis = [e for e in o.state.trace if e.kind == "call" and e.c[0] == "call" and e.c[1][0] in ("bound", "attr") and str(e.c[1][2]).rsplit(".", 1)[-1] == "visit"]
        if v[0] == "attr" and v[2] == "collected" and v[1][0] == "call":
            mine = [e for e in vis if e.c[1][1] == v[1]]
            c.require("C34:find:tree", True if len(mine) == 1 and argof(mine[0].c, "tree", 0) == T else False if not mine else None, w, "the tree is not walked")
            n += 1
        else:
            c.require("C34:find:result", False if v == NONE or v in (("list", ()), ("tuple", ())) else None, w, f"returns {show(v)[:80]}")
    for ci in ws:
        fi = ix.find_method(ci.qualname, "examine")
        for o in c.paths(fi):
            w, f, tr = at(c, fi, o), o.state.facts, o.state.trace
            if o.kind != "return":
                c.bad("C34:find:raises", w, f"raises {show(o.value)[:60]}")
                continue
            m = matches(f, T, w, c, "C34:find")
            col = [e for e in tr if e.kind == "call" and own(e.c, "collect") or e.kind == "call" and e.c[1][0] == "attr" and e.c[1][1] == attr(S, "collected")]
            deep = [e for e in tr if e.kind == "call" and own(e.c, "generic_visit", "visit")]
            full = [e for e in deep if own(e.c, "generic_visit") and argof(e.c, "node", 0) == T]
            if m is None:
                c.unknown("C34:find:test", w, "")
            else:
                c.require("C34:find:collect", True if len(col) == (1 if m else 0) and all(T in [x for _, x in e.c[2]] for e in col) else False if m and not col or not m and col else None, w,
                          "a marker is not found" if m else "a node that is not a marker is found")
            loops = [e for e in tr if e.kind == "loop"]
            c.require("C34:find:inside", True if full else None if loops or deep and not m else False, w, "markers inside of " + ("a marker" if m else "a node") + " are not looked for")
    c.require("C34:find:some", bool(ws) and n > 0 or None, c.where(gm), "")


def delete(c, ix):
    dm = ix.func(MM + "delete_markers")
    ws = walkers(ix, "ASTTransformer")
    for o in returns(c.paths(dm)):
        w, v = at(c, dm, o), o.value
        good = None
        if v[0] == "call" and v[1][0] in ("bound", "attr") and str(v[1][2]).rsplit(".", 1)[-1] == "visit":
            good = argof(v, "tree", 0) == T
        elif v in (NONE, T):
            good = False if v == NONE or any(e.kind == "call" for e in o.state.trace) else None
        c.require("C34:delete:result", good, w, f"returns {show(v)[:80]}")
    B = attr(T, "body")
    for ci in ws:
        fi = ix.find_method(ci.qualname, "transform")
        for o in c.paths(fi):
            w, f, tr, v = at(c, fi, o), o.state.facts, o.state.trace, o.value
            if o.kind != "return":
                c.bad("C34:delete:raises", w, f"raises {show(o.value)[:60]}")
                continue
            m = matches(f, T, w, c, "C34:delete")
            absent = f.get(("isnone", B)) is True or truth(B, f) is False
            if m:
                good = None
                if own(v, "visit"):
                    good = argof(v, "tree", 0) == B
                    if good:
                        c.require("C34:delete:empty", any(contains(k, B) for k in f), w, "a marker without contents cannot be removed")
                elif own(v, "generic_visit") or v in (T,):
                    good = False
                elif v == B or v == NONE:
                    leaf = absent or any(k[0] in ("isinst", "typeis") and k[1] == B and b is False for k, b in f.items())
                    good = True if leaf else None if any(contains(k, B) and k[0] != "isnone" for k in f) or any(e.kind == "setattr" for e in tr) else False
                    if v == B and any(k[0] in ("isinst", "typeis") and k[1] == B and b is True and set(k[2]) <= {"builtins.list", "ast.AST"} for k, b in f.items()) and not any(e.kind in ("call", "loop") and not is_call(e.c, "builtins.isinstance") for e in tr):
                        good = False
                    if good is None and v == B and any(e.kind == "call" and own(e.c, "visit", "generic_visit") for e in tr):
                        good = None
                c.require("C34:delete:contents", good, w, f"a marker is replaced by {show(v)[:60]}, not by its contents without the markers in them")
            elif m is False:
                deep = [e for e in tr if e.kind == "call" and own(e.c, "generic_visit") and argof(e.c, "node", 0) == T]
                good = True if own(v, "generic_visit") and argof(v, "node", 0) == T or deep and v == T else False if v == NONE or v == T and not any(e.kind in ("call", "loop") and not is_call(e.c, "builtins.isinstance") for e in tr if isinstance(e.c, tuple)) else None
                c.require("C34:delete:inside", good, w, "markers inside of a node are not removed, or the node is lost")
            else:
                c.unknown("C34:delete:test", w, "")
    c.require("C34:delete:some", bool(ws) or None, c.where(dm), "")


def remaining(c, fi):
    FN = P("filename")
    for o in c.paths(fi):
        w, f, tr = at(c, fi, o), o.state.facts, o.state.trace
        g = [e for e in tr if e.kind == "call" and is_call(e.c, MM + "get_markers")]
        if not g:
            c.require("C34:check:looks", False if o.kind == "return" and not any(e.kind == "call" for e in tr) else None, w, "the tree is not looked at")
            continue
        G = g[0].c
        c.require("C34:check:tree", argof(G, "tree", 0) == T, w, f"looks at {show(argof(G, 'tree', 0))[:60]}")
        cl = argof(G, "cls", 1)
        gave = truth(CLS, f)
        if gave is None and f.get(("isnone", CLS)) is not None:
            gave = not f[("isnone", CLS)]
        isdef = cl is None or cl == ref(MM + "ASTMarker")
        c.require("C34:check:class", True if cl == CLS or isdef and gave is False else False if isdef and (gave or not any(contains(k, CLS) for k in f)) or cl is not None and cl[0] == "ref" and not isdef else None, w, "looks for markers of another class than the one asked for")
        t = truth(G, f)
        if t is None:
            for k, b in f.items():
                if k[0] == "cmp" and contains(k, G) and is_call(k[2], "builtins.len") | is_call(k[3], "builtins.len"):
                    other = k[3] if is_call(k[2], "builtins.len") else k[2]
                    if other == const(0):
                        t = not b if k[1] == "Eq" else b if k[1] == "Lt" else None
                    elif k[1] == "Lt":
                        c.bad("C34:check:few", w, f"markers are reported only if there are more than {show(other)}")
        if o.kind == "raise":
            c.require("C34:check:error", is_call(o.value, "mcpyrate.core.MacroExpansionError") or None, w, f"raises {show(o.value)[:60]}")
            c.require("C34:check:filename", contains(o.value, FN), w, "the error does not have the name of the file")
            c.require("C34:check:none", None if t is None else t, w, "raises though there are no markers")
        else:
            c.require("C34:check:reported", False if t else None if t is None and any(contains(k, G) for k in f) else t is False, w, "returns though markers remain")


def compiled(c, fi):
    FN = P("filename")
    for o in returns(c.paths(fi)):
        w, v, tr = at(c, fi, o), o.value, o.state.trace
        chk = [(i, e) for i, e in enumerate(tr) if e.kind == "call" and is_call(e.c, MM + "check_no_markers_remaining")]
        if not chk:
            c.require("C34:compiled:checked", False if v[0] == "call" else None, w, "an expanded module is not checked for markers")
            continue
        i, e = chk[-1]
        c.require("C34:compiled:tree", True if argof(e.c, "tree", 0) == v else False, where_of(e, w), "another tree than the one returned is checked for markers")
        cl = argof(e.c, "cls")
        c.require("C34:compiled:all", cl is None or cl == NONE or cl == ref(MM + "ASTMarker"), where_of(e, w), f"only {show(cl) if cl else ''} markers are looked for")
        c.require("C34:compiled:filename", argof(e.c, "filename") == FN, where_of(e, w), "the check does not get the name of the file")
        late = [x for x in tr[i + 1:] if x.kind == "call" and any(y == v for _, y in x.c[2])]
        c.require("C34:compiled:last", None if late else True, w, "")


def classes(c, ix):
    for q, ci in sorted(ix.classes.items()):
        if MM + "ASTMarker" not in ix.mro(q):
            continue
        fi = ix.find_method(q, "__init__")
        if fi is None:
            c.unknown("C34:classes:init", "", q)
            continue
        inl = [k + ".__init__" for k in ix.mro(q) if k + ".__init__" in ix.funcs]
        for o in returns(c.paths(fi, selfcls=q, inline=inl)):
            w = at(c, fi, o)
            sets = {e.b: e.c for e in o.state.trace if e.kind == "setattr" and e.a == S}
            sup = [e for e in o.state.trace if e.kind == "call" and str(e.c[1][2] if len(e.c[1]) > 2 else "").endswith("__init__")]
            flds = sets.get("_fields")
            hasbody = any(x == const("body") for x in subterms(flds)) if flds else None
            cls_fields = [v for k in ix.mro(q) if k in ix.classes for v in [ix.classes[k].attrs.get("_fields")] if v is not None]
            if hasbody is None and cls_fields:
                hasbody = any(isinstance(n, ast.Constant) and n.value == "body" for n in ast.walk(cls_fields[0])) or None
            if hasbody is None and sup:
                c.unknown("C34:classes:fields", w, q)
                continue
            if flds is not None and not hasbody and any(isinstance(x, tuple) and x and x[0] in ("attr", "opaque", "call") for x in subterms(flds)):
                hasbody = None
            c.require("C34:classes:fields", hasbody if hasbody is not None else None if flds is not None else False, w, f"walkers do not go into the contents of {q.rsplit('.', 1)[-1]}")
            c.require("C34:classes:body", True if "body" in sets else None if sup else False, w, f"{q.rsplit('.', 1)[-1]} does not keep its contents")
