"""Dialect templates keep module structure valid.

Rule: on every path that splices, the result is a concatenation in the documented order - one docstring part, the future-imports of
template and user code, the user's magic exports, the dialect-imports and then the macro-imports of template and user code, and the
spliced rest - in which each of these parts occurs exactly once and comes from its own source; when both sources have a docstring,
the part is one expression statement whose string contains both; what is spliced has been through each of the extractions. The
extractors collect exactly what they delete; the macro-import extractor searches the whole tree. Every statement of the template
is given the location of the dialect-import (of the first statement of the user code if none was given), overwriting what it had.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import argof, at, call_events, norm_ctor, raises, returns, where_of

P = lambda n: ("param", n)
S = P("self")
SF = "mcpyrate.coreutils.split_futureimports"
SS = "mcpyrate.splicing.splice_statements"
EA, EM = "extract_magic_all", "extract_macroimports"
ORDER = ["doc", ("future", "template"), ("future", "body"), ("all", "body"), ("dialects", "template"), ("dialects", "body"), ("macros", "template"), ("macros", "body"), "rest"]


def source(t, B, T):
    """which argument a list of statements descends from"""
    while True:
        if t == B or t == ("list", (B,)):
            return "body"
        if t == T or t == ("list", (T,)):
            return "template"
        if t[0] == "sub" and is_call(t[1], SF):
            t = argof(t[1], "body", 0)
        elif t[0] == "sub" and is_call(t[1], EA, EM):
            t = argof(t[1], "tree", 0)
        elif is_call(t, EA, EM):
            t = argof(t, "tree", 0)
        elif is_call(t, "builtins.list"):
            t = argof(t, 0)
        elif t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "star":
            t = t[1][0][1]
        else:
            return None


def flatten(t):
    if t[0] == "op" and t[1] == "Add":
        return flatten(t[2]) + flatten(t[3])
    if t[0] == "list":
        out = []
        for x in t[1]:
            out += flatten(x[1]) if x[0] == "star" else [("item", x)]
        return out
    return [t]


def magicname(t):
    m = argof(t, "magicname", 1)
    return "macros" if m is None else m[2] if m[0] == "const" else None


def part(t, B, T):
    """(kind, source)"""
    if t[0] == "item":
        k = norm_ctor(unlocated(t[1]))
        return ("doc", "both") if k and k[0] in ("Expr", "Constant") else None
    if t[0] == "sub" and is_call(t[1], SF) and t[2][0] == "const":
        s = source(argof(t[1], "body", 0), B, T)
        return {0: ("doc", s), 1: ("future", s), 2: ("raw", s)}.get(t[2][2]) if s else None
    if t[0] == "sub" and is_call(t[1], EA) and t[2] == const(1):
        s = source(argof(t[1], "tree", 0), B, T)
        return ("all", s) if s else None
    if t[0] == "sub" and is_call(t[1], EM) and t[2] == const(1):
        s, m = source(argof(t[1], "tree", 0), B, T), magicname(t[1])
        return (m, s) if s and m else None
    if is_call(t, SS):
        return ("rest", None)
    return None


def unlocated(t):
    while is_call(t, "ast.copy_location", "mcpyrate.astfixers.fix_locations"):
        t = argof(t, "new_node", 0) or argof(t, "tree", 0)
    return t


def check(c):
    ix = c.ix
    fi = ix.func("mcpyrate.splicing.splice_dialect")
    ps = fi.params()
    B, T = P(ps[0]), P(ps[1])
    with c.section("C22:result"):
        n = 0
        outs = c.paths(fi, opaque=[EA, EM, "split_futureimports", "splice_statements"], max_paths=60000)
        for o in outs:
            f, w, tr = o.state.facts, at(c, fi, o), o.state.trace
            if o.kind == "raise":
                c.require("C22:rejects", True if f.get(B) is False or any(isinstance(k, tuple) and (contains(k, P("lineno")) or contains(k, B)) for k in f) else None, w, f"raises {show(o.value)[:60]}")
                c.require("C22:rejects", False if f.get(("isinst", B, frozenset(["ast.AST"]))) and not any(e.kind == "callraise" for e in tr) else True, w, "a single statement is rejected")
                continue
            if f.get(("isinst", B, frozenset(["ast.AST"]))) is False:
                c.require("C22:rejects", f.get(B) is not False, w, "an empty body is accepted")
            v = o.value
            if not any(is_call(t, SS) for t in subterms(v)):
                if f.get(T) is False:
                    c.require("C22:empty", source(v, B, T) == "body", w, f"an empty template gives {show(v)[:60]}")
                else:
                    c.require("C22:spliced", None if any(is_call(e.c, SS) for e in tr if e.kind == "call") or v[0] in ("carried", "call") else False, w, "the user code is not spliced into the template")
                continue
            n += 1
            raw = flatten(v)
            parts = [part(t, B, T) for t in raw]
            ud, td = ("sub", None), None
            truth = {}
            for k, b in f.items():
                if isinstance(k, tuple) and k[0] == "sub" and is_call(k[1], SF) and k[2] == const(0):
                    truth[source(argof(k[1], "body", 0), B, T)] = b
            if None in parts:
                c.unknown("C22:parts", w, "; ".join(show(t)[:40] for t, p in zip(raw, parts) if p is None))
            known = [p for p in parts if p]
            # order
            rank = lambda p: ORDER.index(p[0]) if p[0] in ("doc", "rest") else ORDER.index(p) if p in ORDER else None
            rs = [rank(p) for p in known if rank(p) is not None]
            c.require("C22:order", rs == sorted(rs), w, "the parts of the module are in the order " + ", ".join("/".join(str(y) for y in p if y) for p in known))
            for p in ORDER:
                cnt = sum(1 for q in known if q == p or p in ("doc", "rest") and q[0] == p)
                name = p if isinstance(p, str) else f"{p[0]}-of-{p[1]}"
                if p == "doc":
                    continue
                c.require("C22:part:" + name, True if cnt == 1 else False if cnt > 1 else None if None in parts else False, w,
                          f"the {name.replace('-', ' ')} occur{'s' if cnt == 1 else ''} {cnt} times in the result")
            for q in known:
                c.require("C22:part:other", q[0] in ("doc", "rest") or q in ORDER or (None if q[0] == "raw" else False), w, f"{q[0]} of {q[1]} in the result")
            # docstring
            docs = [(q, t) for q, t in zip(parts, raw) if q and q[0] == "doc"]
            if truth.get("body") and truth.get("template"):
                both = [t for q, t in docs if q[1] == "both"]
                srcs = {q[1] for q, _ in docs}
                if len(docs) == 2:
                    c.bad("C22:docstring:both", w, "two docstring statements: the second one is no docstring")
                elif not both:
                    c.require("C22:docstring:both", None if None in parts else False, w, "one of the two docstrings is lost")
                for t in both:
                    k = norm_ctor(unlocated(t[1]))
                    c.require("C22:docstring:statement", k[0] == "Expr", w, "the combined docstring is no statement")
                    if k[0] == "Expr":
                        k = norm_ctor(unlocated(k[1].get("value", NONE)))
                        got = {source(argof(x, "body", 0), B, T) or (part(argof(x, "body", 0), B, T) or (None, None))[1] for x in subterms(t) if is_call(x, "getdocstring")}
                        c.require("C22:docstring:contents", True if got == {"body", "template"} else None if k is None or not got else False, w, "the combined docstring does not contain both")
                    loc = is_call(t[1], "ast.copy_location") or any(e.kind == "call" and is_call(e.c, "mcpyrate.astfixers.fix_locations", "ast.copy_location") and contains(e.c, t[1]) for e in tr)
                    c.require("C22:docstring:location", True if loc else None, w, "location")
            elif truth.get("body") is True:
                c.require("C22:docstring:user", True if any(q == ("doc", "body") for q, _ in docs) else None if None in parts else False, w, "the docstring of the user code is lost")
            elif truth.get("body") is False:
                c.require("C22:docstring:template", True if any(q == ("doc", "template") for q, _ in docs) or truth.get("template") is False else None if None in parts else False, w, "the docstring of the template is lost")
            elif "template" in truth and truth["template"] is False:
                c.require("C22:docstring:user", True if any(q == ("doc", "body") for q, _ in docs) else None if None in parts else False, w, "the docstring of the user code is lost")
            # what is spliced
            for i, e in call_events(tr, SS, raising=False):
                body, tpl, tag = argof(e, "body", 0), argof(e, "template", 1), argof(e, "tag", 2)
                c.require("C22:tag", tag == P("tag") or (False if tag is None or tag[0] == "const" else None), where_of(e, w), "the tag that was given is not used for splicing")
                for x, want in ((body, "body"), (tpl, "template")):
                    s = source(x, B, T)
                    if want == "body" and s == "body":
                        about = [b for k, b in f.items() if (k == x or isinstance(k, tuple) and contains(k, x) and k[0] == "cmp") and x != B]
                        c.require("C22:splice:nonempty", True if f.get(x) else False if not about else None, where_of(e, w), "user code that has nothing but a docstring and imports leaves nothing to splice, which is rejected")
                    k = norm_ctor(unlocated(x[1][0])) if x[0] == "list" and len(x[1]) == 1 else None
                    if want == "body" and k and k[0] in ("Pass", "Expr") and not contains(k[1].get("value", NONE), B):
                        c.require("C22:splice:nonempty", any(b is False and source(t, B, T) == "body" and t != B for t, b in f.items() if isinstance(t, tuple)) or None, where_of(e, w), "the user code is replaced")
                        continue
                    if s is None:
                        c.unknown("C22:splice:" + want, where_of(e, w), show(x)[:60])
                        continue
                    c.require("C22:splice:" + want, s == want, where_of(e, w), f"the {s} is spliced as the {want}")
                    cut = any(isinstance(t, tuple) and len(t) == 3 and t[0] == "sub" and is_call(t[1], SF) and t[2] == const(2) for t in [x] + list(subterms(x)))
                    c.require("C22:splice:rest-of-" + want, True if cut else False, where_of(e, w), f"docstring and future-imports of the {want} are also spliced")
                    done = [(("all",) if is_call(y.c, EA) else (magicname(y.c),)) for y in tr[:i] if y.kind == "call" and is_call(y.c, EA, EM) and source(argof(y.c, "tree", 0), B, T) == want]
                    for y in tr[:i]:
                        if y.kind == "call" and is_call(y.c, EA, EM):
                            a = argof(y.c, "tree", 0)
                            inner = argof(a, "x", 0) if is_call(a, "copy.deepcopy") else None
                            if inner is not None and source(inner, B, T) == want and not contains(x, a):
                                c.bad(f"C22:extract:copy-of-{want}", where_of(y, w), f"imports are taken out of a copy of the {want}, and so left in what is spliced")
                    other = {want: None in parts or any(y.kind == "call" and is_call(y.c, "visit") for y in tr[:i])}
                    for k in ("all", "dialects", "macros"):
                        c.require(f"C22:extract:{k}-of-{want}", True if (k,) in done else None if (None,) in done or other[want] else False, where_of(e, w), f"{k} are not taken out of the {want} before it is spliced")
            # locations
            fl = [(i, e) for i, e in call_events(tr, "mcpyrate.astfixers.fix_locations", raising=False)]
            mine = [e for _, e in fl if argof(e, "tree", 0) in (T, ("list", (T,))) or argof(e, "tree", 0)[0] == "elem" and argof(e, "tree", 0)[1] in (T, ("list", (T,)))]
            loops = [e for e in tr if e.kind == "loop" and e.a in (T, ("list", (T,)))]
            single = f.get(("isinst", T, frozenset(["ast.AST"])))
            if not mine:
                c.require("C22:location", None if fl and any(contains(argof(e, "tree", 0), T) for _, e in fl) else True if not loops and not single and _loopable(outs, T) else False, w, "the statements of the template are not given a location")
            for e in mine:
                m = argof(e, "mode", 2)
                c.require("C22:location:mode", m == const("overwrite") or (None if m is None or m[0] != "const" else False), where_of(e, w), f"locations of the template are set in mode {show(m) if m else None}")
                r = argof(e, "reference_node", 1)
                given = f.get(("isnone", P("lineno"))) is False and f.get(("isnone", P("col_offset"))) is False
                first = r in (("sub", B, const(0)), B)
                ln, co = o.state.heap.get((r, "lineno")), o.state.heap.get((r, "col_offset"))
                k = norm_ctor(r)
                if k:
                    ln, co = ln or k[1].get("lineno"), co or k[1].get("col_offset")
                if given:
                    c.require("C22:location:given", True if ln == P("lineno") and co == P("col_offset") else False if first or ln or co else None, where_of(e, w), f"the template is located at {show(r)[:40]} ({show(ln) if ln else None}, {show(co) if co else None}), not at the dialect-import")
                else:
                    c.require("C22:location:first", True if first else False if ln or co else None, where_of(e, w), f"the template is located at {show(r)[:40]}")
        c.require("C22:exercised", n > 0 or None, c.where(fi), "no path splices")
    extractors(c, fi)
    with c.section("C22:inplace"):
        inplace(c, fi)
    c.floor(25)


def inplace(c, fi):
    """where the result of extracting is thrown away, the list given must be the one that was changed"""
    dropped = [x for f in [fi] + [g for g in c.ix.funcs.values() if g.qualname.startswith(fi.qualname + ".")] for x in ast.walk(f.node)
               if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "visit"]
    vis = c.ix.func("mcpyrate.walkers.ASTTransformer.visit")
    if not dropped:
        c.ok("C22:inplace", c.where(fi))
        return
    T = P(vis.params()[1])
    for o in returns(c.paths(vis, selfcls="mcpyrate.walkers.ASTTransformer")):
        tr, w = o.state.trace, at(c, vis, o)
        islist = any(e.kind == "assume" and e.b and e.a[0] in ("isinst", "typeis") and e.a[1] == T and "builtins.list" in e.a[2] for e in tr)
        if not islist:
            continue
        put = any(e.kind in ("setitem", "delitem", "augassign") and e.a == T for e in tr) or any(e.kind == "call" and e.c[0] == "call" and e.c[1][0] in ("attr", "bound") and e.c[1][1] == T for e in tr)
        c.require("C22:inplace", True if put else None if any(e.kind == "call" and any(x == T for _, x in e.c[2]) and not is_call(e.c, "isinstance", "flatten", "len", "list", "id", "iter", "tuple", "enumerate", "reversed", "bool") for e in tr if e.kind == "call" and e.c[0] == "call") else False, w,
                  "what is taken out of a module body stays in it, because the body is not changed in place")


def _loopable(outs, T):
    return any(e.kind == "loop" and e.a in (T, ("list", (T,))) for o in outs for e in o.state.trace)


def extractors(c, fi):
    ix = c.ix
    for cls in [q for q in ix.classes if q.startswith("mcpyrate.splicing.")]:
        vis = ix.class_attr(cls, "transform")
        if vis is None or not hasattr(vis, "params"):
            continue
        key = "C22:" + cls.rsplit(".", 1)[-1]
        if "Splicer" in key:
            continue
        with c.section(key):
            N = P(vis.params()[1])
            for o in c.paths(vis, selfcls=cls, may_raise=None, opaque=["ismacroimport"]):
                f, w, v, tr = o.state.facts, at(c, vis, o), o.value, o.state.trace
                if o.kind != "return":
                    c.bad(key, w, f"raises {show(v)[:60]}")
                    continue
                col = [e for _, e in call_events(tr, "collect", raising=False)]
                gone = v == NONE
                mi = [(k, b) for k, b in f.items() if is_call(k, "ismacroimport")]
                alls = [(k, b) for k, b in f.items() if isinstance(k, tuple) and k[0] == "cmp" and k[1] == "Eq" and const("__all__") in (k[2], k[3])]
                c.require(key + ":collected", (len(col) == 1 and argof(col[0], "value", 0) == N) if gone else not col, w, "a statement is " + ("deleted without being collected" if gone else "collected but left in place"))
                ins = [(k, b) for k, b in f.items() if isinstance(k, tuple) and k[0] == "in" and isinstance(k[2], frozenset) and const("__all__") in k[2]]
                if mi:
                    c.require(key + ":which", gone == any(b for _, b in mi), w, "a macro-import is left, or another statement is deleted")
                    for k, b in mi:
                        mg = argof(k, "magicname", 1)
                        c.require(key + ":magicname", False if mg is None or mg[0] == "const" else True if mg[0] in ("free", "attr", "param") else None, w, f"the kind of import looked for is {show(mg) if mg else 'macros'}")
                        c.require(key + ":subject", argof(k, "statement", 0) == N, w, show(k)[:50])
                    if not gone:
                        c.require(key + ":deep", True if is_call(v, "generic_visit") or any(is_call(e.c, "generic_visit") for e in tr if e.kind == "call") else False if v == N else None, w, "imports inside of other statements are not found")
                elif ins:
                    # a test of membership among several names
                    c.require(key + ":which", False if any(b for k, b in ins if any(x[0] == "const" and x != const("__all__") for x in k[2])) and gone else None, w, f"assignments to other names than __all__ are taken for magic exports")
                elif alls:
                    hit = any(b for _, b in alls)
                    c.require(key + ":which", gone == hit or (None if hit else False), w, "the magic exports are left in place, or another statement is deleted")
                    if not gone:
                        c.require(key + ":toplevel", v == N or (False if is_call(v, "generic_visit") else None), w, "assignments inside of other statements are taken for magic exports")
                elif gone and any(is_call(k, "startswith", "endswith") or k[0] == "in" and k[1] != const("__all__") and k[2][0] == "const" and k[2][1] == "str" for k in f if isinstance(k, tuple)):
                    c.bad(key + ":which", w, "a name that only looks like __all__ is taken for it")
                elif gone:
                    c.unknown(key + ":which", w, "deleted without a test")
                else:
                    c.require(key + ":toplevel", v == N or None, w, show(v)[:60]) if "All" in key else None


