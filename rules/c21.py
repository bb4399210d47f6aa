"""Splicing templates yields fresh, complete trees.

Rule: in each splicing function the visitor that is run on the template answers a placeholder - exactly the nodes of the
placeholder's kind (a name; an expression statement that is a name) with the tag that was given, in whatever context - with the
spliced tree itself at most once (a flag that is true initially and cleared on that path) and with a deep copy of it otherwise, and
continues into the children of every other node; what is spliced is the argument, or the one-element list of it, and what is visited
is the template, or the one-element list of it; an empty template gives the spliced tree, an argument of a wrong kind or an empty
body is rejected.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import argof, at, call_events, raises, returns, where_of

P = lambda n: ("param", n)
S = P("self")


LEAVES = {"ast." + x for x in ("Constant", "Name", "Pass", "Break", "Continue", "Global", "Nonlocal", "alias", "Import", "ImportFrom", "Load", "Store", "Del", "expr_context", "operator", "boolop", "unaryop", "cmpop")} | {
    "builtins.str", "builtins.int", "builtins.NoneType"}

CONCRETE = LEAVES - {"ast.expr_context", "ast.operator", "ast.boolop", "ast.unaryop", "ast.cmpop"} | {"ast." + x for x in (
    "FunctionDef", "AsyncFunctionDef", "ClassDef", "With", "AsyncWith", "For", "AsyncFor", "While", "If", "Try", "TryStar", "Match", "Assign", "AugAssign", "AnnAssign", "Return", "Delete", "Raise", "Assert", "Module", "Interactive", "Expression",
    "Lambda", "ListComp", "SetComp", "DictComp", "GeneratorExp", "Call", "Attribute", "Subscript", "Tuple", "List", "Dict", "Set", "JoinedStr", "BinOp", "BoolOp", "UnaryOp", "Compare", "IfExp", "Await", "Yield", "YieldFrom", "Starred", "NamedExpr", "Slice")}


def visitor_class(ix, t):
    """class of the visitor in Cls(...).visit(x)"""
    if is_call(t, "visit") and t[1][0] in ("attr", "bound"):
        r = t[1][1]
        if r[0] == "call":
            q = callee(r[1])
            if q in ix.classes:
                return q
    return None


def kindfact(f, t, kinds):
    """does the path know that t is (exactly) of one of the classes?"""
    for k, v in f.items():
        if isinstance(k, tuple) and k[0] in ("isinst", "typeis") and k[1] == t:
            if v and set(k[2]) <= kinds:
                return True
            if not v and kinds <= set(k[2]):
                return False
            if v and not (set(k[2]) & kinds) and (k[0] == "typeis" or set(k[2]) <= CONCRETE):
                return False
    return None


def tagfact(f, t, fi):
    for k, v in f.items():
        if isinstance(k, tuple) and k[0] == "cmp" and k[1] == "Eq" and t in (k[2], k[3]):
            other = k[3] if k[2] == t else k[2]
            return v, other
    return None, None


def free(t, name):
    return t[0] == "free" and t[2] == name or t == P(name)


def undeep(t):
    """the term with what is copied deeply left out"""
    if not isinstance(t, tuple):
        return t
    if is_call(t, "copy.deepcopy"):
        return NONE
    return tuple(undeep(x) for x in t)


def splicer(c, fn, what, statement):
    ix = c.ix
    key = f"C21:{fn}"
    fi = ix.func("mcpyrate.splicing." + fn)
    X, T = fi.params()[0], fi.params()[1]
    TAG = "tag"
    cls = None
    outs = c.paths(fi)
    for o in outs:
        f, w = o.state.facts, at(c, fi, o)
        if o.kind != "return":
            continue
        v = o.value
        q = visitor_class(ix, v)
        if q is None:
            empty = f.get(P(T)) is False or any(isinstance(k, tuple) and k[0] == "cmp" and is_call(k[2], "builtins.len") for k in f)
            if f.get(P(T)) is False or f.get(("isnone", P(T))):
                c.require(key + ":empty", v == P(X) or v == ("list", (P(X),)), w, f"an empty template gives {show(v)[:60]}")
            else:
                vs = [t for t in subterms(v) if isinstance(t, tuple) and t and t[0] == "call" and visitor_class(ix, t)]
                for t in vs:
                    cls = visitor_class(ix, t)
                nested = statement and v[0] == "list" and any(isinstance(x, tuple) and x and x[0] == "rep" and x[2] in vs for x in v[1])
                if nested:
                    c.bad(key + ":result", w, "each statement's result, which may be a list of statements, becomes one item: statement lists are nested")
                    continue
                c.require(key + ":result", None if v[0] in ("call", "carried", "list", "sub") else False, w, f"gives {show(v)[:60]}")
            continue
        cls = q
        tree = argof(v, "tree", "node", 0)
        ok = tree == P(T) or tree == ("list", (P(T),))
        c.require(key + ":template", True if ok else False if not contains(tree, P(T)) else None, w, f"what is spliced into is {show(tree)[:60]}")
        single = f.get(("isinst", P(T), frozenset(["ast.AST"])))
        if single is False:
            c.require(key + ":template:list", tree == P(T) or None, w, show(tree)[:60])
    if cls is None:
        c.unknown(key + ":visitor", c.where(fi), "no visitor class found")
        return
    # what the visitor's free variable is bound to
    for o in returns(outs):
        if visitor_class(ix, o.value) is None:
            continue
        env = getattr(o.state, "env", None)
    vis = ix.find_method(cls, "transform") or ix.find_method(cls, "visit")
    if vis is None or vis.module is not fi.module:
        c.unknown(key + ":visitor", c.where(fi), "the visitor has no method of its own")
        return
    N = P(vis.params()[1])
    init = ix.class_attr(cls, "__init__")
    kinds = {"ast.Expr"} if statement else {"ast.Name"}
    hits = first = 0
    for o in c.paths(vis, selfcls=cls):
        f, w, v, tr = o.state.facts, at(c, vis, o), o.value, o.state.trace
        if o.kind == "raise":
            c.bad(key + ":total", w, f"a template node makes splicing fail with {show(v)[:60]}")
            continue
        if statement:
            k1, k2 = kindfact(f, N, {"ast.Expr"}), kindfact(f, attr(N, "value"), {"ast.Name"})
            tv, other = tagfact(f, attr(attr(N, "value"), "id"), fi)
            is_ph = False if k1 is False or k2 is False or tv is False else True if k1 and k2 and tv else None
        else:
            k1, k2 = kindfact(f, N, {"ast.Name"}), True
            tv, other = tagfact(f, attr(N, "id"), fi)
            is_ph = False if k1 is False or tv is False else True if k1 and tv else None
        if f.get(("isinst", N, frozenset(["builtins.list"]))):
            continue
        if other is not None:
            c.require(key + ":tag", True if free(other, TAG) else False if other[0] == "const" else None, w, f"placeholders are recognised by {show(other)[:40]}, not by the tag that was given")
        gv = is_call(v, "generic_visit")
        copy = is_call(v, "copy.deepcopy")
        src = argof(v, "x", 0) if copy else v
        shallow = is_call(v, "copy.copy") or is_call(v, "copy") and v[1][0] in ("attr", "bound")
        names = [X]
        isx = free(src, X) or src[0] == "free" and not free(src, TAG) and not free(src, T) or src[0] == "list" and len(src[1]) == 1 and (free(src[1][0], X) or src[1][0][0] == "star" and free(src[1][0][1], X))
        if gv:
            c.require(key + ":left", False if is_ph else True if is_ph is False else None, w, "a placeholder is left in the template" + ("" if is_ph else " (undecided)"))
            c.require(key + ":children", argof(v, "node", "tree", 0) == N, w, f"the children of {show(argof(v, 'node', 'tree', 0))[:40]} are visited")
        elif shallow and any(isinstance(x, tuple) and x and x[0] == "free" for x in subterms(v)):
            c.bad(key + ":fresh", w, f"occurrences share nodes: {show(v)[:60]}")
        elif copy and isx or isx:
            if is_ph is False:
                c.bad(key + ":others", w, f"a node that is no placeholder is replaced")
                continue
            if is_ph is None:
                loose = [k for k, t in f.items() if t and (is_call(k, "startswith", "endswith", "count", "find") and contains(k, N) or isinstance(k, tuple) and k[0] == "cmp" and k[1] == "In" and contains(k, "id") and free(k[3] if contains(k[2], N) else k[2], TAG))]
                why = ["exact tag"] if loose else []
                if k1 is None and not any(isinstance(k, tuple) and contains(k, N) and k[0] == "call" for k in f):
                    why.append("kind")
                if tv is None and not any(isinstance(k, tuple) and contains(k, N) and k[0] == "call" for k in f):
                    why.append("tag")
                if any(isinstance(x, tuple) and x and is_call(x, "ast.walk", "ast.iter_child_nodes") and contains(x, N) for k, t in f.items() if t for x in subterms(k)):
                    why.append("position of the tag")
                c.require(key + ":others", False if why else None, w, f"nodes are replaced whatever their {' and '.join(why)}")
                continue
            hits += 1
            c.require(key + ":spliced", free(src, X) or src[0] == "list" or None, w, f"a placeholder becomes {show(v)[:60]}")
            if copy:
                c.ok(key + ":fresh", w, "a deep copy")
                continue
            first += 1
            # the original is handed out at most once
            cleared = [(ob, nm) for (ob, nm), val in o.state.heap.items() if nm != "#" and val == FALSE and f.get(attr(ob, nm)) is True] + [
                (ob, nm) for (ob, nm), val in o.state.heap.items() if nm != "#" and val == TRUE and f.get(attr(ob, nm)) is False]
            nonl = [e for e in tr if e.kind in ("setnonlocal", "global", "setitem", "augassign", "setattr")]
            c.require(key + ":fresh", True if cleared else None if any(e.kind not in ("call",) for e in nonl) else False, w, "every occurrence of the placeholder is given the same nodes")
            for ob, nm in cleared:
                want = f.get(attr(ob, nm))
                if init is not None and ob == S:
                    iv = None
                    for oo in c.paths(init, selfcls=cls, opaque=["reset"]):
                        iv = oo.state.heap.get((S, nm), iv)
                    c.require(key + ":first", None if iv is None else iv == (TRUE if want else FALSE) or None, w, "the flag's initial value")
        elif v == N:
            c.require(key + ":left", False if is_ph else None if is_ph is None else True, w, "a placeholder is left in the template")
            if is_ph is False:
                deep = any(is_call(e.c, "generic_visit") for e in tr if e.kind == "call")
                pos = [set(k[2]) for k, val in f.items() if isinstance(k, tuple) and k[0] in ("isinst", "typeis") and k[1] == N and val]
                leaf = any(p <= LEAVES for p in pos)
                c.require(key + ":children", True if deep or leaf else False, w, "placeholders inside of other nodes are not replaced")
        elif v == NONE or v[0] == "const":
            c.bad(key + ":lost", w, f"a template node becomes {show(v)[:40]}")
        elif copy and src == N:
            c.bad(key + ":left", w, "a template node is copied, not searched")
        elif any(isinstance(x, tuple) and x and free(x, X) for x in subterms(undeep(v))):
            flag = any(nm != "#" and val in (TRUE, FALSE) and f.get(attr(ob, nm)) is not None for (ob, nm), val in o.state.heap.items()) or any(e.kind in ("setnonlocal", "global", "setitem", "augassign", "setattr") for e in tr)
            c.require(key + ":fresh", None if flag or is_ph is not True or v[0] == "call" and not is_call(v, "copy.copy", "builtins.list", "builtins.map") else False, w, f"occurrences share nodes: {show(v)[:60]}")
        else:
            c.unknown(key + ":result", w, show(v)[:60])
    c.require(key + ":exercised", hits > 0 or None, c.where(vis), "no path splices")
    # a subclass of the package's or the library's transformer, which visits every field
    c.require(key + ":walker", True if ix.is_subclass(cls, "ast.NodeTransformer") or ix.is_subclass(cls, "mcpyrate.walkers.ASTTransformer") else None, c.where(vis), "the visitor's base")


def rebinding(c, fn):
    """the name the visitor splices holds the argument, or its one-element list; no other argument"""
    ix = c.ix
    fi = ix.func("mcpyrate.splicing." + fn)
    ps = fi.params()
    X, T = ps[0], ps[1]
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id in (X, T):
            name = x.targets[0].id
            v = x.value
            w = f"{fi.file}:{x.lineno}"
            used = {y.id for y in ast.walk(v) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
            other = T if name == X else X
            wrap = isinstance(v, ast.List) and len(v.elts) == 1
            if wrap and other in used and name not in used:
                c.bad(f"C21:{fn}:forms", w, f"{name} is replaced by {other}")
            else:
                c.require(f"C21:{fn}:forms", True if name in used else None, w, ast.unparse(x)[:60])


def check(c):
    for fn, what, st in (("splice_expression", "expression", False), ("splice_statements", "statements", True)):
        with c.section("C21:" + fn):
            splicer(c, fn, what, st)
        with c.section(f"C21:{fn}:forms"):
            rebinding(c, fn)
    # accepted and rejected forms
    with c.section("C21:forms"):
        fi = c.ix.func("mcpyrate.splicing.splice_expression")
        E, T = P(fi.params()[0]), P(fi.params()[1])
        good = 0
        for o in c.paths(fi):
            f, w = o.state.facts, at(c, fi, o)
            if f.get(T) is False or f.get(("isnone", T)):
                continue
            isexpr = f.get(("isinst", E, frozenset(["ast.expr"])))
            mk = f.get(("isinst", E, frozenset(["mcpyrate.markers.ASTMarker"])))
            inner = f.get(("isinst", attr(E, "body"), frozenset(["ast.expr"])))
            tt = [v for k, v in f.items() if isinstance(k, tuple) and k[0] == "isinst" and k[1] == T and set(k[2]) >= {"ast.AST", "builtins.list"}]
            acceptable = isexpr or (mk and inner)
            if o.kind == "return":
                good += 1
                c.require("C21:forms:rejects", True if acceptable else False if isexpr is False and (mk is False or inner is False) else None, w, "something that is no expression is spliced into an expression")
            elif acceptable and not {"ast.AST", "builtins.list"} <= set().union(*[set(k[2]) for k, v in f.items() if isinstance(k, tuple) and k[0] == "isinst" and k[1] == T and not v]) and any(
                    isinstance(k, tuple) and k[0] == "isinst" and k[1] == T and not v for k, v in f.items()):
                c.bad("C21:forms:accepts", w, f"a template in one of the accepted forms is rejected: {show(o.value)[:60]}")
            elif acceptable and (tt and all(tt)):
                c.bad("C21:forms:accepts", w, f"an expression and a template are rejected: {show(o.value)[:60]}")
            else:
                c.ok("C21:forms:rejects", w)
        fi = c.ix.func("mcpyrate.splicing.splice_statements")
        B, T = P(fi.params()[0]), P(fi.params()[1])
        A = frozenset(["ast.AST"])
        combos = set()
        for o in c.paths(fi):
            f, w = o.state.facts, at(c, fi, o)
            b1, t1 = f.get(("isinst", B, A)), f.get(("isinst", T, A))
            if b1 is None or t1 is None:
                continue
            empty = f.get(B) is False
            if o.kind == "raise":
                c.require("C21:forms:accepts", False if b1 or f.get(B) else True if empty else None, w, f"statements are rejected: {show(o.value)[:60]}")
            else:
                combos.add((b1, t1))
                c.require("C21:forms:rejects", False if b1 is False and empty else True, w, "an empty body is spliced")
        for cb in ((True, True), (True, False), (False, True), (False, False)):
            c.require("C21:forms:combination", cb in combos or None, c.where(fi), f"single/list {cb}")
    c.floor(12)
