"""Macro deletions and expansions keep coverage and valid structure.

Rule: all paths of the handlers of the macro invocation kinds are enumerated, with the helpers of the package inlined. Statement kinds: on each
path where the invocation has a location, the list returned starts with a new statement wrapped in the mark that the expander leaves alone,
followed by exactly what the macro gave: all of it, the one node, or nothing. Expression kinds: on no path can the result be the nothing that the macro
gave; what is put in its place is a new expression that evaluates to None. Each new node has all the fields the grammar of the running Python requires, of the right
kind, and the location of the invocation (the macro's own decorator for decorated statements), and is not one that the compiler drops. The expansion of a macro
that gave None is None on all paths of the application chain, and the visit of a tree marked as finished returns it unchanged.
"""
from lib import asdl
from lib.interp import FALSE, NONE, TRUE, attr, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, norm_ctor, returns, truth, visitor, where_of
from lib.shape import P

S = P("self")
X = "mcpyrate.expander.MacroExpander"
B = "mcpyrate.core.BaseMacroExpander"
DONE = "mcpyrate.core.Done"
LOC = ("lineno", "col_offset")


def check(c):
    ix = c.ix
    for kind in ("With", "ClassDef", "FunctionDef", "AsyncFunctionDef"):
        with c.section(f"C35:statement:{kind}"):
            statement(c, ix, visitor(ix, X, kind), kind)
    for kind in ("Subscript", "Name"):
        with c.section(f"C35:expression:{kind}"):
            expression(c, ix, visitor(ix, X, kind), kind)
    with c.section("C35:nothing"):
        nothing(c, ix.find_method(X, "expand"))
    with c.section("C35:unaltered"):
        unaltered(c, ix, ix.find_method(X, "visit"))
    c.floor(24)


def expansions(o):
    return [(i, e) for i, e in enumerate(o.state.trace) if e.kind == "call" and e.c[0] == "call" and e.c[1][0] in ("bound", "attr") and e.c[1][1] == S and str(e.c[1][2]).rsplit(".", 1)[-1] == "expand"]


def inlines(ix):
    return [f.qualname for f in ix.funcs.values() if f.qualname.startswith("mcpyrate.expander.") and f.name not in ("destructure_candidate", "_detect_macro_items", "ismacrocall") and
            (f.name.startswith("_") and not f.name.startswith("__"))]


def elements(o, v, E):
    """what the handler returns as a list of items, E's own elements standing as ("star", E); None if not known"""
    f = o.state.facts
    if v == E:
        ins = [e for e in o.state.trace if e.kind in ("call", "listop") and (e.kind == "call" and e.c[1] == attr(E, "insert") or e.kind == "listop" and e.a == E and e.b == "insert")]
        alt = [e for e in o.state.trace if e.kind == "call" and e.c[1][0] == "attr" and e.c[1][1] == E and e.c[1][2] != "insert" or e.kind in ("setitem", "augassign") and e.a == E]
        if alt:
            app = [e for e in alt if e.kind == "call" and e.c[1][2] in ("append", "extend")]
            return [("star", E)] + [argof(e.c, 0) for e in app] if len(app) == len(alt) and not ins else None
        out = [("star", E)]
        for e in ins:
            if e.kind != "call" or argof(e.c, 0) is None:
                return None
            if argof(e.c, 0) != const(0):
                return [("star", E), argof(e.c, 1)]
            out.insert(0, argof(e.c, 1))
        return out
    if v[0] in ("list", "tuple"):
        out = []
        for x in v[1]:
            if x[0] == "star":
                if x[1] == E or is_call(x[1], "builtins.list", "builtins.tuple", "builtins.iter") and argof(x[1], 0) == E:
                    out.append(("star", E))
                elif x[1][0] in ("list", "tuple"):
                    y = elements(o, x[1], E)
                    if y is None:
                        return None
                    out += y
                else:
                    return None
            elif x[0] == "rep":
                return None
            else:
                out.append(x)
        return out
    if v[0] == "op" and v[1] == "Add":
        a, b = elements(o, v[2], E), elements(o, v[3], E)
        return a + b if a is not None and b is not None else None
    if is_call(v, "builtins.list", "builtins.tuple") and len(v[2]) == 1:
        return elements(o, v[2][0][1], E)
    if v == NONE:
        return []
    return None


def absent(E, f):
    """what the path knows of what the macro gave: "none", "list", "one", or None"""
    if f.get(("isnone", E)):
        return "none"
    for k, b in f.items():
        if k[0] in ("isinst", "typeis") and k[1] == E:
            names = set(k[2]) if isinstance(k[2], (tuple, frozenset, set)) else {k[2]}
            if names & {"ast.AST", "_ast.AST"}:
                return "one" if b else "list" if f.get(("isnone", E)) is False or truth(E, f) else "notone"
            if names & {"builtins.list"}:
                return "list" if b else "one" if f.get(("isnone", E)) is False or truth(E, f) else "notlist"
    if truth(E, f) is False:
        return "falsy"
    return "something" if f.get(("isnone", E)) is False or truth(E, f) else None


class New:
    """checks a newly made node"""

    def __init__(self, c, key, w, macronode, others, heap=None):
        self.c, self.key, self.w, self.m, self.others, self.heap = c, key, w, macronode, others, heap or {}

    def place(self, k):
        """is a location source right? True, False or None"""
        if self.m(k):
            return True
        return False if self.others(k) else None

    def node(self, t, want, inherited=None):
        """walk a constructor term; returns its class"""
        c, where = self.c, inherited
        while t[0] == "call" and t[1][0] == "ref" and t[1][1] in ("ast.copy_location", "ast.fix_missing_locations", "mcpyrate.astfixers.fix_locations", "copy.copy", "copy.deepcopy"):
            n = t[1][1]
            if n == "ast.copy_location" or n.endswith("fix_locations"):
                src = argof(t, "old_node", 1) if n == "ast.copy_location" else argof(t, "reference_node", 1)
                r = self.place(src) if src is not None else None
                c.require(self.key + ":place", r, self.w, f"a new node gets its location from {show(src)[:60] if src else ''}")
                where = "all" if n.endswith("fix_locations") else "own" if where is None else where
            elif n == "ast.fix_missing_locations":
                where = "all"
            t = argof(t, 0) or t[2][0][1]
        k = norm_ctor(t)
        if k is None:
            c.unknown(self.key + ":node", self.w, show(t)[:60])
            return None
        cls, given = k
        for (obj, name), v in self.heap.items():
            if obj == t and isinstance(name, str):
                given = {**given, name: v}
        if "*" in given or any(x is None for x in given) or cls not in asdl.fields():
            c.unknown(self.key + ":node", self.w, cls)
            return cls
        ok = cls == want or cls in asdl.members().get(want, ())
        c.require(self.key + ":kind", ok, self.w, f"a {cls} node is put where {want} is required")
        if any(p in given for p in LOC) and where is None:
            r = [self.place(given[p][1]) if p in given and given[p][0] == "attr" else None for p in LOC]
            c.require(self.key + ":place", True if all(x is True for x in r) else False if False in r else None, self.w, "the location of a new node is not that of the invocation")
            where = "own"
        elif any((t, p) in self.heap for p in LOC):
            where = "own"
        import ast as _a
        if "lineno" in getattr(getattr(_a, cls), "_attributes", ()):
            c.require(self.key + ":located", where is not None, self.w, f"a new {cls} node has no location: the tree does not compile")
        sub = "all" if where == "all" else None
        for n, ty, q in asdl.fields()[cls]:
            v = given.get(n)
            if v is None or v == NONE and ty != "constant":
                c.require(self.key + ":fields", q == "?" or ty == "expr_context" and v is None, self.w, f"a new {cls} node has no {n}: the tree does not compile")
                continue
            if ty in asdl.TERMINALS:
                continue
            if q == "*":
                if v[0] == "list":
                    for x in v[1]:
                        if x[0] in ("star", "rep"):
                            c.unknown(self.key + ":node", self.w, n)
                        elif x != NONE:
                            self.node(x, ty, sub)
                elif v[0] != "new":
                    c.require(self.key + ":fields", None, self.w, "")
            elif ty == "expr_context":
                continue
            else:
                self.node(v, ty, sub)
        return cls


def strip(t):
    """the node under its wrappers, and whether it is marked as finished"""
    done = False
    while t is not None and t[0] == "call":
        if is_call(t, DONE):
            done, t = True, t[2][0][1]
        elif t[1][0] == "ref" and t[1][1] in ("ast.copy_location", "ast.fix_missing_locations", "mcpyrate.astfixers.fix_locations"):
            t = t[2][0][1]
        else:
            break
    return t, done


def statement(c, ix, fi, kind):
    N = P(fi.params()[1])
    key = "C35:statement"
    inl = inlines(ix)
    n = 0
    for o in returns(c.paths(fi, inline=inl)):
        w, f, tr = at(c, fi, o), o.state.facts, o.state.trace
        ex = expansions(o)
        if not ex:
            continue
        E = ex[-1][1].c
        name = argof(E, "macroname", 2)
        unlocated = [k for k, b in f.items() if k[0] == "hasattr" and k[-1] in LOC and b is False or
                     is_call(k, "builtins.hasattr") and b is False and argof(k, 1) is not None and argof(k, 1)[0] == "const" and argof(k, 1)[2] in LOC]
        for k in unlocated:
            # a with item has no location of its own
            x = k[1] if k[0] == "hasattr" else argof(k, 0)
            if x != N and kind == "With" and not contains(x, const("context_expr")) and x[0] == "sub":
                c.bad(key + ":lost", w, "the item of a `with` has no location, and is asked for one")
        if unlocated:
            continue
        n += 1
        what = absent(E, f)
        if what in ("none", "notone", "notlist") and any(e.kind == "call" and e.c[1] == attr(E, "insert") for e in tr):
            c.bad(key + ":rest", w, "a statement is inserted into the nothing that the macro gave")
            continue
        items = elements(o, o.value, E)
        if items is None:
            bare = o.value == E or o.value[0] == "call" and o.value[1] == ("attr", S, "visit") and argof(o.value, 0) == E
            c.require(key + ":first", False if bare else None, w, "the output of a macro is returned without a dummy statement")
            continue
        if not items or items[0] == E or items[0][0] == "star":
            c.bad(key + ":first", w, "there is nothing at the location of the invocation" + (" before the output of the macro" if len(items) > 1 else ""))
            continue
        D = items[0]
        node, done = strip(D)
        c.ok(key + ":first", w)
        made = norm_ctor(node)
        c.require(key + ":marked", done or (False if made else None), w, "later macros can alter the dummy statement")
        if kind == "With":
            mine = lambda t: t == N or is_call(t, "copy.copy") and argof(t, 0) == N or t == argof(E, "target", 1)
            others = lambda t: not mine(t) and (t == S or contains(t, attr(N, "body")) or contains(t, E))
        else:
            mine = lambda t: t is not None and t != N and contains(t, N) and contains(name, t)
            others = lambda t: not mine(t) and (t == S or t == N or t == argof(E, "target", 1) or contains(t, attr(N, "body")) or contains(t, E) or t[0] == "sub")
        cls = New(c, key + ":dummy", w, mine, others, o.state.heap).node(D[2][0][1] if is_call(D, DONE) else D, "stmt")
        if cls == "Pass" or cls == "Expr" and made and (norm_ctor(strip(made[1].get("value", NONE))[0]) or ("",))[0] in ("Constant", "Name"):
            c.require(key + ":runs", cls == "Expr" and norm_ctor(strip(made[1]["value"])[0])[0] == "Name" or False, w, "the compiler drops the dummy statement: the invocation is not reported as run")
        elif cls:
            c.ok(key + ":runs", w)
        for x in subterms(node):
            k = norm_ctor(x) if isinstance(x, tuple) and x and x[0] == "call" else None
            if k and k[0] == "Name" and "id" in k[1] and contains(node, x) and cls in ("Assign", "AnnAssign", "AugAssign"):
                c.require(key + ":variable", k[1]["id"][0] == "const" or (False if k[1]["id"] == name or name is not None and name in subterms(k[1]["id"]) and k[1]["id"][0] != "fstr" else None), w, "the dummy statement assigns to a name of the user's")
        rest = items[1:]
        if what == "none":
            c.require(key + ":rest", True if not rest else False if rest in ([E], [("star", E)], [NONE]) else None, w, "a deleted invocation leaves " + show(rest[0])[:40] if rest else "")
        elif what == "one":
            c.require(key + ":rest", True if rest == [E] else False if not rest or rest == [("star", E)] else None, w, "the node that the macro gave is lost")
        elif what == "list":
            c.require(key + ":rest", True if rest == [("star", E)] else False if not rest or rest == [E] else None, w, "the statements that the macro gave are lost")
        elif what == "falsy":
            c.require(key + ":rest", True if not rest or rest == [("star", E)] and f.get(("isnone", E)) is False else False if rest == [E] else None, w, "a deleted invocation leaves nothing valid")
        elif what == "something":
            c.require(key + ":rest", False if not rest else None, w, "what the macro gave is lost")
        else:
            c.require(key + ":rest", False if not rest and what is None or rest == [E] and what is None else None, w, "what the macro gave is lost, or a deletion leaves None in the tree")
    c.require("C35:statement:some", n > 0 or None, c.where(fi), "")


def evaluates_to_none(t):
    """True, False or None for a term of a new expression node"""
    t = strip(t)[0]
    k = norm_ctor(t)
    if k is None:
        return None
    cls, g = k
    if cls == "Constant":
        return g.get("value") == NONE
    if cls == "Call" and "func" in g:
        fn = norm_ctor(strip(g["func"])[0])
        if fn and fn[0] == "Lambda":
            args = [g.get(n) for n in ("args", "keywords")]
            if any(a is not None and a[0] == "list" and a[1] for a in args):
                return None
            return evaluates_to_none(fn[1].get("body", NONE)) if "body" in fn[1] else None
        return None
    if cls in ("Name", "Tuple", "List", "Dict", "Set", "JoinedStr", "Lambda"):
        return False
    return None


def expression(c, ix, fi, kind):
    N = P(fi.params()[1])
    key = "C35:expression"
    n = 0
    for o in returns(c.paths(fi, inline=inlines(ix))):
        w, f, v = at(c, fi, o), o.state.facts, o.value
        ex = expansions(o)
        if not ex:
            continue
        n += 1
        E = ex[-1][1].c
        isnone = f.get(("isnone", E))
        if isnone is None and truth(E, f):
            isnone = False
        if isnone is None:
            for k, b in f.items():
                if k[0] in ("isinst", "typeis") and k[1] == E and b:
                    isnone = False
        node, done = strip(v)
        if isnone is False:
            same = node == E or node[0] == "call" and node[1][0] in ("attr", "bound") and node[1][1] == S and str(node[1][2]).rsplit(".", 1)[-1] == "visit" and argof(node, "tree", 0) == E
            c.require(key + ":kept", True if same else False if v == NONE or norm_ctor(node) else None, w, f"the expansion is replaced by {show(v)[:60]}")
            continue
        if node == N or node[0] == "attr" and node[1] == N:
            c.bad(key + ":filled", w, "an expression macro that gives nothing leaves its own invocation (or a part of it) in place")
            continue
        if v == NONE or node == E or contains(node, E) and node[0] == "call" and not norm_ctor(node):
            c.bad(key + ":filled", w, "an expression macro that gives nothing leaves nothing in its place")
            continue
        if norm_ctor(node) is None:
            c.unknown(key + ":filled", w, show(v)[:60])
            continue
        c.require(key + ":filled", evaluates_to_none(node), w, f"a deleted expression evaluates to {show(node)[:60]}")
        mine = lambda t: t == N or is_call(t, "copy.copy") and argof(t, 0) == N or t == argof(E, "target", 1)
        others = lambda t: t == S or contains(t, E)
        cls = New(c, key + ":dummy", w, mine, others, o.state.heap).node(v[2][0][1] if is_call(v, DONE) else v, "expr")
        if cls:
            c.require(key + ":runs", cls not in ("Constant", "Name"), w, "the compiler drops a deleted expression that stands alone: the invocation is not reported as run")
    c.require("C35:expression:some", n > 0 or None, c.where(fi), "")


def nothing(c, fi):
    """None given by the macro comes out as None"""
    ix = c.ix
    n = 0
    inl = [m.qualname for m in ix.funcs.values() if m.qualname.startswith(B + "._") and not m.name.startswith("__") and m.name != "_recursive_mode"]
    for o in returns(c.paths(fi, inline=inl)):
        w, f, v = at(c, fi, o), o.state.facts, o.value
        calls = [e.c for e in o.state.trace if e.kind == "call" and argof(e.c, "tree", 0) is not None and
                 (e.c[1][0] == "sub" or is_call(e.c[1], "isbound") or e.c[1][0] == "call")]
        for M in calls[-1:]:
            while is_call(v, "mcpyrate.astfixers.fix_ctx", "mcpyrate.astfixers.fix_locations"):
                v = argof(v, "tree", 0)
            if v == ("call",) or is_call(v, "visit") and argof(v, "tree", 0) is not None and argof(v, "tree", 0) != M:
                continue        # visiting an empty list gives None
            other = f.get(("isnone", M)) is False or truth(M, f) or any(k[0] in ("isinst", "typeis") and k[1] == M and b for k, b in f.items())
            if not other and (f.get(("isnone", M)) or truth(M, f) is False or v[0] in ("list", "tuple") or v != M and is_call(v, "builtins.list")):
                n += 1
                if is_call(v, "builtins.list"):
                    v = ("list", ())
                c.require("C35:nothing:stays", True if v in (NONE, M) else False if v[0] in ("list", "tuple", "const") or norm_ctor(v) else None, w, f"for a macro that gave nothing the expansion is {show(v)[:60]}")
    c.require("C35:nothing:some", n > 0 or None, c.where(fi), "")


def unaltered(c, ix, fi):
    T = P(fi.params()[1])
    n = 0
    asked = False
    for o in returns(c.paths(fi)):
        f = o.state.facts
        marked = next((b for k, b in f.items() if k[0] in ("isinst", "typeis") and k[1] == T and DONE in (k[2] if isinstance(k[2], (tuple, frozenset, set)) else (k[2],))), None)
        if marked:
            n += 1
            c.require("C35:unaltered:same", True if o.value == T else None if o.value[0] == "attr" else False, at(c, fi, o), f"the visit of a finished tree returns {show(o.value)[:60]}")
        elif marked is None and o.value != T and not any(k == attr(S, "bindings") and b is False or k[0] in ("isinst", "typeis", "isnone") and k[1] == T and b for k, b in f.items()):
            asked = asked or any(contains(k, T) and k[0] not in ("isinst", "typeis", "isnone") for k in f)
            c.unknown("C35:unaltered:tested", at(c, fi, o), "")
    c.require("C35:unaltered:some", True if n else None if asked else False, c.where(fi), "finished trees are visited")
