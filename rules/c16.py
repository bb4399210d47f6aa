"""Quote and unquote operators reject misuse and track nesting.

Rule: each operator is interpreted abstractly for every invocation kind and for quote depths 0 to 3, with the depth tracker's
own code followed: an invocation kind it does not support, and an unquote at depth 0, raises on every path before anything is
expanded or changed; otherwise the tree is expanded exactly once, at a depth one higher (quote) or one lower (unquote), the
depth found on entry is in force again on every exit, also by exception, and the result is the operator's marker or compiled
quote exactly when the operator's own depth is the outermost, else the invocation itself with the new contents, shielded.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, argof, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import any_call_raises, at, call_events, norm_ctor, raises, returns, where_of

P = lambda n: ("param", n)
Q = "mcpyrate.quotes."
LV = ref(Q + "_quotelevel")
ST = ("new", "list", -1)
KINDS = ("expr", "block", "decorator", "name")
OPS = {"q": ("expr", "block"), "u": ("expr",), "n": ("expr",), "a": ("expr", "block"), "s": ("expr",), "t": ("expr",), "h": ("expr",)}
MARK = {"u": "Unquote", "n": "LiftSourcecode", "a": "ASTLiteral", "s": "ASTList", "t": "ASTTuple", "h": "Capture"}
VISITS = ("visit", "visit_recursively", "visit_once", "expand", "generic_visit")
DEPTHS = (0, 1, 2, 3)
SHIELD = Q + "QuasiquoteSearchDone"


class Tracker:
    """How the depth tracker keeps its level: a stack or a number in one attribute."""

    def __init__(self, c):
        self.kind = None
        cls = "mcpyrate.utils.NestingLevelTracker"
        init = c.ix.find_method(cls, "__init__")
        for o in returns(c.paths(init, selfcls=cls)):
            start = P(init.params()[1])
            for (obj, name), v in o.state.heap.items():
                if obj != P("self"):
                    continue
                if v[0] == "new" and v[1] == "list" and o.state.heap.get((v, "#")) == (start,):
                    self.kind, self.attr = "stack", name
                elif v == start:
                    self.kind, self.attr = "number", name
        self.default = ast.literal_eval(init.node.args.defaults[0]) if init.node.args.defaults else None

    def heap(self, depth):
        if self.kind == "stack":
            return {(LV, self.attr): ST, (ST, "#"): tuple(const(i) for i in range(depth + 1))}
        return {(LV, self.attr): const(depth)}

    @property
    def watch(self):
        return (ST, "#") if self.kind == "stack" else (LV, self.attr)

    def level(self, v):
        """level in a watched value"""
        if v is None:
            return None
        if self.kind == "stack":
            if v[0] in ("list", "tuple") and isinstance(v[1], tuple):
                v = v[1]
            if v and isinstance(v[-1], tuple) and v[-1][:2] == ("const", "int"):
                return v[-1][2]
            return None
        return v[2] if v[:2] == ("const", "int") else None

    def final(self, o):
        return self.level(o.state.heap.get(self.watch))


def check(c):
    ix = c.ix
    T = Tracker(c)
    if T.kind is None:
        c.unknown("C16:tracker", "", "representation of the depth not recognised")
        return
    # the depth starts at 0
    with c.section("C16:start"):
        v = ix.global_value(Q + "_quotelevel")
        v = v[0] if isinstance(v, tuple) else v
        m = ix.module("mcpyrate.quotes")
        st = [x for x in m.tree.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "_quotelevel" for t in x.targets)]
        if len(st) == 1 and isinstance(st[0].value, ast.Call):
            a = st[0].value.args[0] if st[0].value.args else (st[0].value.keywords[0].value if st[0].value.keywords else None)
            try:
                start = T.default if a is None else ast.literal_eval(a)
                c.require("C16:start", start == 0, f"mcpyrate/quotes.py:{st[0].lineno}", f"the depth outside any quote is {start}")
            except ValueError:
                c.unknown("C16:start", f"mcpyrate/quotes.py:{st[0].lineno}", "start depth")
        else:
            c.unknown("C16:start", "mcpyrate/quotes.py", "tracker")
    for op, kinds in OPS.items():
        for kind in KINDS:
            for depth in DEPTHS if c.tier == "thorough" or kind in kinds else (1,):
                with c.section(f"C16:{op}:{kind}"):
                    operator(c, T, op, kind, depth)
    with c.section("C16:bindings"):
        bindings(c)
    c.floor(120)


INLINE = ["changed_by", "set_to", "_get_value", "_expand_quasiquotes", "_replace_tree_in_macro_invocation"]


def run(c, T, fi, kind, depth, may_raise=None, facts=None):
    return c.paths(fi, bind={"syntax": const(kind)}, heap=T.heap(depth), shapes=True, watch=[T.watch], inline=INLINE, may_raise=may_raise, facts=facts,
                   models={})


def operator(c, T, op, kind, depth):
    fi = c.ix.func(Q + op)
    key = f"C16:{op}:{kind}"
    TREE, INV = P(fi.params()[0]), P("invocation")
    d = +1 if op == "q" else -1
    legal = kind in OPS[op] and (op == "q" or depth > 0)
    for o in run(c, T, fi, kind, depth, may_raise=any_call_raises):
        w = at(c, fi, o)
        f = T.final(o)
        c.require(key + ":restored", None if f is None else f == depth, w, f"{op} at depth {depth} leaves the depth at {f} by {'an exception' if o.kind == 'raise' else 'return'}")
    for o in run(c, T, fi, kind, depth):
        w = at(c, fi, o)
        tr = o.state.trace
        vs = call_events(tr, *VISITS)
        vis = [(i, e) for i, e in vs if contains(e.b, TREE)]
        if not legal:
            why = f"a {kind} invocation" if kind not in OPS[op] else "an unquote outside of any quote"
            c.require(key + ":rejected", o.kind == "raise", w, f"{op} accepts {why}")
            c.require(key + ":untouched", not vis and not any(e.kind in ("setattr", "setitem", "delattr", "delitem") and (contains(e.a, TREE) or contains(e.a, INV)) for e in tr)
                      and not any(e.kind == "enter" for e in tr), w, f"{op} changes something before it rejects {why}")
            continue
        if o.kind == "raise" and op == "a" and kind == "block":
            none = [b for x, b in o.state.facts.items() if isinstance(x, tuple) and x[0] == "isnone" and (contains(x[1], const("optional_vars")) or "optional_vars" in show(x[1]))]
            about = [e for e in tr if e.kind in ("assume", "except") and "optional_vars" not in show(e.a)]
            if none and all(none) and not vis:
                c.require(key + ":plain", None if about else False, w, "a block without an as-part is rejected")
        if o.kind == "raise":
            # an unsupported form of the as-part or of the body; or an internal check
            cond = [e for e in tr if e.kind in ("assume", "except")]
            c.require(key + ":accepted", True if cond else False, w, f"{op} rejects every {kind} invocation at depth {depth}")
            lv = [e for e in tr if e.kind == "raise" and not cond]
            continue
        # expansion happens once, at the right depth
        if not vis:
            allowed = op == "h" and any(e.kind == "assume" and e.b is True and is_call(e.a, "isnamemacro") for e in tr)
            c.require(key + ":expanded", True if allowed else False, w, f"{op} does not expand its contents")
            tree = TREE
        else:
            c.require(key + ":expanded", len(vis) == 1, w, f"{op} expands its contents {len(vis)} times")
            i, e = vis[0]
            tree = e.c
            lv = [x for x in tr[:i] if x.kind == "watch"]
            got = T.level(lv[-1].c) if lv else None
            c.require(key + ":depth", None if got is None else got == depth + d, where_of(e, w), f"{op} at depth {depth} expands its contents at depth {got}")
            if op == "q":
                c.require(key + ":throughout", False if name_matches(callee(e.a) or "", "visit_once", "generic_visit") else True, where_of(e, w), "the quote operators inside of others are not expanded")
            # contents of q: only quote operators; they are expanded by the expander at hand otherwise
            if op != "q":
                recv = e.a[1] if e.a[0] in ("attr", "bound") else None
                c.require(key + ":expander", recv == P("expander") or None, where_of(e, w), f"{op} expands with {show(recv)[:60] if recv else '?'}")
        outer = depth == (0 if op == "q" else 1)
        v = o.value
        if not outer:
            if is_call(v, SHIELD):
                b = argof(v, "body", 0)
                ok = is_call(b, "copy.copy", "copy.deepcopy") and argof(b, 0, "x") == INV
                c.require(key + ":kept", True if ok else (False if b in (INV, tree, TREE) else None), w, f"the invocation of an outer quote is kept as {show(b)[:60]}")
                if ok:
                    ty = [x.b for x in tr if x.kind == "assume" and x.a[0] in ("typeis", "isinst") and x.b]
                    new = {n: x for (ob, n), x in o.state.heap.items() if ob == b}
                    vals = {n: x for n, x in new.items() if n in ("slice", "body")}
                    part = any(is_call(x, "delete_markers") or x[0] == "sub" and x[1] == tree for x in vals.values() if isinstance(x, tuple))
                    c.require(key + ":contents", True if vals and all(x == tree for x in vals.values()) else (False if part or not vals or any(x in (TREE,) for x in vals.values()) else None), w,
                              f"the kept invocation has the contents {', '.join(show(x)[:40] for x in vals.values()) or 'it had'}")
                c.require(key + ":original", not any(x.kind in ("setattr",) and x.a == INV for x in tr), w, "the original invocation is changed")
            else:
                c.require(key + ":kept", False if is_call(v, Q + MARK.get(op, "?")) or v == tree or v == INV or is_call(v, "copy.copy") or any(call_events(tr, "astify")) else None, w,
                          f"{op} at depth {depth} is carried out though it belongs to an outer quote: {show(v)[:60]}")
            continue
        if op == "q":
            asty = call_events(tr, "astify")
            c.require(key + ":compiled", len(asty) == 1 or (False if is_call(v, SHIELD) or not asty else None), w, f"the outermost quote is not compiled: {show(v)[:60]}")
            for i, e in asty:
                x = argof(e, "x", 0)
                c.require(key + ":unshield", True if is_call(x, "delete_markers") and argof(x, "cls", 1) == ref(SHIELD) and argof(x, "tree", 0) == tree else False if x == tree or x == TREE else None,
                          where_of(e, w), "the shields of inner operators are not removed before compiling")
                c.require(key + ":expander", argof(e, "expander", 1) == P("expander") or (False if argof(e, "expander", 1) in (None, NONE) else None), where_of(e, w), "captured macros cannot be found: the expander is not given to the compiler")
                chk = [x for _, x in call_events(tr, "check_no_markers_remaining")]
                c.require(key + ":checked", any(argof(x, "tree", 0) == e.c for x in chk) or (None if any(e2.kind == "except" for e2 in tr) else False), where_of(e, w), "left-over quote markers are not reported")
            k = norm_ctor(v)
            if kind == "block":
                ov = [e for e in tr if e.kind == "assume" and e.a[0] in ("typeis", "isinst") and "ast.Name" in str(e.a[2])]
                ov = [e for e in ov if contains(e.a[1], const("optional_vars")) or "optional_vars" in show(e.a[1])]
                c.require(key + ":target", False if any(e.b and set(e.a[2]) - {"ast.Name"} for e in ov) and not any(e.b and set(e.a[2]) == {"ast.Name"} for e in ov) else True if ov and all(e.b for e in ov) else (None if ov else False), w, "block mode accepts a target that is not a single name")
                c.require(key + ":assign", None if k is None else k[0] == "Assign", w, f"block mode gives {show(v)[:60]}")
            else:
                c.require(key + ":expr", None if k is None else k[0] not in ("Assign", "Expr"), w, f"expr mode gives {show(v)[:60]}")
        else:
            m = Q + MARK[op]
            if not is_call(v, m):
                c.require(key + ":marker", None if v[0] not in ("call", "param", "const") else False, w, f"{op} becomes {show(v)[:80]}")
                continue
            b = argof(v, "body", 0)
            if op == "a" and kind == "block":
                kb = norm_ctor(b)
                c.require(key + ":marker", None if kb is None else kb[0] == "List", w, f"the block becomes {show(b)[:60]}")
                # only expression statements
                its = o.state.heap.get((kb[1].get("elts"), "#")) if kb and kb[1].get("elts", ("",))[0] == "new" else kb[1].get("elts", ("", None))[1] if kb else None
                for it in its or ():
                    if it[0] == "rep":
                        c.require(key + ":values", it[2][0] == "attr" and it[2][2] == "value" and it[2][1][0] == "elem" and it[2][1][1] == tree and not it[3], w, f"the items of the block become {show(it[2])[:60]}")
                tests = [e for e in tr if e.kind == "assume" and e.a[0] in ("typeis", "isinst") and e.a[1][0] == "elem"]
                loops = [e for e in tr if e.kind == "loop"]
                if loops and its:
                    other = [e for e in tr if e.kind == "assume" and "Expr" in show(e.a)]
                    c.require(key + ":statements", all(e.b and set(e.a[2]) <= {"ast.Expr"} for e in tests) if tests else None if other else False, w, "the block may contain statements other than expressions")
            else:
                c.require(key + ":marker", b == tree or (None if b is None else False), w, f"{op} marks {show(b)[:60] if b else 'nothing'} instead of the expanded contents")
            if op == "a":
                c.require(key + ":syntax", argof(v, "syntax", 1) == const(kind), w, f"{op} is marked as mode {show(argof(v, 'syntax', 1) or NONE)}")
            elif op == "h":
                nm = argof(v, "name", 1)
                c.require(key + ":name", is_call(nm, "unparse") and argof(nm, "tree", 0) == TREE or (None if nm is not None and nm[0] != "const" else False), w, f"the captured value is named {show(nm)[:60] if nm else 'nothing'}")
            elif op == "n":
                c.require(key + ":filename", argof(v, "filename", 1) == attr(P("expander"), "filename") or None, w, "the file name")
    if op == "a" and kind == "block" and depth == 1:
        outs = run(c, T, fi, kind, depth)
        ov = [o for o in outs if o.kind == "raise" and not call_events(o.state.trace, *VISITS)]
        c.require(key + ":asname", bool(ov), c.where(fi), "an as-part is accepted, or rejected only after expanding")


def bindings(c):
    """inside a quote exactly the quote operators, under their present names, are expanded"""
    fi = c.ix.func(Q + "q")
    for o in c.paths(fi, bind={"syntax": const("expr")}, inline=["_expand_quasiquotes"]):
        for _, e in call_events(o.state.trace, "extract_bindings"):
            w = where_of(e, c.where(fi))
            names = {show(x) for x in subterms(e.b) if isinstance(x, tuple) and x and x[0] == "ref"}
            for op in OPS:
                c.require("C16:bindings", Q + op in names or (None if not names else False), w, f"the operator {op} is not recognised inside of a quote")
            c.require("C16:bindings:source", contains(e.b, attr(P("expander"), "bindings")) or None, w, "bindings of the expander at hand")
        for _, e in call_events(o.state.trace, "MacroExpander"):
            identity(c)
            b = argof(e, "bindings", 0)
            c.require("C16:bindings:only", is_call(b, "extract_bindings") or (False if b == attr(P("expander"), "bindings") else None), where_of(e, c.where(fi)), "macros other than the quote operators are expanded inside of a quote")
        return


def identity(c):
    """the operators are found by what is bound, whatever their names are"""
    fi = c.ix.func("mcpyrate.utils.extract_bindings")
    if fi is None:
        return
    ps = fi.params()
    for o in returns(c.paths(fi)):
        w = at(c, fi, o)
        conds = [x for t in subterms(o.value) if isinstance(t, tuple) and t and t[0] == "rep" for x in t[3]] + [e.a for e in o.state.trace if e.kind == "assume"]
        tests = [x for t in conds for x in subterms(t) if isinstance(x, tuple) and len(x) == 4 and x[0] == "cmp" and x[1] in ("In", "Is", "Eq")]
        for t in tests:
            L = t[2]
            byname = any(isinstance(x, tuple) and len(x) == 3 and x[0] == "attr" and x[2] in ("__name__", "__qualname__") for x in list(subterms(t)) + [y for z in subterms(t) if isinstance(z, tuple) and z and z[0] == "new" for y in subterms(o.state.heap.get((z, "#")) or ())])
            c.require("C16:bindings:identity", False if byname or L[0] == "key" else True if L[0] in ("val", "elem") else None, w, f"bindings are selected by {show(t)[:60]}: an operator bound under another name is not found")
