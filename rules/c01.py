"""Every temporary setting is restored on every exit, and is in force inside.

Rule: for each operation that changes a shared setting for a dynamic extent, all abstract paths (an exceptional edge at
every call) end with the setting's cell holding the value it had on entry, and at every call made inside the extent the
cell holds the temporary value. Cells: expander.recursive, expander._debughook, the level stack of nesting-level
trackers (quote depth, stepping depth), the walkers' state stack. Context managers are inlined into synthetic
most-general clients; any other function of the package that writes such a cell must restore it, too.
"""
import ast

from lib.interp import FALSE, TRUE, attr, ref, show
from lib.q import any_call_raises, at, call_events, contains, end, final, final_items, functions_storing, raises, returns, watched_at, where_of

CLIENTS = '''
def use_debughook(expander, hook, body):
    with expander.debughook(hook):
        body()
def use_set_to(tracker, value, body):
    with tracker.set_to(value):
        body()
def use_changed_by(tracker, delta, body):
    with tracker.changed_by(delta):
        body()
def use_value(tracker):
    return tracker.value
'''
P = lambda n: ("param", n)
STACK = ("new", "list", "stack0")
TRACKERHINT = {"tracker": "mcpyrate.utils.NestingLevelTracker"}


TRACKER = "mcpyrate.utils.NestingLevelTracker"


def stack_heap(obj, name):
    return {(obj, name): STACK, (STACK, "#"): (("star", ("outer",)), ("top",))}


class Cell:
    """The state of a nesting-level tracker: a stack of levels, or one level saved by whoever changes it"""
    def __init__(self, ix):
        fi = ix.find_method(TRACKER, "__init__")
        start = fi.params()[1]
        self.name = self.kind = None
        names = set()
        for x in ast.walk(fi.node):
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        names.add((t.attr, "stack" if isinstance(x.value, ast.List) else "level" if isinstance(x.value, ast.Name) and x.value.id == start else None))
        if len(names) == 1:
            self.name, self.kind = names.pop()

    def heap(self, obj):
        return stack_heap(obj, self.name) if self.kind == "stack" else {(obj, self.name): ("top",)}

    def restored(self, o, obj):
        v = final(o, obj, self.name)
        if self.kind == "stack":
            return tuple(o.state.heap.get((v, "#"), (("?", v),))) == INIT
        return v == ("top",)

    def holds(self, w, pred):
        if self.kind == "stack":
            return top_is(pred)(w)
        return pred(w)


INIT = (("star", ("outer",)), ("top",))


def cell(c, key, fi, o, obj, name, init=None):
    v = final(o, obj, name)
    want = attr(obj, name) if init is None else init
    c.require(key + ":restored", v == want, at(c, fi, o),
              f"after {fi.qualname} ends by {end(o)}, {name} is {show(v)[:100]} instead of the value it had before")


def stack_cell(c, key, fi, o, obj, name):
    v = final(o, obj, name)
    items = o.state.heap.get((v, "#"), (("?", v),))
    c.require(key + ":restored", tuple(items) == INIT, at(c, fi, o),
              f"after {fi.qualname} ends by {end(o)}, the level stack {show(obj)}.{name} is not back at its previous content")


def inside(c, key, fi, o, names, obj, name, ok, what):
    n = 0
    for i, e in call_events(o.state.trace, *names):
        w = watched_at(o.state.trace, i, obj, name)
        n += 1
        c.require(key + ":in-force", None if w is None else ok(w), where_of(e),
                  f"{name} is {show(w)[:100]} during the extent in {fi.qualname}, expected {what}")
    return n


def top_is(pred):
    return lambda w: w[0] == "list" and len(w[1]) == len(INIT) + 1 and w[1][:2] == INIT and pred(w[1][-1])


def check(c):
    ix = c.ix
    covered = set()
    m = ix.add_source("_clients", CLIENTS)
    S = P("self")

    # -- recursive mode
    for q, val in (("visit_once", FALSE), ("visit_recursively", TRUE)):
        key = f"C01:{q}"
        with c.section(key):
            fi = ix.func(f"mcpyrate.core.BaseMacroExpander.{q}")
            covered.add(fi.qualname)
            n = 0
            for o in c.paths(fi, inline=["_recursive_mode"], may_raise=any_call_raises, watch=[(S, "recursive")]):
                cell(c, key, fi, o, S, "recursive")
                n += inside(c, key, fi, o, ["visit"], S, "recursive", lambda w: w == val, show(val))
            c.require(key + ":visits", True if n else None, c.where(fi), "no visit found in the extent")

    # -- debug hook
    key = "C01:debughook"
    with c.section(key):
        fi = m.functions["use_debughook"]
        X = P("expander")
        for o in c.paths(fi, inline=["debughook"], may_raise=any_call_raises, watch=[(X, "_debughook")]):
            cell(c, key, ix.func("mcpyrate.core.BaseMacroExpander.debughook"), o, X, "_debughook")
            if call_events(o.state.trace, "body") or any(e.kind in ("call", "callraise") and e.a == P("body") for e in o.state.trace):
                for i, e in enumerate(o.state.trace):
                    if e.kind in ("call", "callraise") and e.a == P("body"):
                        w = watched_at(o.state.trace, i, X, "_debughook")
                        c.require(key + ":in-force", w == P("hook"), c.where(ix.func("mcpyrate.core.BaseMacroExpander.debughook")),
                                  f"inside debughook, the installed hook is {show(w) if w else w}, not the given one")

    # -- nesting level trackers
    T = Cell(ix)
    if T.kind is None:
        c.unknown("C01:tracker", c.where(ix.find_method(TRACKER, "__init__")), "the state of a nesting-level tracker is neither one stack nor one level")

    def tracker_cell(key, fi, o, obj):
        c.require(key + ":restored", T.restored(o, obj), at(c, fi, o),
                  f"after {fi.qualname} ends by {end(o)}, the level {show(obj)}.{T.name} is not back at its previous content")

    def tracker_inside(key, fi, o, names, obj, pred, what):
        n = 0
        for i, e in call_events(o.state.trace, *names):
            w = watched_at(o.state.trace, i, obj, T.name)
            n += 1
            c.require(key + ":in-force", None if w is None else T.holds(w, pred), where_of(e),
                      f"{T.name} is {show(w)[:100]} during the extent in {fi.qualname}, expected {what}")
        return n
    for q, want in (("set_to", P("value")), ("changed_by", ("op", "Add", ("top",), P("delta")))) if T.kind else ():
        key = f"C01:tracker.{q}"
        with c.section(key):
            fi = m.functions["use_" + q]
            X = P("tracker")
            owner = ix.find_method(TRACKER, q)
            n = 0
            for o in c.paths(fi, inline=["set_to", "changed_by"], may_raise=any_call_raises, watch=[(X, T.name)],
                             hints=TRACKERHINT, heap=T.heap(X)):
                tracker_cell(key, owner, o, X)
                for i, e in enumerate(o.state.trace):
                    if e.kind in ("call", "callraise") and e.a == P("body"):
                        n += 1
                        w = watched_at(o.state.trace, i, X, T.name)
                        alt = ("op", "Add", P("delta"), ("top",))
                        c.require(key + ":in-force", None if w is None else T.holds(w, lambda v: v == want or (q == "changed_by" and v == alt)), c.where(owner),
                                  f"inside {q}, the level is {show(w)[:120]}")
            c.require(key + ":extent", True if n else None, c.where(owner), "extent not reached")
    if T.kind:
        with c.section("C01:tracker.value"):
            X = P("tracker")
            for o in returns(c.paths(m.functions["use_value"], heap=T.heap(X), hints=TRACKERHINT)):
                v = o.value
                c.require("C01:tracker.value", True if v == ("top",) else None if contains(v, attr(X, "value")) else False, "mcpyrate/utils.py", f"the tracker's value is {show(v)[:60]}, not the innermost level")

    # -- users of the trackers
    QL = ref("mcpyrate.quotes._quotelevel")
    for q in "quasnth" if T.kind else "":
        key = f"C01:quotes.{q}"
        with c.section(key):
            fi = ix.func(f"mcpyrate.quotes.{q}")
            d = 1 if q == "q" else -1
            n = 0
            for o in c.paths(fi, inline=["set_to", "changed_by"], may_raise=any_call_raises, watch=[(QL, T.name)], heap=T.heap(QL),
                             max_paths=20000):
                tracker_cell(key, fi, o, QL)
                n += tracker_inside(key, fi, o, ["_expand_quasiquotes", "visit_recursively", "visit_once", "visit"] + (["astify"] if q == "q" else []), QL,
                                    lambda v: v == ("op", "Add", ("top",), ("const", "int", d)), f"one {'more' if d > 0 else 'less'} than before")
            c.require(key + ":extent", True if n else None, c.where(fi), "no expansion found in the extent")
    key = "C01:step_expansion"
    with c.section(key):
        fi = ix.func("mcpyrate.debug.step_expansion")
        SL = ref("mcpyrate.debug._step_expansion_level")
        X = P("expander")
        n = 0
        for o in c.paths(fi, inline=["set_to", "changed_by", "debughook"], may_raise=any_call_raises, watch=[(SL, T.name), (X, "_debughook")],
                         heap=T.heap(SL), max_paths=40000, assume_events=False):
            tracker_cell(key, fi, o, SL)
            cell(c, key + ":hook", fi, o, X, "_debughook")
            n += tracker_inside(key, fi, o, ["visit_once", "visit", "visit_recursively"], SL,
                                lambda v: v == ("op", "Add", ("top",), ("const", "int", 1)), "one more than before")
        c.require(key + ":extent", True if n else None, c.where(fi), "no expansion found in the extent")

    # -- walkers
    for cls, hookname in (("ASTVisitor", "examine"), ("ASTTransformer", "transform")):
        key = f"C01:walkers.{cls}"
        with c.section(key):
            fi = ix.func(f"mcpyrate.walkers.{cls}.visit")
            covered.add(fi.qualname)
            n = 0
            for o in c.paths(fi, selfcls=f"mcpyrate.walkers.{cls}", may_raise=any_call_raises, watch=[(S, "_stack")],
                             heap=stack_heap(S, "_stack"), inline=["BaseASTWalker._setstate", "BaseASTWalker._getstate"]):
                stack_cell(c, key, fi, o, S, "_stack")
                for i, e in call_events(o.state.trace, hookname, "visit"):
                    w = watched_at(o.state.trace, i, S, "_stack")
                    n += 1
                    same = w is not None and w[0] == "list" and w[1] == INIT
                    pushed = w is not None and top_is(lambda v: contains(v, attr(S, "_subtree_overrides")))(w)
                    c.require(key + ":in-force", same or pushed, where_of(e), f"a node is visited with the state stack {show(w)[:120] if w else w}")
            c.require(key + ":extent", True if n else None, c.where(fi), "no visit found")

    # -- every other writer of such a cell
    owners = {"mcpyrate.core.BaseMacroExpander._recursive_mode", "mcpyrate.core.BaseMacroExpander.debughook"} | covered
    for fi, node in functions_storing(ix, {"recursive", "_debughook"}):
        if fi.qualname in owners or fi.name == "__init__" or fi.module is m:
            continue
        key = f"C01:writer:{fi.qualname}"
        base = node.value if isinstance(node, ast.Attribute) else None
        a = node.attr if isinstance(node, ast.Attribute) else node.args[1].value
        if fi.qualname not in c.baseline:
            continue    # a new helper: analysed where it is used
        with c.section(key):
            for o in c.paths(fi, may_raise=any_call_raises):
                for (obj, name), v in o.state.heap.items():
                    if name == a and obj[0] != "new":
                        c.require(key, v == attr(obj, name), at(c, fi, o),
                                  f"{fi.qualname} leaves {show(obj)}.{name} changed to {show(v)[:80]} when it ends by {end(o)}")
    c.floor(120)
