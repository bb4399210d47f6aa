"""Debug output shows each expansion step without changing the result.

Rule: (a) Stepping: on each path of the stepper, the tree returned is the given one after a search that found no macro in it, or what one more expansion of the current tree gave (without the wrapper
that hides macros from the search) after a renewed search of exactly that tree, in a loop that goes on as long as the search finds macros; the same trees are
returned for all arguments; neither the tree nor the expander is written to; what it shows trees with takes also outputs that are no trees. (b) Application: the hook is called once per application, after the macro, with a deep copy of the whole invocation
made before the macro ran, and with the very output that is returned; the context that installs it restores the old one on normal and exceptional ends. (c) Non-interference: in the compilers'
functions that have a debug mode, the paths with the mode on and with it off, projected to what is not display, are the same. (d) Display code (unparser, dumper, formatters and all that they call) writes to
nothing that is reachable from its arguments. (e) The showing of bindings gives nothing and writes nothing; the debug dialect passes on what it was given.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import any_call_raises, argof, at, returns, truth, where_of
from lib.shape import P

S = P("self")
D = "mcpyrate.debug."
B = "mcpyrate.core.BaseMacroExpander"
DE = "mcpyrate.dialects.DialectExpander"


def check(c):
    ix = c.ix
    with c.section("C37:step"):
        step(c, ix, ix.func(D + "step_expansion"))
    with c.section("C37:shown"):
        shown(c, ix, ix.func(D + "step_expansion"))
    with c.section("C37:hook"):
        hook(c, ix)
    with c.section("C37:installed"):
        installed(c, ix)
    for q, flag in ((DE + "._transform", mode), (DE + ".transform_source", mode), (DE + ".transform_ast", mode), (DE + ".postprocess_ast", mode), ("mcpyrate.multiphase.multiphase_expand", isdebug)):
        with c.section(f"C37:same:{q.rsplit('.', 1)[-1]}"):
            if q in ix.funcs or q.endswith(("postprocess_ast", "multiphase_expand", "transform_ast", "transform_source")):
                same(c, ix, ix.func(q), flag)
    with c.section("C37:display"):
        display(c, ix)
    with c.section("C37:bindings"):
        bindings(c, ix, ix.func(D + "show_bindings"))
    with c.section("C37:dialect"):
        dialect(c, ix)
    c.floor(40)


# ---- stepping

def method(t, *names):
    return t[0] == "call" and t[1][0] in ("attr", "bound") and str(t[1][2]).rsplit(".", 1)[-1] in names


CHANGE = ("ast.fix_missing_locations", "ast.copy_location", "ast.increment_lineno", "mcpyrate.astfixers.fix_ctx", "mcpyrate.astfixers.fix_locations", "mcpyrate.markers.delete_markers")


def step(c, ix, fi):
    T, X, A = P("tree"), P("expander"), P("args")
    inl = [q for q in ix.funcs if q.startswith(fi.qualname + ".")] + [f.qualname for f in ix.funcs.values() if f.module is fi.module and f.name.startswith("_") and not f.cls]
    n = 0
    results = {}
    for o in c.paths(fi, inline=inl, max_paths=60000):
        if o.kind != "return":
            continue
        w, f, tr, v = at(c, fi, o), o.state.facts, o.state.trace, o.value
        n += 1
        found = [e for e in tr if e.kind == "call" and method(e.c, "visit") and is_call(e.c[1][1], "mcpyrate.expander.MacroCollector")]
        steps = [e for e in tr if e.kind == "call" and method(e.c, "visit_once", "visit", "visit_recursively", "expand") and e.c[1][1] == X]
        for e in tr:
            if e.kind in ("setattr", "setitem", "delattr", "delitem", "augassign") and isinstance(e.a, tuple) and e.a[0] != "var" and (contains(e.a, T) or e.a == X or contains(e.a, attr(X, "bindings"))):
                c.bad("C37:step:written", where_of(e, w), f"stepping writes to {show(e.a)[:60]}")
        if v == NONE:
            c.bad("C37:step:result", w, "the expanded tree is not returned")
            continue
        if method(v, "visit_recursively") and v[1][1] == X:
            c.require("C37:step:result", True if argof(v, "tree", 0) == T else False if argof(v, "tree", 0)[0] == "carried" else None, w, "all macros are expanded in one step, which is not shown as the steps that it takes")
            continue
        if is_call(v, *CHANGE) and argof(v, 0) == T:
            c.bad("C37:step:changed", w, f"the tree is changed by the stepping itself: {show(v)[:60]}")
            continue
        if v == T:
            sees = [e for e in found if argof(e.c, "tree", 0) == T]
            if steps:
                c.bad("C37:step:result", w, "the tree as it was before the expansion is returned")
            elif not found:
                c.bad("C37:step:result", w, "the tree is returned without a search for macros in it")
            else:
                c.require("C37:step:searched", bool(sees), w, "another tree is searched for macros")
                none = any(contains(k, found[0].c[1][1]) and b is False for k, b in f.items())
                some = any(k == attr(found[0].c[1][1], "collected") and b for k, b in f.items())
                c.require("C37:step:result", True if none else False if some else None, w, "the tree is returned though it has macros")
            continue
        if v[0] == "attr" and v[2] == "body" and method(v[1], "visit_once") and v[1][1][1] == X:
            given = argof(v[1], "tree", 0)
            good = given == T or given[0] == "carried" and given[3] == T
            loop = [e for e in tr if e.kind == "loop" and e.a == ("while",)] or [e for e in tr if e.kind == "loop"]
            inloop = given[0] == "carried"
            c.require("C37:step:expanded", True if good else False if given == NONE or is_call(given[3] if given[0] == "carried" else given, *CHANGE) else None, w, f"a step expands {show(given)[:60]}")
            i0 = next(i for i, e in enumerate(tr) if e.kind == "call" and e.c == v[1])
            re = [(i, e) for i, e in enumerate(tr) if e in found and i > i0]
            c.require("C37:step:again", True if any(argof(e.c, "tree", 0) == v for _, e in re) else False if not re or all(argof(e.c, "tree", 0) in (v[1], T, given) or argof(e.c, "tree", 0)[0] == "attr" and argof(e.c, "tree", 0)[1] == v for _, e in re) else None, w,
                      "the result of a step is not searched for remaining macros")
            cleared = [i for i, e in enumerate(tr) if i > i0 and e.kind == "call" and (method(e.c, "clear") and is_call(e.c[1][1], "mcpyrate.expander.MacroCollector") or is_call(e.c, "mcpyrate.expander.MacroCollector"))]
            c.require("C37:step:cleared", True if re and any(i < re[-1][0] for i in cleared) else None if not re or any(e.kind == "setattr" for e in tr) else False, w, "macros found before a step are still reported after it")
            lp = [e for e in tr if e.kind == "loop" and getattr(e.node, "lineno", 0) and any(x is e.node for x in [e.node]) and isinstance(e.node, ast.While)]
            within = any(e.kind == "loop" and isinstance(e.node, ast.While) and tr.index(e) < i0 for e in tr)
            c.require("C37:step:repeated", True if within and inloop else False if not loop or not within and not inloop else None, w, "only one step is taken")
            for e in lp:
                t = e.node.test
                names = {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)} | {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                stops = [x for x in ast.walk(e.node) if isinstance(x, (ast.Break, ast.Return))]
                c.require("C37:step:until", True if "collected" in names and not isinstance(t, ast.BoolOp) and not stops else False if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and "collected" in names else None, where_of(e, w),
                          "stepping ends before all macros are expanded")
            continue
        if v[0] == "attr" and v[2] == "body" and method(v[1], "visit_recursively", "visit") and v[1][1][1] == X:
            c.bad("C37:step:single", w, "all macros are expanded in one step")
            continue
        if method(v, "visit_once", "visit") and v[1][1] == X:
            c.bad("C37:step:result", w, "the result of a step is returned wrapped in the mark that hides the remaining macros")
            continue
        if v[0] == "carried" and v[3] == T and steps:
            c.bad("C37:step:result", w, "the tree from before the last step is returned")
            continue
        c.unknown("C37:step:result", w, show(v)[:80])
    c.require("C37:step:some", n > 0 or None, c.where(fi), "")
    # the expander is as before, also if a step fails
    for o in c.paths(fi, inline=inl, may_raise=lambda t, interp, s: method(t, "visit_once") and t[1][1] == X, max_paths=60000):
        for (obj, name), v in o.state.heap.items():
            if obj == X and v != attr(X, name):
                c.bad("C37:step:expander", at(c, fi, o), f"after stepping, {name} of the expander is {show(v)[:60]}")
        c.ok("C37:step:expander", at(c, fi, o))


# ---- what is shown may be anything that a macro may give

def shown(c, ix, fi):
    """the functions that a stepper shows trees with take also what is no tree (a macro may give `None` or any iterable)"""
    local = {}
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            local.setdefault(x.targets[0].id, []).append(x.value)
        elif isinstance(x, ast.FunctionDef) and x is not fi.node and len(x.args.args) == 1:
            local.setdefault(x.name, []).append(x)
    called = {x.func.id for x in ast.walk(fi.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and len(x.args) == 1 and x.func.id in local}
    n = 0
    for name in sorted(called):
        for v in local[name]:
            w = f"{fi.file}:{v.lineno}"
            if isinstance(v, ast.FunctionDef):
                q = f"{fi.qualname}.{v.name}"
            elif isinstance(v, ast.Call) and ix.resolve_expr(fi.module, v.func) == "functools.partial" and v.args:
                q = ix.resolve_expr(fi.module, v.args[0])
            else:
                q = ix.resolve_expr(fi.module, v)
            g = ix.funcs.get(q)
            if g is None or not g.params():
                if isinstance(v, ast.Call) and q == "functools.partial":
                    c.unknown("C37:shown", w, ast.unparse(v)[:60])
                continue
            n += 1
            outs = c.paths(g, bind={g.params()[0]: NONE}, inline=["mcpyrate.astdumper.dump"])
            bad = [o for o in outs if o.kind == "raise"]
            c.require("C37:shown", not bad, w, f"showing the output of a macro that gives no tree fails: {g.name} raises {show(bad[0].value)[:60] if bad else ''}")
    c.require("C37:shown:some", n > 0 or None, c.where(fi), "")


# ---- the hook

def hookname(ix):
    fi = ix.find_method("mcpyrate.expander.MacroExpander", "debughook")
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
            return x.attr
    return None


def macro_call(t):
    return t[0] == "call" and (is_call(t[1], "isbound") or t[1][0] == "sub" and contains(t[1], attr(S, "bindings")))


def hook(c, ix):
    fi = ix.find_method("mcpyrate.expander.MacroExpander", "expand")
    name = hookname(ix)
    if name is None:
        c.unknown("C37:hook:name", c.where(fi), "")
        return
    H = attr(S, name)
    G = P("target")
    inl = [m.qualname for m in ix.funcs.values() if m.qualname.startswith(B + "._") and not m.name.startswith("__") and m.name not in ("_recursive_mode", "_visit_expansion")]
    n = {True: 0, False: 0}
    for o in returns(c.paths(fi, inline=inl, max_paths=40000)):
        w, f, tr = at(c, fi, o), o.state.facts, o.state.trace
        ms = [(i, e) for i, e in enumerate(tr) if e.kind == "call" and macro_call(e.c)]
        hs = [(i, e) for i, e in enumerate(tr) if e.kind == "call" and e.c[1] == H]
        on = truth(H, f)
        if on is None and f.get(("isnone", H)) is not None:
            on = not f[("isnone", H)]
        if not ms:
            continue
        c.require("C37:hook:once", len(ms) == 1, w, "a macro is applied more than once")
        i, e = ms[0]
        if on is None:
            c.require("C37:hook:called", None if hs else False if not any(H == x for k in f for x in subterms(k)) else None, w, "the hook is not called")
            continue
        n[on] += 1
        if not on:
            c.require("C37:hook:off", not hs, w, "the hook is called though there is none")
            continue
        if len(hs) != 1:
            c.require("C37:hook:called", False, w, f"the hook is called {len(hs)} times for one application")
            continue
        j, h = hs[0]
        c.require("C37:hook:after", j > i, where_of(h, w), "the hook is called before the macro")
        args = [x for _, x in h.c[2]]
        c.require("C37:hook:output", e.c in args or (None if any(contains(x, e.c) for x in args) else False), where_of(h, w), "the hook does not get the output of the macro")
        ids = [x for x in args if is_call(x, "builtins.id", "id")]
        if ids:
            c.require("C37:hook:id", argof(ids[0], 0) == G or (None if argof(ids[0], 0)[0] not in ("param", "call") else False), where_of(h, w), f"the hook gets the id of {show(argof(ids[0], 0))[:60]} instead of that of the invocation")
        copies = [x for x in args if is_call(x, "copy.deepcopy", "copy.copy") or x == G]
        if not copies:
            c.require("C37:hook:invocation", False if P("tree") in args else None, where_of(h, w), "the hook does not get the invocation")
        else:
            x = copies[0]
            if is_call(x, "copy.deepcopy"):
                at_copy = next((k for k, y in enumerate(tr) if y.kind == "call" and y.c == x), None)
                c.require("C37:hook:invocation", argof(x, 0) == G, where_of(h, w), f"the hook gets a copy of {show(argof(x, 0))[:60]}")
                c.require("C37:hook:before", None if at_copy is None else at_copy < i, where_of(h, w), "the copy of the invocation is made after the macro ran")
            else:
                c.require("C37:hook:before", False, where_of(h, w), "the hook gets the invocation as the macro left it")
    c.require("C37:hook:some", n[True] > 0 and n[False] > 0 or None, c.where(fi), "")
    same(c, ix, fi, lambda t: t == H or t == ("isnone", H), hooks=(H,))


CLIENT = '''
def use_debughook(expander, hook, body):
    with expander.debughook(hook):
        body()
'''


def installed(c, ix):
    name = hookname(ix)
    m = ix.modules.get("client37") or ix.add_source("client37", CLIENT)
    fi = m.functions["use_debughook"]
    owner = ix.find_method("mcpyrate.expander.MacroExpander", "debughook")
    X = P("expander")
    n = 0
    for o in c.paths(fi, inline=["debughook"], may_raise=any_call_raises, watch=[(X, name)]):
        after = o.state.heap.get((X, name))
        c.require("C37:installed:removed", after is None or after == attr(X, name), at(c, owner, o), f"after the extent of a hook the hook is {show(after)[:60] if after else ''}")
        for i, e in enumerate(o.state.trace):
            if e.kind in ("call", "callraise") and e.a == P("body"):
                n += 1
    c.require("C37:installed:some", n > 0 or None, c.where(owner), "")


# ---- non-interference of debug modes

def mode(t):
    return t[0] == "attr" and t[2] == "debugmode"


def isdebug(t):
    return is_call(t, "isdebug")


SHOWS = {"builtins.print", "builtins.id", "builtins.repr", "builtins.str", "builtins.len", "builtins.format", "builtins.hex", "builtins.type", "builtins.sorted", "builtins.isinstance", "builtins.hasattr", "builtins.bool", "builtins.getattr",
         "functools.partial", "copy.deepcopy", "copy.copy", "textwrap.indent", "textwrap.dedent", "sys.stderr.write", "sys.stdout.write", "sys.stderr.flush", "mcpyrate.multiphase.isdebug"}
SHOWMODS = ("mcpyrate.colorizer.", "mcpyrate.unparser.", "mcpyrate.astdumper.", "mcpyrate.ansi.")
TEXT = {"format", "join", "split", "strip", "lstrip", "rstrip", "write", "flush", "rjust", "ljust", "upper", "lower", "splitlines", "startswith", "endswith", "items", "keys", "values", "getvalue", "expandtabs", "replace"}
CHANGES = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse", "visit", "visit_once", "visit_recursively", "expand", "transform_ast", "transform_source", "postprocess_ast"}


def shows(ix, t):
    """does a call only display or format? True, False or None"""
    f = t[1]
    if f[0] == "ref":
        q = f[1]
        if q in SHOWS or q.startswith(SHOWMODS) or q.startswith("mcpyrate.utils.format_") or q == "mcpyrate.utils.get_lineno" or q.startswith("io."):
            return True
        if q in ix.funcs:
            return pure(ix, q)
        return None
    if f[0] == "bound":
        return pure(ix, f[2]) if f[2] in ix.funcs else None
    if f[0] == "attr":
        if f[2] in TEXT:
            return True
        return False if f[2] in CHANGES else None
    if f[0] == "param" and "format" in f[1]:
        return True
    if f[0] == "call" and is_call(f, "functools.partial"):
        a = argof(f, 0)
        return a is not None and a[0] == "ref" and (a[1].startswith(SHOWMODS) or a[1] == "textwrap.indent")
    if f[0] in ("carried", "closure", "lambda"):
        return None
    return None


_pure = {}


def pure(ix, q, depth=0):
    """does a function only display: it stores nothing but its own variables and calls only such functions"""
    k = (id(ix), q)
    if k in _pure:
        return _pure[k]
    _pure[k] = True
    fi = ix.funcs[q]
    ok = True
    for x in ast.walk(fi.node):
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(x, (ast.Global, ast.Nonlocal)):
            ok = False
        elif isinstance(x, ast.Return) and x.value is not None and depth == 0:
            pass
        elif isinstance(x, ast.Call):
            r = ix.resolve_expr(fi.module, x.func)
            if r and (r in SHOWS or r.startswith(SHOWMODS) or r.startswith("builtins.") and r not in ("builtins.setattr", "builtins.delattr", "builtins.exec", "builtins.eval")):
                continue
            if r in ix.funcs:
                ok = ok and pure(ix, r, depth + 1) is True
            elif isinstance(x.func, ast.Attribute) and x.func.attr in TEXT:
                continue
            elif isinstance(x.func, ast.Attribute) and x.func.attr in CHANGES:
                ok = False
            elif ok is True:
                ok = None
        if ok is False:
            break
    _pure[k] = ok
    return ok


def norm(t, names):
    """serial numbers of objects are renamed by order of appearance"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "new":
        k = t
        if k not in names:
            names[k] = len(names)
        return ("new", t[1], names[k])
    if t and t[0] in ("carried", "opaque") and len(t) > 2:
        key = (t[0], t[2]) if t[0] == "carried" else t[:3]
        if key not in names:
            names[key] = len(names)
        return (t[0], t[1], names[key]) + tuple(norm(x, names) for x in t[3:])
    if t and t[0] == "call" and len(t) > 3:
        t = t[:3]
    return tuple(norm(x, names) for x in t)


def projected(ix, o, flag, hooks):
    """(signature of a path without display, things of unknown nature in it)"""
    names, sig, odd = {}, [], []
    for e in o.state.trace:
        if e.kind in ("call", "callraise"):
            if e.c[1] in hooks:
                continue
            s = True if flag(e.c) else shows(ix, e.c)
            if s is True:
                continue
            if s is None:
                odd.append(e)
            sig.append((e.kind, norm(e.c, names)))
        elif e.kind in ("setattr", "setitem", "delattr", "delitem", "listop"):
            sig.append((e.kind, norm(e.a, names), norm(e.b, names), norm(e.c, names)))
        elif e.kind == "augassign" and isinstance(e.a, tuple) and e.a[0] != "var":
            sig.append((e.kind, norm(e.a, names), norm(e.b, names), norm(e.c, names)))
    return (o.kind, norm(o.value, names), tuple(sig)), odd


class Iteration:
    """the end of one path through a body of a loop"""

    def __init__(self, kind, value, state):
        self.kind, self.value, self.state = kind, value, state


def live(ix, fi, flag):
    """the local variables that something other than display depends on"""
    names = set()

    def display(x):
        if not isinstance(x, ast.Call):
            return False
        r = ix.resolve_expr(fi.module, x.func)
        return r in SHOWS and r != "builtins.getattr" or bool(r) and r.startswith(SHOWMODS) or isinstance(x.func, ast.Name) and "format" in x.func.id

    def loads(x):
        if display(x):
            return set()
        out = {x.id} if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) else set()
        for y in ast.iter_child_nodes(x):
            out |= loads(y)
        return out

    changed = True
    while changed:
        before = len(names)
        for x in ast.walk(fi.node):
            if isinstance(x, (ast.Return, ast.Expr, ast.Raise, ast.AugAssign, ast.Delete)):
                names |= loads(x)
            elif isinstance(x, (ast.If, ast.While)):
                names |= loads(x.test)
            elif isinstance(x, ast.For):
                names |= loads(x.iter)
            elif isinstance(x, ast.Assign):
                stored = {y.id for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                if stored & names or not stored:
                    names |= loads(x)
        changed = len(names) != before
    return names


def same(c, ix, fi, flag, hooks=()):
    key = "C37:same:" + fi.name
    on, off = {}, {}
    inl = [f.qualname for f in ix.funcs.values() if f.module is fi.module and f.cls is fi.cls and f.name.startswith("_") and not f.name.startswith("__") and f is not fi and f.name != "_recursive_mode"]
    its = []
    outs = list(c.paths(fi, inline=inl, max_paths=60000, iters=its))
    names = live(ix, fi, flag)
    for it, serial, k, st, fid in its:
        fr = st.frames.get(fid, {})
        env = tuple((n, fr[n], st.heap.get((fr[n], "#"), ())) for n in sorted(names) if n in fr)
        outs.append(Iteration(f"an iteration over {show(it)[:40]} ending in {k}", env, st))
    for o in outs:
        vals = {b for k, b in o.state.facts.items() if flag(k) or k[0] == "isnone" and flag(k[1])}
        if any(k[0] == "isnone" and flag(k[1]) for k in o.state.facts):
            vals = {not b if k[0] == "isnone" else b for k, b in o.state.facts.items() if flag(k) or k[0] == "isnone" and flag(k[1])}
        sig, odd = projected(ix, o, flag, hooks)
        if vals != {False}:
            on.setdefault(sig, (o, odd))
        if vals != {True}:
            off.setdefault(sig, (o, odd))
    if not on or not off:
        c.unknown(key, c.where(fi), "no debug mode found")
        return
    for a, b, what in ((on, off, "on"), (off, on, "off")):
        for sig, (o, odd) in a.items():
            if sig in b:
                c.ok(key, at(c, fi, o))
                continue
            # what differs: the nearest path of the other mode with the same kind of end
            fresh = [x for x in sig[2] if not any(x in y[2] for y in b)]
            missing = [s for s in b if s[0] == sig[0] and s not in a]
            lost = [x for s in missing[:1] for x in s[2] if x not in sig[2]]
            differs = missing and all(s[1] != sig[1] for s in missing) and sig[1] not in {s[1] for s in b}
            hard = [x for x in fresh + lost if x[0] in ("setattr", "setitem", "delattr", "delitem") or x[0] == "call" and shows(ix, x[1]) is False]
            c.require(key, False if hard or differs else None, at(c, fi, o), f"with debug mode {what}, the function does otherwise: " + (f"{hard[0][0]} {show(hard[0][1])[:80]}" if hard else f"it ends with {show(o.value)[:80]}"))


# ---- display code writes to nothing it was given

def display(c, ix):
    roots = [q for q, f in ix.funcs.items() if f.module.name in ("mcpyrate.unparser", "mcpyrate.astdumper")]
    roots += [q for q in ix.funcs if q.startswith("mcpyrate.utils.format_") or q.startswith(D + "format_")]
    todo, seen = list(roots), set()
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        fi = ix.funcs[q]
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Call):
                r = ix.resolve_expr(fi.module, x.func)
                if r in ix.funcs:
                    todo.append(r)
    for q in sorted(seen):
        writes(c, ix, ix.funcs[q])


FRESH = (ast.Call, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.JoinedStr, ast.Constant, ast.BinOp, ast.Compare, ast.Lambda, ast.GeneratorExp, ast.Tuple)


def writes(c, ix, fi):
    node = fi.node
    if isinstance(node, ast.Lambda):
        return
    shared = set()
    f = fi
    while f is not None:
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        shared |= set(ps[1:] if f.cls is not None else ps)
        f = f.parent
    own = {"self"}

    def root(e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("getattr", "reversed", "iter", "enumerate", "zip", "iter_fields", "iter_child_nodes", "vars") and e.args:
            return root(e.args[0])
        return e.id if isinstance(e, ast.Name) else None

    changed = True
    while changed:
        changed = False
        for x in ast.walk(node):
            pairs = []
            if isinstance(x, ast.Assign):
                pairs = [(t, x.value) for t in x.targets]
            elif isinstance(x, (ast.For, ast.comprehension)):
                pairs = [(x.target, x.iter)]
            elif isinstance(x, ast.NamedExpr):
                pairs = [(x.target, x.value)]
            for t, v in pairs:
                if root(v) in shared and not (isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice)):
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id not in shared:
                            shared.add(y.id)
                            changed = True
    rebound = {y.id for x in ast.walk(node) if isinstance(x, ast.Assign) and isinstance(x.value, FRESH) and root(x.value) not in shared for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
    bad = False
    for x in ast.walk(node):
        w = f"{fi.file}:{getattr(x, 'lineno', '?')}"
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            r = root(x.value)
            if r in shared and r not in own:
                c.require("C37:display:writes", None if r in rebound else False, w, f"{fi.name} writes to what it displays ({ast.unparse(x)})")
                bad = True
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "delattr") and x.args and root(x.args[0]) in shared:
            c.require("C37:display:writes", None if root(x.args[0]) in rebound else False, w, f"{fi.name} writes to what it displays ({ast.unparse(x)[:60]})")
            bad = True
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CHANGES and root(x.func.value) in shared and root(x.func.value) not in own and fi.name != "visit":
            r = root(x.func.value)
            c.require("C37:display:writes", None if r in rebound else False, w, f"{fi.name} changes what it displays ({ast.unparse(x)[:60]})")
            bad = True
    if not bad:
        c.ok("C37:display:writes", c.where(fi))


# ---- showing bindings, the debug dialect

def bindings(c, ix, fi):
    inl = [D + "format_bindings"]
    for o in returns(c.paths(fi, inline=inl, max_paths=40000)):
        w = at(c, fi, o)
        c.require("C37:bindings:nothing", True if o.value == NONE else False if o.value[0] in ("param", "const", "list") or is_call(o.value, "builtins.print") else None, w, f"showing the bindings expands to {show(o.value)[:60]}")
        for e in o.state.trace:
            if e.kind in ("setattr", "setitem", "delattr", "delitem") and contains(e.a, P("expander")) or e.kind == "call" and e.c[1][0] == "attr" and contains(e.c[1][1], P("expander")) and e.c[1][2] in CHANGES:
                c.bad("C37:bindings:writes", where_of(e, w), "showing the bindings changes the expander")


def dialect(c, ix):
    k = next((q for q in ix.classes if q.rsplit(".", 1)[-1] == "StepExpansion"), None)
    if k is None:
        c.unknown("C37:dialect:class", "", "")
        return
    inl = [f.qualname for f in ix.classes[k].methods.values() if f.name.startswith("_") and not f.name.startswith("__")]
    for name in ("transform_source", "transform_ast", "postprocess_ast"):
        fi = ix.find_method(k, name)
        if fi is None:
            continue
        C = P(fi.params()[1])
        for o in c.paths(fi, inline=inl, selfcls=k):
            w = at(c, fi, o)
            if o.kind != "return":
                c.bad("C37:dialect:raises", w, f"raises {show(o.value)[:60]}")
                continue
            v = o.value
            c.require("C37:dialect:content", True if v == C or v[0] == "ref" and v[1].endswith("NotImplemented") or v == ("const", "NotImplemented", NotImplemented) else False if v == NONE or v[0] in ("const", "fstr") or contains(v, C) and v[0] in ("op", "call") else None, w,
                      f"the debug dialect replaces the content by {show(v)[:60]}")
            for e in o.state.trace:
                if e.kind in ("setattr", "setitem", "delattr", "delitem"):
                    c.require("C37:dialect:writes", True if e.kind == "setattr" and e.b == "debugmode" else False if contains(e.a, C) else None, where_of(e, w), f"the debug dialect changes {show(e.a)[:60]}")
