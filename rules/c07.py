"""Expand-once, expand-recursively and 'done' are honoured.

Rule: expanding once returns a Done marker around the visited tree and expanding recursively returns the visited tree
(that the flag has the right value meanwhile is C01); a new expander starts in recursive mode; given a Done marker, the
expander's and the collector's visit make no further visit on any path; a name macro is applied with recursion off, an
answer that is the same name is wrapped in Done and not visited, any other answer is visited exactly when the
surrounding mode is recursive; each public expansion operator applies the mode that its name says, to the right tree.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, const, ref, show, subterms
from lib.q import any_call_raises, argof, at, call_events, callee, contains, is_call, raises, returns, watched_at, where_of

P = lambda n: ("param", n)
S = P("self")
DONE = "mcpyrate.core.Done"
VISITS = ("visit", "generic_visit", "visit_once", "visit_recursively")


def check(c):
    ix = c.ix
    B = "mcpyrate.core.BaseMacroExpander"
    for q, shield in (("visit_once", True), ("visit_recursively", False)):
        key = "C07:" + q
        with c.section(key):
            fi = ix.find_method("mcpyrate.expander.MacroExpander", q)
            for o in returns(c.paths(fi, inline=["_recursive_mode"], watch=[(S, "recursive")])):
                vs = call_events(o.state.trace, *VISITS, raising=False)
                if not c.require(key + ":one-pass", len(vs) == 1 and (callee(vs[0][1].a) or "").endswith(".visit") and argof(vs[0][1], "tree", 0) == P("tree"), at(c, fi, o),
                                 f"{q} does not make exactly one pass over the given tree"):
                    continue
                v = vs[0][1].c
                w = watched_at(o.state.trace, vs[0][0], S, "recursive")
                c.require(key + ":mode", w == (FALSE if shield else TRUE), where_of(vs[0][1]), f"{q} makes its pass with recursion {'as found' if w in (None, attr(S, 'recursive')) else show(w)}")
                if shield:
                    ok = o.value[0] == "call" and o.value[1] == ref(DONE) and argof(o.value, 0, "body") == v
                    c.require(key + ":shielded", ok, at(c, fi, o), f"expanding once returns {show(o.value)[:80]}, which later passes look into")
                else:
                    c.require(key + ":result", o.value == v, at(c, fi, o), f"expanding recursively returns {show(o.value)[:80]} instead of the expanded tree")
    with c.section("C07:init"):
        fi = ix.find_method("mcpyrate.expander.MacroExpander", "__init__")
        for o in returns(c.paths(fi)):
            c.require("C07:default-mode", o.state.heap.get((S, "recursive")) == TRUE, at(c, fi, o), "a new expander does not start in recursive mode")

    # -- done is never looked into
    for cls in ("mcpyrate.expander.MacroExpander", "mcpyrate.expander.MacroCollector"):
        name = cls.rsplit(".", 1)[1]
        key = f"C07:done:{name}"
        with c.section(key):
            fi = ix.find_method(cls, "visit")
            tree = P(fi.params()[1])
            n = 0
            for o in c.paths(fi, selfcls=cls):
                if o.state.facts.get(("isinst", tree, frozenset([DONE]))) is False:
                    continue
                asked = o.state.facts.get(("isinst", tree, frozenset([DONE])))
                vs = [e for _, e in call_events(o.state.trace, *VISITS)]
                if asked is None:
                    # a path that never asks must not visit (unless it excludes marker nodes otherwise)
                    pos = [k for k, v in o.state.facts.items() if k[0] == "isinst" and k[1] == tree and v and not any("mcpyrate" in t for t in k[2])] or o.state.facts.get(("isnone", tree))
                    if vs and not pos:
                        c.bad(key, where_of(vs[0]), f"{name} visits a tree without asking whether it is marked as done")
                    continue
                n += 1
                c.require(key, not vs, at(c, fi, o), f"{name} looks into a tree marked as done")
                if name == "MacroExpander":
                    c.require(key + ":kept", o.value == tree, at(c, fi, o), "a tree marked as done is replaced")
            c.require(key + ":exercised", True if n else None, c.where(fi), "no test for the done marker found")
            m = 0
            for o in c.paths(fi, selfcls=cls):
                f = o.state.facts
                if f.get(("isinst", tree, frozenset(["builtins.list"]))) and not f.get(("isinst", tree, frozenset([DONE]))):
                    for e in o.state.trace:
                        if e.kind == "endloop" and e.a in (tree, ("list", (("star", tree),))):
                            m += 1
                            inloop = [x for _, x in call_events(o.state.trace, *VISITS, raising=False) if argof(x, "tree", 0) is not None and argof(x, "tree", 0)[0] == "elem" and contains(argof(x, "tree", 0), tree)]
                            c.require(key + ":list", bool(inloop), where_of(e), f"{name} does not visit the elements of a list")
            c.require(key + ":list-exercised", True if m else None, c.where(fi), "list handling not found")

    # -- name macros
    with c.section("C07:name"):
        fi = ix.find_method("mcpyrate.expander.MacroExpander", "visit_Name")
        node = P(fi.params()[1])
        n = {"same": 0, "other": 0}
        for o in returns(c.paths(fi, inline=["_recursive_mode"], watch=[(S, "recursive")])):
            tr = o.state.trace
            f = o.state.facts
            for i, e in call_events(tr, "expand", raising=False):
                w = watched_at(tr, i, S, "recursive")
                c.require("C07:name:once", w == FALSE, where_of(e), "a name macro is applied with recursion on, so that its own name in its output expands again without end")
                E = e.c
                vis = [(j, v) for j, v in call_events(tr, *VISITS, raising=False) if j > i]
                isname = f.get(("typeis", E, frozenset(["ast.Name"])))
                if isname is None:
                    isname = f.get(("isinst", E, frozenset(["ast.Name"])))
                same = None
                for k, v in f.items():
                    if k[0] == "cmp" and k[1] == "Eq" and {k[2], k[3]} == {attr(E, "id"), attr(node, "id")}:
                        same = v
                if f.get(("isnone", E)):
                    c.require("C07:name:nothing", not vis, at(c, fi, o), "a name macro that deletes its invocation causes another visit")
                    continue
                if isname and same:
                    n["same"] += 1
                    c.require("C07:name:stops", not vis and o.value[0] == "call" and o.value[1] == ref(DONE) and argof(o.value, 0) == E, at(c, fi, o),
                              "a name macro that answers with the same name does not stop expanding")
                elif isname is False or same is False:
                    n["other"] += 1
                    rec = f.get(attr(S, "recursive"))
                    if rec is None:
                        c.require("C07:name:mode", False if vis else None, at(c, fi, o), "the answer of a name macro is expanded further without consulting the surrounding mode")
                        continue
                    if rec:
                        c.require("C07:name:continues", len(vis) == 1 and argof(vis[0][1], "tree", 0) == E and o.value == vis[0][1].c and watched_at(tr, vis[0][0], S, "recursive") == attr(S, "recursive"),
                                  at(c, fi, o), "the answer of a name macro is not expanded further although the surrounding mode is recursive")
                    else:
                        c.require("C07:name:once-mode", not vis and o.value == E, at(c, fi, o), "the answer of a name macro is expanded further although the surrounding mode is once-only")
                elif vis and any(k[0] == "cmp" and k[1] == "Is" and not v and {k[2], k[3]} == {E, node} for k, v in f.items()):
                    c.bad("C07:name:stops", at(c, fi, o), "a name macro that answers with the same name in a new node does not stop expanding")
                elif isname and not vis and same is None and not any(contains(k, E) and k[0] not in ("isinst", "typeis", "isnone") for k in f) and is_call(o.value, "Done"):
                    c.bad("C07:name:other-name", at(c, fi, o), "a name macro that answers with another name stops expanding, although only the same name is to be left as it is")
                else:
                    c.unknown("C07:name:answer", at(c, fi, o), "answer not classified on this path")
        c.require("C07:name:exercised", True if n["same"] and n["other"] else None, c.where(fi), f"{n}")

    # -- operators on quoted code
    X = P("expander")
    for q, once in (("expand1s", True), ("expands", False)):
        key = "C07:op:" + q
        with c.section(key):
            fi = ix.func("mcpyrate.metatools." + q)
            n = 0
            for o in returns(c.paths(fi)):
                n += 1
                vs = [e for _, e in call_events(o.state.trace, *VISITS, raising=False)]
                un = [e for _, e in call_events(o.state.trace, "unastify", raising=False)]
                qs = [e for _, e in call_events(o.state.trace, "quotes.q", raising=False)]
                if not c.require(key + ":stages", len(vs) == 2 and len(un) == 1 and len(qs) == 1, at(c, fi, o), f"{q} makes {len(vs)} expansions, {len(un)} un-quotings and {len(qs)} quotings, expected 2, 1, 1"):
                    continue
                a, b = vs
                c.require(key + ":quote", callee(a.a).endswith("visit_once") and argof(a, "tree", 0) == P("tree"), where_of(a), f"{q} does not first expand the quote itself once")
                c.require(key + ":unquoted", argof(un[0], "tree", 0) == attr(a.c, "body"), where_of(un[0]), f"{q} un-quotes {show(argof(un[0], 'tree', 0))[:80]}")
                want = "visit_once" if once else "visit_recursively"
                c.require(key + ":mode", callee(b.a).endswith(want) and argof(b, "tree", 0) == un[0].c, where_of(b), f"{q} expands the quoted code with {callee(b.a)}, not {want}")
                res = attr(b.c, "body") if once else b.c
                c.require(key + ":requoted", argof(qs[0], "tree", 0) == res and o.value == qs[0].c, where_of(qs[0]), f"{q} quotes {show(argof(qs[0], 'tree', 0))[:80]} again")
            c.require(key + ":exercised", True if n else None, c.where(fi), "")
    for q, inner in (("expand1sq", "expand1s"), ("expandsq", "expands"), ("expand1rq", "expand1r"), ("expandrq", "expandr")):
        key = "C07:op:" + q
        with c.section(key):
            fi = ix.func("mcpyrate.metatools." + q)
            n = 0
            for o in returns(c.paths(fi)):
                n += 1
                qs = [e for _, e in call_events(o.state.trace, "quotes.q", raising=False)]
                ins = [e for _, e in call_events(o.state.trace, "metatools.expand1s", "metatools.expands", "metatools.expand1r", "metatools.expandr", raising=False)]
                if not c.require(key + ":stages", len(qs) == 1 and len(ins) == 1, at(c, fi, o), f"{q} does not quote once and then expand once"):
                    continue
                c.require(key + ":quote", argof(qs[0], "tree", 0) == P("tree"), where_of(qs[0]), f"{q} does not quote the given tree")
                c.require(key + ":mode", callee(ins[0].a).endswith("." + inner), where_of(ins[0]), f"{q} delegates to {callee(ins[0].a)}, not {inner}")
                a = argof(ins[0], "tree", 0)
                c.require(key + ":tree", a == qs[0].c or a == attr(qs[0].c, "value"), where_of(ins[0]), f"{q} expands {show(a)[:80]}, not the quoted tree")
            c.require(key + ":exercised", True if n else None, c.where(fi), "")
    for q, op in (("expand1r", "runtime_expand1"), ("expandr", "runtime_expand")):
        key = "C07:op:" + q
        with c.section(key):
            fi = ix.func("mcpyrate.metatools." + q)
            n = 0
            for o in returns(c.paths(fi, inline=["_expandr_impl", "_mcpyrate_metatools_attr"], opaque=["_mcpyrate_attr", "macro_bindings", "astify"])):
                n += 1
                texts = [x for x in subterms(o.value) if is_call(x, "_mcpyrate_attr")]
                paths = {y for t in texts for x in subterms(t) if x[0] == "const" and x[1] == "str" for y in str(x[2]).split(".") if y.startswith("runtime_")}
                c.require(key + ":mode", paths == {op} if paths else None, at(c, fi, o), f"{q} generates a call of {sorted(paths)}, not {op}")
            c.require(key + ":exercised", True if n else None, c.where(fi), "")
    for q, want, res in (("runtime_expand1", "visit_once", True), ("runtime_expand", "visit_recursively", False)):
        key = "C07:op:" + q
        with c.section(key):
            fi = ix.func("mcpyrate.metatools." + q)
            for o in returns(c.paths(fi)):
                vs = [e for _, e in call_events(o.state.trace, *VISITS, raising=False)]
                ok = len(vs) == 1 and callee(vs[0].a).endswith(want) and argof(vs[0], "tree", 0) == P("tree")
                if c.require(key + ":mode", ok, at(c, fi, o), f"{q} does not expand the tree with {want}"):
                    r = attr(vs[0].c, "body") if res else vs[0].c
                    c.require(key + ":result", o.value == r, at(c, fi, o), f"{q} returns {show(o.value)[:80]}")
                    mk = [x for x in subterms(vs[0].a) if is_call(x, "MacroExpander")]
                    c.require(key + ":bindings", bool(mk) and argof(mk[0], "bindings", 0) == P("bindings") and argof(mk[0], "filename", 1) == P("filename"), where_of(vs[0]),
                              f"{q} expands with other bindings or file name than given")
    # -- step expansion goes one step at a time
    with c.section("C07:op:step_expansion"):
        fi = ix.func("mcpyrate.debug.step_expansion")
        n = 0
        for o in returns(c.paths(fi, max_paths=40000, assume_events=False)):
            for _, e in call_events(o.state.trace, *VISITS):
                if (callee(e.a) or "").split(".")[-1] in VISITS and contains(e.a, X) and "MacroCollector" not in (callee(e.a) or "") and not any(is_call(x, "MacroCollector") for x in subterms(e.a)):
                    n += 1
                    c.require("C07:op:step", callee(e.a).endswith("visit_once"), where_of(e), f"stepping expands with {callee(e.a)}, not one step at a time")
        c.require("C07:op:step-exercised", True if n else None, c.where(fi), "")
    c.floor(30)
