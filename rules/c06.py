"""Macro output is completed before it is used; whole-module postprocessing is complete and in order.

Rule: in BaseMacroExpander.expand (helpers inlined) every path with a macro result that is not None passes it through
fix_locations with the invocation as reference (not overwriting) and through fix_ctx, both before any further visit,
and returns it; it is visited again exactly on the paths where the expander's recursive flag is true. In
global_postprocess the tree goes through marker deletion of the expander's own marker class, then context fixing with
copying, then every registered postprocessor, front to back, each receiving the previous one's result; registration
appends. Every MacroExpander visitor puts in place of the invocation what expand() returned.
"""
from lib.interp import FALSE, NONE, TRUE, attr, const, ref, show, subterms
from lib.q import argof, at, call_events, callee, contains, is_call, raises, returns, where_of
from .c05 import P, S


def origin(t):
    """Strip in-place completion stages."""
    while is_call(t, "fix_locations", "fix_ctx"):
        t = argof(t, "tree", 0)
    return t


def check(c):
    ix = c.ix
    fi = ix.func("mcpyrate.core.BaseMacroExpander.expand")

    def macro_call(t):
        return t[0] == "call" and (is_call(t[1], "isbound") or t[1][0] == "sub" and contains(t[1], attr(S, "bindings")))

    with c.section("C06:expand"):
        n = nv = 0
        for o in returns(c.paths(fi, inline=["_apply_macro", "_visit_expansion"], max_paths=40000)):
            tr = o.state.trace
            f = o.state.facts
            ms = [(i, e) for i, e in enumerate(tr) if e.kind == "call" and macro_call(e.c)]
            if not ms:
                continue
            M = ms[-1][1].c
            forms = {M, ("list", (("star", M),))}
            vis = [(i, e) for i, e in call_events(tr, "self.visit", "BaseMacroExpander.visit", "visit_recursively", "visit_once", "visit", raising=False)]
            if f.get(("isnone", M)):
                c.require("C06:nothing", o.value == NONE or o.value == M, at(c, fi, o), f"a macro that returns nothing expands to {show(o.value)[:80]}")
                continue
            n += 1
            fl = [(i, e) for i, e in call_events(tr, "fix_locations", raising=False) if origin(argof(e, "tree", 0)) in forms]
            fc = [(i, e) for i, e in call_events(tr, "fix_ctx", raising=False) if origin(argof(e, "tree", 0)) in forms]
            firstvisit = vis[0][0] if vis else len(tr)
            ok = [e for i, e in fl if i < firstvisit]
            if c.require("C06:locations", bool(ok), at(c, fi, o), "the macro's output is handed on without filling in missing source locations first"):
                e = ok[0]
                c.require("C06:reference", argof(e, "reference_node", 1) == P("target"), where_of(e), f"missing locations are filled from {show(argof(e, 'reference_node', 1))[:60]}, not from the invocation")
                m = argof(e, "mode", 2)
                c.require("C06:mode", m in (None, const("reference")), where_of(e), f"locations are filled in mode {show(m) if m else ''}, which overwrites or ignores the output's own locations")
            c.require("C06:contexts", any(i < firstvisit for i, e in fc), at(c, fi, o), "the macro's output is handed on without filling in missing name contexts first")
            rec = f.get(attr(S, "recursive"))
            c.require("C06:recursion", None if rec is None and not vis else bool(vis) == bool(rec), at(c, fi, o),
                      "the output is expanded again although the expander is in once-only mode" if vis else "the output is not expanded again although the expander is in recursive mode")
            if vis:
                nv += 1
                e = vis[0][1]
                c.require("C06:revisit", callee(e.a).endswith(".visit") and len(vis) == 1, where_of(e), f"the output is expanded again by {callee(e.a)}")
                c.require("C06:visited", origin(argof(e, "tree", 0)) in forms, where_of(e), f"{show(argof(e, 'tree', 0))[:80]} is expanded again instead of the macro's output")
                c.require("C06:result", o.value == e.c, at(c, fi, o), f"expand() returns {show(o.value)[:80]} instead of the expanded output")
            else:
                c.require("C06:result", origin(o.value) in forms, at(c, fi, o), f"expand() returns {show(o.value)[:80]} instead of the macro's output")
        c.require("C06:exercised", True if n >= 2 and nv else None, c.where(fi), "paths with macro output not found")

    # -- global postprocessing
    g = ix.func("mcpyrate.core.global_postprocess")
    REG = ref("mcpyrate.core.global_postprocessors")
    with c.section("C06:global"):
        loops = 0
        for o in returns(c.paths(g)):
            tr = o.state.trace
            dm = call_events(tr, "delete_markers", raising=False)
            fc = call_events(tr, "fix_ctx", raising=False)
            if not c.require("C06:global:stages", len(dm) == 1 and len(fc) == 1, at(c, g, o), "a whole-module expansion ends without deleting the expander's markers and fixing contexts, once each"):
                continue
            d, x = dm[0][1], fc[0][1]
            c.require("C06:global:markers", argof(d, "cls", 1) == ref("mcpyrate.core.MacroExpanderMarker") and argof(d, "tree", 0) == P("tree"), where_of(d),
                      f"what is deleted is {show(argof(d, 'cls', 1)) if argof(d, 'cls', 1) else 'every marker'} in {show(argof(d, 'tree', 0))[:40]}, not the expander's own markers in the tree")
            c.require("C06:global:contexts", argof(x, "tree", 0) == d.c and argof(x, "copy_seen_nodes", 1) == TRUE, where_of(x),
                      "contexts are not fixed, with copying of shared nodes, on the tree that the marker deletion returned")
            post = [(e.a, e) for e in tr if e.kind == "call" and e.a[0] in ("elem", "sub") and contains(e.a, REG)]
            for fn, e in post:
                loops += 1
                it = fn[1] if fn[0] == "elem" else None
                front = it == REG or it == ("list", (("star", REG),)) or (it and it[0] == "list" and it[1] == (("star", REG),))
                rev = [ev.a for ev in tr if ev.kind == "loop" and contains(ev.a, REG)]
                isrev = any(a[0] in ("reversed", "set") or a[0] == "new" and a[1] == "set" or is_call(a, "builtins.sorted", "builtins.set", "builtins.frozenset", "builtins.reversed") for a in rev)
                c.require("C06:global:order", (front and not isrev) or (False if isrev else None), where_of(e), f"postprocessors run over {show(rev[0])[:60] if rev else '?'}, not in registration order")
                a = argof(e, 0)
                chain = a[0] == "carried" and x.c == a[3]
                c.require("C06:global:chain", chain, where_of(e), f"a postprocessor is given {show(a)[:100]}, not the previous stage's result")
                c.require("C06:global:result", o.value == e.c, at(c, g, o), "the last postprocessor's result is not what is returned")
            if not post:
                c.require("C06:global:result", o.value == x.c, at(c, g, o), f"the postprocessed tree is {show(o.value)[:80]}")
        c.require("C06:global:exercised", True if loops else False, c.where(g), "the registered postprocessors are not run")
    a = ix.func("mcpyrate.core.add_postprocessor")
    with c.section("C06:register"):
        for o in returns(c.paths(a)):
            known = o.state.facts.get(("cmp", "In", P("function"), REG))
            pre = REG[1] + "."
            ap = [(callee(e.a)[len(pre):], e) for e in o.state.trace if e.kind == "call" and (callee(e.a) or "").startswith(pre)]
            if known:
                c.require("C06:register:once", not ap, at(c, a, o), "a postprocessor is registered twice")
            else:
                good = [e for m, e in ap if m == "append" and argof(e, 0) == P("function")]
                c.require("C06:register:append", bool(good) or (None if any(e.kind in ("augassign",) for e in o.state.trace) else False), at(c, a, o),
                          "registering does not append the postprocessor to the end of the list")

    r = ix.func("mcpyrate.core.remove_postprocessor")
    with c.section("C06:unregister"):
        for o in returns(c.paths(r)):
            known = o.state.facts.get(("cmp", "In", P("function"), REG))
            pre = REG[1] + "."
            ev = [(callee(e.a)[len(pre):], e) for e in o.state.trace if e.kind == "call" and (callee(e.a) or "").startswith(pre)]
            cut = [e for e in o.state.trace if e.kind == "delitem" and e.a == REG and e.b[0] == "slice" and (e.b[2] == NONE or e.b[1] == NONE)]
            for m, e in ev:
                if m == "remove":
                    c.require("C06:unregister:which", argof(e, 0) == P("function"), where_of(e), f"what is unregistered is {show(argof(e, 0))[:60]}")
                elif m == "clear" or m == "pop" and argof(e, 0) is None:
                    c.bad("C06:unregister:which", where_of(e), "unregistering one postprocessor unregisters another one, or all of them")
            for e in cut:
                c.bad("C06:unregister:only", where_of(e), "unregistering one postprocessor also unregisters others")
            if known and not ev and not any(e.kind not in ("test", "call") for e in o.state.trace) and not o.state.heap:
                c.bad("C06:unregister:done", at(c, r, o), "a registered postprocessor stays registered when it is removed")

    # -- visitors use what expand returned
    ME = "mcpyrate.expander.MacroExpander"
    for q in ("visit_Subscript", "visit_With", "visit_ClassDef", "visit_FunctionDef", "visit_AsyncFunctionDef", "visit_Name"):
        with c.section("C06:site:" + q):
            v = ix.find_method(ME, q)
            n = 0
            for o in returns(c.paths(v, inline=["_visit_Decorated", "_detect_macro_items"], max_paths=40000)):
                ex = [e for _, e in call_events(o.state.trace, "expand", raising=False)]
                if not ex:
                    continue
                n += 1
                E = ex[-1].c
                none = o.state.facts.get(("isnone", E))
                c.require(f"C06:site:{q}", True if contains(o.value, E) else bool(none), at(c, v, o), f"{q} puts {show(o.value)[:90]} in place of the invocation, not what expand() returned")
            c.require(f"C06:site:{q}:exercised", True if n else None, c.where(v), "no macro application found")
    c.floor(30)
