"""Every compile route runs the whole transform pipeline, each stage consuming the previous one's output.

Rule: on every normally completing abstract path of each route (expand, single-phase expansion, multi-phase expansion,
compile, run, the import hook, whole-module macro expansion, both consoles) the stages of the pipeline occur exactly
once, in order, and the tree (text) argument of each stage is the term that the previous stage returned (or, for the
stages that edit in place, the tree it was given); what is handed to Python's compiler or returned is the last stage's
term.
"""
from lib.interp import NONE, TRUE, FALSE, const, ref, show
from lib.q import any_call_raises, argof, at, call_events, callee, contains, is_call, norm_ctor, one, raises, returns, where_of

P = lambda n: ("param", n)


def stages(c, key, fi, o, spec):
    """spec: [(label, names, args predicate {arg keys: wanted term}, result fn or None)]; wanted may be a callable of env."""
    tr = o.state.trace
    env, last = {}, -1
    good = True
    for label, names, want, res in spec:
        evs = call_events(tr, *names, raising=False)
        if len(evs) != 1:
            c.require(f"{key}:{label}", False, at(c, fi, o),
                      f"{fi.qualname}: on a path that completes normally, the stage '{label}' runs {len(evs)} times instead of once")
            return None
        i, e = evs[0]
        if i <= last:
            c.require(f"{key}:{label}", False, where_of(e), f"{fi.qualname}: the stage '{label}' runs before the stage that must precede it")
            return None
        last = i
        for keys, w in want.items():
            ks = keys if isinstance(keys, tuple) else (keys,)
            v = argof(e, *ks)
            w = w(env) if callable(w) else w
            ok = c.require(f"{key}:{label}:{ks[0]}", v == w if w is not None else None, where_of(e),
                           f"{fi.qualname}: the stage '{label}' is given {show(v)[:140] if v else 'nothing'} as {ks[0]}, expected {show(w)[:140] if w else w}")
            good = good and ok
        env[label] = e.c
        env[label + "#"] = e
    return env


def check(c):
    ix = c.ix
    # -- expand: text route and tree route
    fi = ix.func("mcpyrate.compiler.expand")
    src = P("source")
    routes = {"bytes": {("isinst", src, frozenset(["builtins.str"])): False, ("isinst", src, frozenset(["builtins.bytes"])): True},
              "text": {("isinst", src, frozenset(["builtins.str"])): True, ("isinst", src, frozenset(["builtins.bytes"])): False},
              "tree": None, "list": None}
    with c.section("C03:expand"):
        n = 0
        for o in returns(c.paths(fi)):
            tr = o.state.trace
            f = o.state.facts
            pos, neg = set(), set()
            for t, v in f.items():
                if t[0] == "isinst" and t[1] == src:
                    (pos if v else neg).update([t[2]] if not v and len(t[2]) > 1 else t[2]) if v is False or len(t[2]) == 1 else None
            final = [e for _, e in call_events(tr, "singlephase_expand", "multiphase_expand", raising=False)]
            if not c.require("C03:expand:expansion", len(final) == 1 and final[0].c == o.value, at(c, fi, o),
                             "expand() returns something else than the result of its single expansion stage"):
                continue
            tree = argof(final[0], "tree")
            parses = call_events(tr, "ast.parse", raising=False)
            ts = call_events(tr, "transform_source", raising=False)
            n += 1
            de = argof(final[0], "dexpander")
            c.require("C03:expand:dexpander", is_call(de, "DialectExpander"), where_of(final[0]),
                      f"the expansion stage gets {show(de)[:80] if de else 'no'} dialect expander")
            if parses or ts:
                ok = len(parses) == 1 and len(ts) == 1
                if not c.require("C03:expand:text-stages", ok, at(c, fi, o),
                                 f"source text passes {len(ts)} dialect source transforms and {len(parses)} parses, expected one each"):
                    continue
                text = argof(ts[0][1], "text", 0)
                dec = [e for _, e in call_events(tr, "decode_source", raising=False)]
                okt = text == src or (dec and text == dec[0].c and argof(dec[0], 0, "source_bytes") == src)
                c.require("C03:expand:transform-input", okt, where_of(ts[0][1]), f"the dialect source transform is given {show(text)[:100]}, not the source text")
                c.require("C03:expand:parse-input", argof(parses[0][1], 0, "source") == ts[0][1].c, where_of(parses[0][1]),
                          f"the parser is given {show(argof(parses[0][1], 0, 'source'))[:100]}, not the output of the dialect source transform")
                c.require("C03:expand:tree", tree == parses[0][1].c, where_of(final[0]), f"the expansion stage is given {show(tree)[:100]}, not the parsed tree")
                rcv = parses[0][1]
                c.require("C03:expand:receiver", ts[0][1].a[0] in ("bound", "attr") and contains(ts[0][1].a, de), where_of(ts[0][1]),
                          "source and AST transforms run on different dialect expanders") if de else None
                isbytes = any(t[0] == "isinst" and t[1] == src and v and t[2] == frozenset(["builtins.bytes"]) for t, v in f.items())
                if isbytes:
                    c.require("C03:expand:decoded", bool(dec), where_of(ts[0][1]), "bytes are not decoded before the dialect source transform")
            else:
                k = norm_ctor(tree)
                okt = tree == src or (k and k[0] == "Module" and k[1].get("body") == src)
                c.require("C03:expand:tree", okt, where_of(final[0]), f"the expansion stage is given {show(tree)[:100]}, not the given tree")
                istext = [t for t, v in f.items() if t[0] == "isinst" and t[1] == src and v and t[2] & {"builtins.str", "builtins.bytes"} and not t[2] & {"ast.Module", "builtins.list"}]
                c.require("C03:expand:text-parsed", not istext, at(c, fi, o), "source text reaches the expansion stage without being parsed")
            mp = [e for _, e in call_events(tr, "ismultiphase", raising=False)]
            verdict = [f.get(e.c) for e in mp]
            multi = "multiphase_expand" in (callee(final[0].a) or "")
            if verdict:
                c.require("C03:expand:phase-route", verdict[-1] is multi and argof(mp[-1], "tree", 0) == tree, where_of(final[0]),
                          f"a {'multi' if verdict[-1] else 'single'}-phase module takes the {'multi' if multi else 'single'}-phase route")
        c.require("C03:expand:exercised", True if n >= 6 else None, c.where(fi), "routes not found")

    # -- single-phase expansion
    fi = ix.func("mcpyrate.compiler.singlephase_expand")
    D = P("dexpander")
    for has in (True, False):
        key = "C03:singlephase:" + ("dialects" if has else "plain")
        with c.section(key):
            facts = {D: has, ("isnone", D): not has}
            n = 0
            for o in returns(c.paths(fi, facts=facts)):
                n += 1
                spec = []
                if has:
                    spec.append(("dialect AST transforms", ["transform_ast"], {("tree", 0): P("tree")}, None))
                    t0 = lambda env: ("sub", env["dialect AST transforms"], const(0))
                else:
                    t0 = P("tree")
                spec.append(("macro-import collection", ["find_macros"], {("tree", 0): t0, "filename": P("filename"), "self_module": P("self_module")}, None))
                spec.append(("macro expansion", ["expand_macros"], {("tree", 0): t0, ("bindings", 1): lambda env: env["macro-import collection"], "filename": P("filename")}, None))
                last = "macro expansion"
                if has:
                    spec.append(("dialect postprocessing", ["postprocess_ast"], {("tree", 0): lambda env: env["macro expansion"],
                                 ("dialect_instances", 1): lambda env: ("sub", env["dialect AST transforms"], const(1))}, None))
                    last = "dialect postprocessing"
                spec.append(("marker check", ["check_no_markers_remaining"], {("tree", 0): lambda env: env[last], "filename": P("filename")}, None))
                env = stages(c, key, fi, o, spec)
                if env:
                    c.require(key + ":result", o.value == env[last], at(c, fi, o), f"singlephase_expand returns {show(o.value)[:100]}, not the output of the last stage")
                if not has:
                    c.require(key + ":no-dialect-stage", not call_events(o.state.trace, "transform_ast", "postprocess_ast"), at(c, fi, o), "a dialect stage runs without a dialect expander")
            c.require(key + ":exercised", True if n else None, c.where(fi), "no completing path")

    # -- multi-phase expansion: each phase goes through a full pipeline
    fi = ix.func("mcpyrate.multiphase.multiphase_expand")
    key = "C03:multiphase"
    with c.section(key):
        n = 0
        for o in returns(c.paths(fi, facts={("call", ref("mcpyrate.multiphase.isdebug"), (("tree", P("tree")),), 0): False}, max_paths=20000)):
            ev = [e for _, e in call_events(o.state.trace, "singlephase_expand", raising=False)]
            for e in ev:
                n += 1
                t = argof(e, "tree", 0)
                c.require(key + ":phase0-input", contains_extract(t), where_of(e), f"phase 0 expands {show(t)[:100]}, not the code extracted for it")
                c.require(key + ":dexpander", argof(e, "dexpander") == D, where_of(e), "phase 0 is expanded without the given dialect expander")
                c.require(key + ":result", o.value == e.c, at(c, fi, o), f"multiphase_expand returns {show(o.value)[:100]}, not the expansion of phase 0")
            for _, e in call_events(o.state.trace, "compiler.run", raising=False):
                t = argof(e, "source", 0)
                c.require(key + ":phase-input", contains_extract(t), where_of(e), f"a higher phase runs {show(t)[:100]}, not the code extracted for it")
        c.require(key + ":exercised", True if n else None, c.where(fi), "phase 0 not reached")

    # -- compile / run / import hook
    fi = ix.func("mcpyrate.compiler.compile")
    with c.section("C03:compile"):
        n = 0
        for o in returns(c.paths(fi, inline=["_compile"])):
            n += 1
            compiled(c, "C03:compile", fi, o, P("source"))
            cs = call_events(o.state.trace, "builtins.compile", raising=False)
            if len(cs) == 1:
                c.require("C03:compile:result", o.value == cs[0][1].c, at(c, fi, o), "compile() does not return the code object it compiled")
        c.require("C03:compile:exercised", True if n else None, c.where(fi), "no completing path")
    fi = ix.func("mcpyrate.compiler.run")
    with c.section("C03:run"):
        n = 0
        for o in returns(c.paths(fi, inline=["_compile", "mcpyrate.compiler.compile"], opaque=["create_module", "getdocstring"])):
            ex = call_events(o.state.trace, "builtins.exec", raising=False)
            c.require("C03:run:exec", len(ex) == 1, at(c, fi, o), f"run() executes {len(ex)} code objects, expected one")
            if len(ex) != 1:
                continue
            n += 1
            code = argof(ex[0][1], 0)
            iscode = any(t[0] == "isinst" and t[1] == P("source") and v and t[2] == frozenset(["types.CodeType"]) for t, v in o.state.facts.items())
            if iscode:
                c.require("C03:run:code", code == P("source"), where_of(ex[0][1]), "a code object is not what gets executed")
            else:
                compiled(c, "C03:run", fi, o, P("source"))
                cs = call_events(o.state.trace, "builtins.compile", raising=False)
                if len(cs) == 1:
                    c.require("C03:run:code", code == cs[0][1].c, where_of(ex[0][1]), "the executed code is not the compiled expansion")
        c.require("C03:run:exercised", True if n >= 2 else None, c.where(fi), "no completing path")
    fi = ix.func("mcpyrate.importer.source_to_xcode")
    with c.section("C03:import"):
        for o in returns(c.paths(fi)):
            cs = call_events(o.state.trace, "compiler.compile", raising=False)
            if c.require("C03:import:compile", len(cs) == 1, at(c, fi, o), "the import hook does not compile exactly once with the macro compiler"):
                c.require("C03:import:source", argof(cs[0][1], "source", 0) == P("data"), where_of(cs[0][1]), "the import hook compiles something else than the file's source")
                c.require("C03:import:result", o.value == cs[0][1].c, at(c, fi, o), "the import hook does not return the compiled code")

    # -- whole-module macro expansion
    fi = ix.func("mcpyrate.expander.expand_macros")
    with c.section("C03:expand_macros"):
        for o in returns(c.paths(fi)):
            env = stages(c, "C03:expand_macros", fi, o, [
                ("expander", ["MacroExpander"], {("bindings", 0): P("bindings"), ("filename", 1): P("filename")}, None),
                ("expansion", ["visit"], {("tree", 0): P("tree")}, None),
                ("postprocessing", ["global_postprocess"], {("tree", 0): lambda env: env["expansion"]}, None)])
            if env:
                c.require("C03:expand_macros:result", o.value == env["postprocessing"], at(c, fi, o), "expand_macros does not return the postprocessed expansion")
                c.require("C03:expand_macros:receiver", contains(env["expansion#"].a, env["expander"]), where_of(env["expansion#"]), "the tree is visited by another expander")

    # -- consoles
    S = P("self")
    fi = ix.func("mcpyrate.repl.console.MacroConsole.runsource")
    with c.section("C03:console"):
        n = 0
        for o in returns(c.paths(fi, opaque=["_refresh_macro_functions", "_internal_execute"], max_paths=20000)):
            rc = call_events(o.state.trace, "runcode", raising=False)
            if not rc:
                continue
            n += 1
            EX = ("attr", S, "expander")
            env = stages(c, "C03:console", fi, o, [
                ("parsing", ["ast.parse"], {(0, "source"): P("source")}, None),
                ("macro-import collection", ["find_macros"], {("tree", 0): lambda env: env["parsing"]}, None),
                ("macro expansion", ["expander.visit", "MacroExpander.visit", "BaseMacroExpander.visit"], {("tree", 0): lambda env: env["parsing"]}, None),
                ("postprocessing", ["global_postprocess"], {("tree", 0): lambda env: env["macro expansion"]}, None),
                ("compiling", ["builtins.compile"], {}, None),
                ("running", ["runcode"], {("code", 0): lambda env: env["compiling"]}, None)])
            if env:
                k = norm_ctor(argof(env["compiling#"], 0, "source"))
                body = k[1].get("body") if k else None
                c.require("C03:console:compiled", bool(k) and k[0] == "Interactive" and body == ("attr", env["postprocessing"], "body"), where_of(env["compiling#"]),
                          f"the compiled input is {show(argof(env['compiling#'], 0, 'source'))[:140]}, not the postprocessed expansion")
                bindings_used(c, "C03:console", o, env, EX, fi)
        c.require("C03:console:exercised", True if n else None, c.where(fi), "no path runs code")
    fi = ix.func("mcpyrate.repl.iconsole.InteractiveMacroTransformer.visit")
    with c.section("C03:iconsole"):
        n = 0
        for o in returns(c.paths(fi)):
            n += 1
            env = stages(c, "C03:iconsole", fi, o, [
                ("macro-import collection", ["find_macros"], {("tree", 0): P("tree")}, None),
                ("macro expansion", ["expander.visit", "MacroExpander.visit", "BaseMacroExpander.visit"], {("tree", 0): P("tree")}, None),
                ("postprocessing", ["global_postprocess"], {("tree", 0): lambda env: env["macro expansion"]}, None)])
            if env:
                c.require("C03:iconsole:result", o.value == env["postprocessing"], at(c, fi, o), "the transformer does not return the postprocessed expansion")
                bindings_used(c, "C03:iconsole", o, env, ("attr", S, "expander"), fi)
        c.require("C03:iconsole:exercised", True if n else None, c.where(fi), "no completing path")
    c.floor(60)


def contains_extract(t):
    return contains_call(t, "extract_phase")


def contains_call(t, name):
    from lib.interp import subterms
    return any(x[0] == "call" and is_call(x, name) for x in subterms(t))


def compiled(c, key, fi, o, src):
    tr = o.state.trace
    ex = call_events(tr, "compiler.expand", raising=False)
    cs = call_events(tr, "builtins.compile", raising=False)
    if not c.require(key + ":stages", len(ex) == 1 and len(cs) == 1, at(c, fi, o), f"{len(ex)} expansions and {len(cs)} compilations of the source, expected one each"):
        return
    s = argof(ex[0][1], "source", 0)
    c.require(key + ":expanded", s == src or (is_call(s, "unparse") and s[2][0][1] == src), where_of(ex[0][1]), f"expansion is given {show(s)[:80]}, not the source")
    c.require(key + ":compiled", argof(cs[0][1], 0, "source") == ex[0][1].c, where_of(cs[0][1]), f"Python's compiler is given {show(argof(cs[0][1], 0, 'source'))[:100]}, not the expansion")


def bindings_used(c, key, o, env, EX, fi):
    """The collected bindings are in the expander before it visits."""
    tr = o.state.trace
    fm = env["macro-import collection"]
    B = ("attr", EX, "bindings")
    vi = next(i for i, e in enumerate(tr) if e is env["macro expansion#"])
    empty = o.state.facts.get(fm) is False
    upd = [i for i, e in enumerate(tr[:vi]) if e.kind == "call" and e.a == ("attr", B, "update") and argof(e, 0) == fm]
    other = [e for e in tr[:vi] if e.kind in ("setitem", "augassign") and contains(e.a, B)]
    if not empty:
        c.require(key + ":bindings", bool(upd) or (None if other else False), where_of(env["macro expansion#"]), "the collected macro bindings are not merged into the expander before it expands the input")
    c.require(key + ":own-expander", contains(env["macro expansion#"].a, EX), where_of(env["macro expansion#"]), "the input is visited by another expander than the session's")
