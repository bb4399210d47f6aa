"""Compile parameters reach every stage unchanged.

Rule: every path through each entry point and stage of the compiler is enumerated with its private helpers inlined. In every call made on
the path to a stage that takes a file name, a module name or an optimization level - a function of the package with such a parameter, or
Python's parser and compiler - the argument must be the value the function itself got (for a module that is run: that module's own
file and name; for the import hook: the path and optimization level of the call and the name of the loader; for the expander objects: the
file name they were made for). A parameter left to its default is not the caller's value. The source handed on is the unparsed source
exactly if it is made of syntax nodes and the file name is none or does not end in ``.py``.
"""
from lib.interp import NONE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, truth, where_of
from lib.shape import P

C = "mcpyrate.compiler."
ROLE = {"filename": "filename", "self_module": "self_module", "optimize": "optimize", "_optimize": "optimize"}
WHAT = {"filename": "file name", "self_module": "module name", "optimize": "optimization level"}
BUILTIN = {
    "ast.parse": {"filename": ("filename", 1)},
    "builtins.compile": {"filename": ("filename", 1), "optimize": ("optimize", 5)},
}
#: functions whose file name, module name or optimization level is about something else than the code being compiled
STRINGS = {"builtins.str", "os.fspath", "builtins.int", "builtins.repr"}


def check(c):
    ix = c.ix
    F, S, O = P("filename"), P("self_module"), P("optimize")
    jobs = [
        (ix.func(C + "expand"), {"filename": F, "self_module": S, "optimize": O}, None),
        (ix.func(C + "compile"), {"filename": F, "self_module": S, "optimize": O}, None),
        (ix.func(C + "singlephase_expand"), {"filename": F, "self_module": S}, None),
        (ix.func("mcpyrate.multiphase.multiphase_expand"), {"filename": F, "self_module": S, "optimize": P("_optimize")}, None),
        (ix.func("mcpyrate.expander.find_macros"), {"filename": F, "self_module": S}, None),
        (ix.func("mcpyrate.expander.expand_macros"), {"filename": F}, None),
        (ix.func("mcpyrate.coreutils.get_macros"), {"filename": F, "self_module": S}, None),
        (ix.func("mcpyrate.importer.source_to_xcode"), {"filename": P("path"), "self_module": attr(P("self"), "name"), "optimize": P("_optimize")}, None),
    ]
    n = 0
    for fi, src, cls in jobs:
        with c.section("C27:" + fi.name):
            n += stage(c, fi, src, cls)
    with c.section("C27:run"):
        n += run_module(c, ix.func(C + "run"))
    with c.section("C27:objects"):
        n += objects(c)
    with c.section("C27:unparse"):
        unparsing(c, ix.func(C + "compile"), F)
        unparsing(c, ix.func(C + "run"), None)
    c.floor(25)


def same(v, src):
    if v == src:
        return True
    if v is None or v == NONE or v[0] in ("const", "param", "fstr"):
        return False
    if contains(v, src):
        if v[0] == "call" and v[1][0] == "ref" and v[1][1] not in STRINGS or v[0] in ("op", "sub") or v[0] == "call" and v[1][0] == "attr" and v[1][1] == src:
            return False
        if v[0] == "attr" and v[1] == src:
            return False
        return None
    if v[0] == "attr" and v[1][0] in ("param", "ref") and (v[1][0] == "param" or v[2].startswith("__")):
        return False
    if v[0] == "attr" and src[0] == "attr" and v[1] == src[1]:
        return False
    return None


def stage_calls(c, trace):
    """(event, role, argument or default) of every call to a stage on a path"""
    for e in trace:
        if e.kind not in ("call", "callraise"):
            continue
        name = callee(e.a) or ""
        if any(k == "**" or (isinstance(k, str) and k.startswith("*")) for k, _ in e.b):
            continue
        star = any(isinstance(v, tuple) and v and v[0] == "star" for _, v in e.b)
        if name in BUILTIN:
            for p, (role, pos) in BUILTIN[name].items():
                yield e, name, role, argof(e, p, pos)
            continue
        fi, off = None, 0
        if name.startswith("mcpyrate."):
            fi = c.ix.funcs.get(name)
            if fi is None:
                cl = c.ix.classes.get(name) if hasattr(c.ix, "classes") else None
                if cl is not None:
                    fi, off = c.ix.find_method(name, "__init__"), 1
        if fi is None:
            continue
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][off:]
        if name in (C + "create_module", C + "temporary_module"):
            v = argof(e, "dotted_name", 0)
            if v is not None or not star:
                yield e, name, "self_module", v
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p in ROLE:
                v = argof(e, p, pos.index(p)) if off and p in pos else argof(e, p)
                if v is None and star:
                    continue
                yield e, name, ROLE[p], v


def stage(c, fi, src, cls=None, **kw):
    n = 0
    seen = set()
    for o in c.paths(fi, inline=["_compile"], selfcls=cls, max_paths=20000, **kw):
        for e, name, role, v in stage_calls(c, o.state.trace):
            if role not in src:
                continue
            k = (id(e.node), name, role, v)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            c.require(f"C27:{fi.name}:{name.rsplit('.', 1)[-1]}:{role}", same(v, src[role]), where_of(e, c.where(fi)),
                      f"the {WHAT[role]} given to {name} is {show(v)[:60] if v is not None else 'left out'}, not {show(src[role])}")
    return n


def run_module(c, fi):
    n = 0
    M = P("module")
    for o in c.paths(fi, inline=["_compile"]):
        tr = o.state.trace
        ex = [e for e in tr if e.kind == "call" and (callee(e.a) or "") == "builtins.exec"]
        for e, name, role, v in stage_calls(c, tr):
            if name.endswith("create_module"):
                continue
            w = where_of(e, c.where(fi))
            n += 1
            if role == "optimize":
                c.require(f"C27:run:{name.rsplit('.', 1)[-1]}:optimize", same(v, P("optimize")), w, f"the optimization level given to {name} is {show(v) if v else 'left out'}")
                continue
            want = {"filename": "__file__", "self_module": "__name__"}[role]
            m = v[1] if v is not None and v[0] == "attr" else None
            ok = None
            if v is None or v == NONE or v[0] in ("const", "param"):
                ok = False
                if v is not None and v[0] == "param" and o.state.facts.get(("isinst", v, frozenset(["builtins.str"]))):
                    ok = True if role == "self_module" and m is None and v == M else False
            elif m is not None:
                ismod = m == M or is_call(m, "create_module") or m[0] in ("sub", "call")
                ok = True if v[2] == want and ismod else False if v[2] != want and ismod else None
            elif is_call(v, "builtins.getattr"):
                ok = None
            elif v[0] in ("sub", "op") and any(x[0] == "attr" and x[2] == want for x in subterms(v) if isinstance(x, tuple) and len(x) == 3):
                ok = False
            elif any(x in (const("__package__"), const("__file__"), const("__spec__")) or x[0] == "attr" and x[2] in ("__package__", "__qualname__") for x in subterms(v)) and role == "self_module":
                ok = False
            c.require(f"C27:run:{name.rsplit('.', 1)[-1]}:{role}", ok, w, f"the {WHAT[role]} given to {name} is {show(v)[:60] if v is not None else 'left out'}, not that of the module")
            if m is not None and ex:
                ns = argof(ex[-1], 1, "globals")
                nm = ns[1] if ns is not None and ns[0] == "attr" else ns[2][0][1] if ns is not None and is_call(ns, "builtins.vars") else None
                c.require("C27:run:module", m == nm or None, w, "the parameters are those of another module")
    return n


def objects(c):
    """expander objects keep the file name they were made for and use it"""
    ix = c.ix
    n = 0
    for cls in ("mcpyrate.dialects.DialectExpander", "mcpyrate.core.BaseMacroExpander"):
        ini = ix.find_method(cls, "__init__")
        for o in c.paths(ini, selfcls=cls):
            if o.kind != "return":
                continue
            v = o.state.heap.get((P("self"), "filename"))
            n += 1
            c.require("C27:objects:init", same(v, P("filename")) if v is not None else None, at(c, ini, o), "the object does not keep the file name")
    own = attr(P("self"), "filename")
    for cls in ("mcpyrate.dialects.DialectExpander", "mcpyrate.core.BaseMacroExpander", "mcpyrate.expander.MacroExpander"):
        ci = ix.classes[cls]
        for fi in list(ci.methods.values()):
            if fi.name == "__init__":
                continue
            import ast
            if not any(isinstance(x, ast.Attribute) and x.attr == "filename" or isinstance(x, ast.keyword) and x.arg == "filename" for x in ast.walk(fi.node)):
                continue
            with c.section(f"C27:objects:{fi.name}"):
                n += stage(c, fi, {"filename": own}, cls)
    return n


def unparsing(c, fi, F):
    src = P("source")
    n = 0
    for o in c.paths(fi, inline=["_compile"]):
        tr, f, w = o.state.trace, o.state.facts, at(c, fi, o)
        comp = [e for e in tr if e.kind in ("call", "callraise") and (callee(e.a) or "") in (C + "expand", C + "compile", C + "singlephase_expand")]
        for e in comp:
            v = argof(e, "source", "tree", 0)
            if v is None:
                continue
            fn = F if F is not None else argof(e, "filename", 1)
            if fn is None:
                continue
            pyt = next((b for k, b in f.items() if isinstance(k, tuple) and is_call(k, ".endswith") and contains(k, fn) and const(".py") in [x for _, x in k[2]]), None)
            if pyt is None:
                pyt = next((b for k, b in f.items() if isinstance(k, tuple) and k and k[0] == "call" and k[1][0] == "attr" and k[1][2] == "endswith" and k[1][1] == fn), None)
            hasname = False if truth(fn, f) is False or f.get(("isnone", fn)) else None
            isfile = pyt if pyt is not None else hasname
            nodes, excluded, strange = None, set(), False
            for k, b in f.items():
                if not isinstance(k, tuple) or k == src or not about(k, src):
                    continue
                if len(k) == 3 and k[0] in ("isinst", "typeis"):
                    t = set(k[2])
                    if b:
                        nodes = bool(t & {"ast.AST", "ast.Module", "builtins.list"}) if not (t & {"ast.AST", "ast.Module", "builtins.list"} and t & {"builtins.str", "builtins.bytes"}) else nodes
                    else:
                        excluded |= t
                else:
                    strange = True
            if nodes is None and "builtins.list" in excluded and excluded & {"ast.AST", "ast.Module"}:
                nodes = False
            if nodes is None and not strange:
                nodes = "possible"
            asked = [k for k in f if isinstance(k, tuple) and k != fn and k[0] not in ("isnone", "isinst", "typeis") and about(k, fn)]
            if asked and not any("py" in str(x[2]) for k in asked for x in subterms(k) if isinstance(x, tuple) and len(x) == 3 and x[0] == "const") and not any(x[0] == "ref" for k in asked for x in subterms(k) if isinstance(x, tuple) and x):
                c.bad("C27:unparse:test", w, f"whether the code has a source file is decided by {show(asked[0])[:60]}")
            filetested = any(isinstance(k, tuple) and k != fn and k[0] != "isnone" and about(k, fn) for k in f)
            un = is_call(v, "mcpyrate.unparser.unparse")
            n += 1
            if v == src:
                if isfile is True or nodes is False:
                    c.ok("C27:unparse:given", w)
                elif nodes is None:
                    c.unknown("C27:unparse:given", w, "")
                else:
                    c.require("C27:unparse:missing", False if isfile is False or not filetested else None, w, "code without a source file gets no locations")
            elif un:
                c.require("C27:unparse:content", argof(v, "tree", 0) == src or None, w, "something else is unparsed")
                c.require("C27:unparse:file", True if isfile is False else False if isfile is True or not filetested else None, w, "code with a source file is unparsed")
            else:
                c.unknown("C27:unparse:given", w, f"{show(v)[:60]} is compiled")
    c.require("C27:unparse:exercised", n > 0 or None, c.where(fi), "")


def about(k, x):
    """the atom is a test of this value (not of something computed from it by the package)"""
    if k == x:
        return True
    if not isinstance(k, tuple):
        return False
    if k[0] == "call" and (callee(k[1]) or "").startswith("mcpyrate."):
        return False
    return any(about(y, x) if isinstance(y, tuple) else False for y in k)
