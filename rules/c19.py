"""Macro-imports bind the named macros and become plain absolute imports.

Rule (binder): on every path that returns, the module is the imported (and in reload mode reloaded) module of the absolute name
resolved from the level and module of the statement relative to the package of the file, or the module being compiled for an
import from itself; every listed name except the marker itself is bound, under its as-name if it has one, to that module's
attribute of that name, checked to be callable; the absolute name returned is the one imported. Every failure of the import or of
the look-up of a name ends in an import error carrying the location of the use site.
Rule (scanner): every statement of the body is considered; a macro-import contributes all its bindings, and is replaced at its own
index by an import of the absolute module name without as-name that carries its location (an import from itself by the dummy at its
location, or is deleted after the scan, last one first); without transformation nothing in the body changes; other statements are
left alone.
"""
from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import any_call_raises, argof, at, call_events, norm_ctor, raises, returns, where_of

P = lambda n: ("param", n)


def other_suffix(k):
    """a test of the end of the filename that does not tell whether it is a Python file"""
    x = argof(k, "suffix", 0)
    return x is not None and x[0] == "const" and x != const(".py")


def levels(f, lv):
    """which of the levels 0..3 the facts of a path admit"""
    import operator
    ops = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}
    out = set()
    for n in range(4):
        ok = True
        for k, v in f.items():
            if k == lv:
                ok &= bool(n) == v
            elif isinstance(k, tuple) and k[0] == "cmp" and k[1] in ops and k[2] == lv and k[3][0] == "const" and isinstance(k[3][2], int):
                ok &= ops[k[1]](n, k[3][2]) == v
            elif isinstance(k, tuple) and k[0] == "cmp" and k[1] in ops and k[3] == lv and k[2][0] == "const" and isinstance(k[2][2], int):
                ok &= ops[k[1]](k[2][2], n) == v
        if ok:
            out.add(n)
    return out


def importish(t, x):
    """the absolute name imported by the term that stands for a module"""
    if is_call(t, "importlib.reload"):
        return importish(argof(t, "module", 0), x)
    if is_call(t, "importlib.import_module"):
        return argof(t, "name", 0)
    if t[0] == "sub" and t[1] == ref("sys.modules"):
        return t[2]
    return None


def binder(c):
    ix = c.ix
    fi = ix.func("mcpyrate.coreutils.get_macros")
    ps = fi.params()
    M, F = P(ps[0]), P("filename")
    NAMES = attr(M, "names")
    SELF = ("cmp", "Eq", attr(M, "module"), const("__self__"))
    bound = 0
    outs = c.paths(fi)
    for o in returns(outs):
        tr, f, w = o.state.trace, o.state.facts, at(c, fi, o)
        v = o.value
        if v[0] not in ("tuple", "list") or len(v[1]) != 2:
            c.unknown("C19:binder:result", w, show(v)[:80])
            continue
        name, d = v[1]
        self_import = f.get(SELF)
        rl = f.get(P("reload"))
        # the name returned
        if is_call(name, "importlib.util.resolve_name"):
            n, p = argof(name, "name", 0), argof(name, "package", 1)
            LV = attr(M, "level")
            okn = contains(n, LV) and contains(n, attr(M, "module"))
            mult = [t for t in subterms(n) if isinstance(t, tuple) and len(t) >= 4 and t[0] == "op" and t[1] == "Mult"]
            dots = [x for t in mult for x in (t[2], t[3]) if x not in (const("."), LV)]
            # a path on which several relative levels get the same prefix loses the difference between them
            flat = not contains(n, LV) and len(levels(f, LV) & {1, 2, 3}) > 1
            c.require("C19:binder:name", False if not contains(n, attr(M, "module")) or flat or okn and any(x[0] == "call" and contains(x, LV) and is_call(x, "builtins.min", "builtins.max", "builtins.bool", "builtins.abs") or x[0] == "op" and contains(x, LV) for x in dots) else
                      True if okn or levels(f, LV) == {0} else None, w, f"the module name is resolved from {show(n)[:80]}")
            isrp = p is not None and is_call(p, "resolve_package")
            pf = argof(p, "filename", 0) if isrp else None
            py = [f[k] for k in f if is_call(k, "endswith") and contains(k, F) and not other_suffix(k)]
            if isrp:
                c.require("C19:binder:package", True if pf == F else False if not contains(pf, F) or any(is_call(t, "os.path.dirname", "os.path.basename") for t in subterms(pf)) else None, w,
                          f"the package is that of {show(pf)[:60]}")
            elif p is None or p == NONE:
                lv = levels(f, attr(M, "level"))
                c.require("C19:binder:package", True if lv == {0} or py and not all(py) else None if not lv & {1, 2, 3} or any(contains(k, F) and not is_call(k, "endswith") for k in f) else False, w,
                          "a relative macro-import in a Python file is resolved without its package")
            else:
                c.require("C19:binder:package", None if p[0] in ("call", "carried") else False, w, f"the package is {show(p)}")
            c.require("C19:binder:self", self_import is not True, w, "an import from the module itself is resolved like any module")
        elif name == P("self_module"):
            c.require("C19:binder:self", self_import is True or (None if self_import is None else False), w, "an import from another module is bound to the module itself")
        else:
            c.require("C19:binder:name", None if name[0] in ("call", "carried") else False, w, f"the absolute module name returned is {show(name)[:80]}")
        # reloading
        reloads = [e for _, e in call_events(tr, "importlib.reload", raising=False)]
        if rl is True and self_import is False:
            mine = [e for e in reloads if importish(e.c, f) == name]
            c.require("C19:binder:reload", True if mine else False if not reloads or all(argof(e.c, "module", 0)[0] in ("ref", "sub") and importish(e.c, f) != name for e in reloads) else None, w, "in reload mode the module is not reloaded")
        if rl is False:
            c.require("C19:binder:reload", not reloads, w, "a module is reloaded though not asked to")
        # bindings
        over = [e.a for e in tr if e.kind == "loop" and contains(e.a, NAMES)]
        for e in tr:
            if e.kind == "loop" and contains(e.a, NAMES):
                full = ("sub", NAMES, ("slice", const(1), NONE, NONE))
                c.require("C19:binder:names", e.a == full or (None if contains(e.a, full) or e.a == NAMES or e.a[0] == "call" else False), where_of(e, w), f"loops over {show(e.a)[:80]}, not over all listed macros")
        pairs = set((k, v) for k, v in d[1]) if d[0] == "dict" and all(len(x) == 2 for x in d[1]) else None
        sets = [e for e in tr if e.kind == "setitem" and (pairs is not None and (e.b, e.c) in pairs or e.a == d)]
        opaque = d[0] not in ("new", "dict") or pairs is None or any(k == "**" or k == ("const", "str", "**") for k, _ in pairs)
        if pairs and not sets:
            opaque = True
        if over and not sets:
            c.require("C19:binder:bound", None if opaque else False, w, "a listed macro is not bound")
        if not over and d[0] in ("new", "dict") and not sets and not opaque and not any(contains(e.a, NAMES) for e in tr if e.kind == "assume"):
            loops = any(e.kind == "loop" for oo in outs for e in oo.state.trace if contains(e.a, NAMES))
            c.require("C19:binder:loop", loops or None, w, "listed names are never looked at")
        for e in sets:
            el = [t for t in subterms((e.b, e.c)) if isinstance(t, tuple) and t and t[0] == "elem" and contains(t, NAMES)]
            if not el:
                c.unknown("C19:binder:bound", where_of(e, w), show(e.b)[:60])
                continue
            el = el[0]
            bound += 1
            asn = f.get(attr(el, "asname"))
            if asn is None:
                isn = f.get(("isnone", attr(el, "asname")))
                asn = None if isn is None else not isn
            key = e.b
            if asn is True:
                c.require("C19:binder:asname", key == attr(el, "asname") or (None if key[0] not in ("attr",) else False), where_of(e, w), f"a macro with an as-name is bound under {show(key)[:60]}")
            elif asn is False:
                c.require("C19:binder:plainname", key == attr(el, "name") or (None if key[0] not in ("attr",) else False), where_of(e, w), f"a macro without as-name is bound under {show(key)[:60]}")
            else:
                c.require("C19:binder:key", None if contains(key, attr(el, "asname")) else False, where_of(e, w), f"the as-name is not considered: bound under {show(key)[:60]}")
            val = e.c
            if is_call(val, "builtins.getattr"):
                mod, an, dflt = argof(val, 0), argof(val, 1), argof(val, 2)
                c.require("C19:binder:attribute", an == attr(el, "name") or (None if an[0] not in ("attr", "const") else False), where_of(e, w), f"bound to the attribute {show(an)[:60]}")
                c.require("C19:binder:default", dflt is None or None, where_of(e, w), "a default")
            elif val[0] == "sub":
                mod = val[1][1] if val[1][0] == "attr" and val[1][2] == "__dict__" else argof(val[1], 0) if is_call(val[1], "builtins.vars") else None
                c.require("C19:binder:attribute", val[2] == attr(el, "name") or None, where_of(e, w), f"bound to {show(val)[:60]}")
            else:
                c.unknown("C19:binder:attribute", where_of(e, w), show(val)[:60])
                continue
            imp = importish(mod, f) if mod is not None else None
            if imp is None:
                c.unknown("C19:binder:module", where_of(e, w), show(mod)[:60] if mod else "")
            else:
                c.require("C19:binder:module", imp == name, where_of(e, w), f"bound to attributes of {show(imp)[:60]} while {show(name)[:60]} is returned")
                if rl is True and self_import is False:
                    c.require("C19:binder:reloaded", is_call(mod, "importlib.reload") or None, where_of(e, w), "bound to the module as it was before reloading")
                cl = [k for k in f if is_call(k, "builtins.callable") and argof(k, 0) == val]
                c.require("C19:binder:callable", all(f[k] for k in cl) if cl else None if any(is_call(x.c, "callable") for x in tr if x.kind == "call") else False, where_of(e, w), "an object that is not callable is bound as a macro")
    c.require("C19:binder:exercised", bound > 0 or None, c.where(fi), "no path binds a macro")
    # errors
    for o in c.paths(fi, may_raise=any_call_raises):
        tr, w = o.state.trace, at(c, fi, o)
        if o.kind == "return":
            for e in tr:
                if e.kind == "callraise" and is_call(e.c, "builtins.getattr", "importlib.import_module", "importlib.reload"):
                    c.require("C19:errors:swallowed", None if any(x.kind == "call" and is_call(x.c, "importlib.import_module", "builtins.getattr") for x in tr[tr.index(e) + 1:]) else False, where_of(e, w), f"a failure of {show(e.c)[:60]} is not reported")
            continue
        exc = o.value
        exc = exc[1] if exc[0] == "exc" else exc
        d = callee(exc[1]) if exc[0] == "call" else None
        if d and d.startswith("builtins.") and d.endswith("Error"):
            msgs = list(subterms(exc))
            package = "while resolving" in show(exc)
            fmt = [t for t in msgs if is_call(t, "mcpyrate.utils.format_location")]
            c.require("C19:errors:location", any(argof(t, "filename", 0) == F and argof(t, "tree", 1) == M for t in fmt) or (None if package or contains(exc, F) or any(t[0] == "call" for _, t in exc[2] if isinstance(t, tuple)) else False), w,
                      f"{d} without the use site")
            look = [e for e in tr if e.kind == "callraise" and is_call(e.c, "builtins.getattr", "importlib.import_module")]
            if look:
                c.require("C19:errors:kind", d in ("builtins.ImportError", "builtins.ModuleNotFoundError") or None, w, d)
        else:
            last = [e for e in tr if e.kind == "callraise"]
            if last and is_call(last[-1].c, "builtins.getattr"):
                # an exception of the kind a missing name raises must have been converted
                caught = [e for e in tr if e.kind == "except"]
                c.require("C19:errors:missing-name", None, w, "")
    # a missing name: the look-up inside a try whose handler takes AttributeError
    import ast
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr" and len(x.args) == 2:
            tries = [t for t in ast.walk(fi.node) if isinstance(t, ast.Try) and any(y is x for b in t.body for y in ast.walk(b))]
            guarded = any(isinstance(t, ast.If) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "hasattr" for y in ast.walk(t.test)) for t in ast.walk(fi.node))
            hs = [h for t in tries for h in t.handlers]
            good = [h for h in hs if h.type is None or any(isinstance(y, ast.Name) and y.id in ("AttributeError", "Exception", "BaseException") for y in ast.walk(h.type))]
            c.require("C19:errors:missing-name", True if good else None if guarded else False, f"{fi.file}:{x.lineno}", "a name that the module does not have is not reported as an import error of the use site")


def scanner(c):
    ix = c.ix
    fi = ix.func("mcpyrate.expander.find_macros")
    T = P(fi.params()[0])
    BODY = attr(T, "body")
    GM, IM = "mcpyrate.coreutils.get_macros", "mcpyrate.coreutils.ismacroimport"
    n = 0
    for o in returns(c.paths(fi)):
        tr, f, w = o.state.trace, o.state.facts, at(c, fi, o)
        loops = [e for e in tr if e.kind == "loop" and contains(e.a, BODY)]
        for e in loops:
            it = e.a
            okit = it == BODY or it[0] == "enumerate" and it[1] == BODY or is_call(it, "builtins.enumerate", "builtins.list", "builtins.tuple", "builtins.range") or it[0] in ("list", "tuple")
            cut = any(isinstance(t, tuple) and len(t) == 4 and t[0] == "slice" and t[1:] != (NONE, NONE, NONE) for t in subterms(it))
            c.require("C19:scan:all", False if cut else True if okit else None, where_of(e, w), f"only {show(it)[:60]} is scanned")
        gm = [e for _, e in call_events(tr, GM, raising=False)]
        tested = {k: f[k] for k in f if is_call(k, IM)}
        ends = [i for i, e in enumerate(tr) if e.kind == "endloop" and loops and e.a == loops[0].a]
        scan, post = (tr[:ends[-1]], tr[ends[-1] + 1:]) if ends else (tr, [])
        rebuilt = any(e.kind in ("setattr", "setitem") and contains((e.a, e.b), BODY) or e.kind == "setattr" and e.a == T for e in post) or any(
            e.kind == "call" and e.a[0] == "attr" and e.a[1] == BODY and e.a[2] in ("clear", "extend") for e in post)
        if loops and not tested:
            EL = [t for e in tr if e.kind == "assume" for t in subterms(e.a) if isinstance(t, tuple) and t and t[0] == "elem" and t[1] == BODY]
            for e in tr:
                if e.kind == "assume" and EL and e.a in (attr(EL[0], "lineno"), attr(EL[0], "level"), attr(EL[0], "col_offset"), attr(EL[0], "module")):
                    c.require("C19:scan:skipped", False, where_of(e, w), f"a statement is passed over because of {show(e.a)}")
        for e in tr:
            if e.kind == "call" and e.a == attr(BODY, "pop") and e.b and e.b[0][1][0] == "sub" and e.b[0][1][1][0] in ("new", "list"):
                c.require("C19:scan:all-deleted", None if any(x.kind == "loop" and x.a[0] != "enumerate" for x in tr) else False, where_of(e, w), "only one of the imports from the module itself is deleted")
        for k, v in tested.items():
            st = argof(k, "statement", 0)
            mine = [e for e in gm if argof(e, "macroimport", 0) == st]
            n += 1
            sets = [e for e in scan if e.kind in ("setitem", "delitem") and contains(e.a, BODY)]
            pops = [e for e in scan if e.kind == "call" and e.a[0] == "attr" and e.a[1] == BODY and e.a[2] in ("pop", "remove", "insert", "append", "clear")]
            if not v:
                c.require("C19:scan:others", not mine and not sets and not pops, w, "a statement that is no macro-import is changed")
                continue
            c.require("C19:scan:looked-up", bool(mine), w, "the macros of a macro-import are not looked up")
            for e in mine:
                for p in ("filename", "reload", "self_module"):
                    a = argof(e, p)
                    c.require(f"C19:scan:{p}", True if a == P(p) else False if a is None or a[0] in ("const", "param") else None, where_of(e, w), f"the look-up gets {p}={show(a) if a else None}")
                bs = ("sub", e.c, const(1))
                got = False
                for x in tr:
                    if x.kind == "call" and x.a[0] in ("attr", "bound") and contains(x.b, bs):
                        got = True
                    if x.kind in ("setitem", "augassign") and (contains(x.b, e.c) or contains(x.c, e.c)) and not contains(x.a, BODY):
                        got = True
                d = o.value
                items = o.state.heap.get((d, "#"))
                if items is not None and contains(tuple(items) if isinstance(items, (list, tuple)) else items, e.c) or contains(d, e.c):
                    got = True
                c.require("C19:scan:bindings", got or (None if d[0] not in ("new", "dict", "carried") else False), w, "the bindings of a macro-import are lost")
                if d == bs:
                    c.require("C19:scan:earlier", None if any(isinstance(t, tuple) and t and t[0] == "carried" for k in f for t in subterms(k)) else False, w, "the bindings of earlier macro-imports are lost")
                if d[0] == "dict" and (None, bs) in d[1]:
                    after = [v for k, v in d[1]][[v for k, v in d[1]].index(bs) + 1:]
                    c.require("C19:scan:later-wins", False if any(v[0] == "carried" for v in after) else True, w, "the bindings of an earlier macro-import override those of a later one")
                absname = ("sub", e.c, const(0))
                tf = f.get(P("transform"))
                if tf is False:
                    c.require("C19:scan:declined", not sets and not pops, w, "a macro-import is transformed though that was declined")
                    continue
                isself = f.get(("cmp", "Eq", attr(st, "module"), const("__self__")))
                if f.get(P("self_module")) is False or f.get(("isnone", P("self_module"))) is True:
                    isself = False
                if tf is None:
                    c.unknown("C19:scan:transform", w, "transformation not decided on this path")
                    continue
                if not sets and not pops:
                    rec = any(x.kind == "call" and x.a[0] in ("attr", "bound") and x.a[-1] in ("append", "add", "insert") for x in tr) or any(
                        v and any(isinstance(t, tuple) and t and t[0] == "index" for t in subterms(tuple(v) if isinstance(v, list) else v)) for (ob, nm), v in o.state.heap.items() if nm == "#")
                    c.require("C19:scan:transformed", None if rebuilt else True if rec and isself else None if isself or rec else False, w, "a macro-import is left in place")
                for x in sets:
                    if x.kind == "delitem":
                        c.require("C19:scan:self-only", isself is not False, where_of(x, w), "a macro-import of another module is deleted")
                        continue
                    idx = x.b
                    c.require("C19:scan:position", True if idx[0] == "index" else None if idx[0] not in ("const", "op") else False, where_of(x, w), f"the replacement is put at index {show(idx)[:40]}")
                    val = x.c
                    while is_call(val, "ast.fix_missing_locations"):
                        val = argof(val, 0, "node")
                    located = is_call(val, "ast.copy_location") and argof(val, "old_node", 1) == st
                    core = argof(val, "new_node", 0) if is_call(val, "ast.copy_location") else val
                    k2 = norm_ctor(core)
                    if isself is False:
                        if k2 is None:
                            c.require("C19:scan:import", False if any(is_call(t, "mcpyrate.expander._insert_coverage_dummy_stmt") for t in subterms(val)) else None, where_of(x, w), f"replaced by {show(val)[:80]}")
                            continue
                        c.require("C19:scan:import", k2[0] == "Import", where_of(x, w), f"replaced by {k2[0]}")
                        c.require("C19:scan:location", located or (None if "lineno" in str(core) else False), where_of(x, w), "the plain import does not carry the location of the macro-import")
                        al = k2[1].get("names", NONE)
                        al = al[1][0] if al[0] in ("list", "tuple") and len(al[1]) == 1 else None
                        if al is None:
                            c.require("C19:scan:single", None if k2[1].get("names", NONE)[0] not in ("list", "tuple") else False, where_of(x, w), f"imports {show(k2[1].get('names', NONE))[:60]}")
                            continue
                        if is_call(al, "ast.copy_location"):
                            al = argof(al, "new_node", 0)
                        k3 = norm_ctor(al)
                        if k3 is None:
                            c.unknown("C19:scan:alias", where_of(x, w), show(al)[:60])
                            continue
                        c.require("C19:scan:absolute", k3[1].get("name") == absname or (None if k3[1].get("name", NONE)[0] == "call" else False), where_of(x, w), f"the plain import names {show(k3[1].get('name', NONE))[:60]}")
                        c.require("C19:scan:no-asname", k3[1].get("asname", NONE) == NONE, where_of(x, w), "the plain import has an as-name")
                    elif isself is None and any(isinstance(k, tuple) and k[0] == "cmp" and k[1] == "In" and k[2] == attr(st, "module") and v2 and k[3][0] in ("tuple", "list", "set") and any(x != const("__self__") for x in k[3][1]) for k, v2 in f.items()):
                        c.require("C19:scan:self", False if k2 is None and any(is_call(t, "mcpyrate.expander._insert_coverage_dummy_stmt") for t in subterms(val)) else None, where_of(x, w), "an import by name is treated as an import from the module itself")
                    elif isself:
                        c.require("C19:scan:dummy", False if k2 and k2[0] in ("Import", "ImportFrom") else True if any(is_call(t, "_insert_coverage_dummy_stmt") for t in subterms(val)) else None, where_of(x, w),
                                  f"an import from the module itself becomes {show(val)[:60]}")
        # deletions happen from the end
        for i, x in enumerate(tr):
            if x.kind == "loop" and any(y.kind == "delitem" and y.a == BODY or y.kind == "call" and y.a[0] == "attr" and y.a[2] == "pop" and y.a[1] == BODY for y in tr[i:]) and x.a != BODY and not (x.a[0] == "enumerate" or is_call(x.a, "builtins.enumerate")):
                back = x.a[0] == "reversed" or is_call(x.a, "builtins.reversed") or is_call(x.a, "builtins.sorted") and any(k == "reverse" for k, _ in x.a[2])
                c.require("C19:scan:deletion-order", True if back else False if x.a[0] in ("new", "enumerate", "list", "carried") else None, where_of(x, w), "statements are deleted first to last by the indices they had before")
    c.require("C19:scan:exercised", n > 0 or None, c.where(fi), "no statement is tested")


def check(c):
    with c.section("C19:binder"):
        binder(c)
    with c.section("C19:scanner"):
        scanner(c)
    with c.section("C19:recogniser"):
        fi = c.ix.func("mcpyrate.coreutils.ismacroimport")
        S, MG = P(fi.params()[0]), P("magicname")
        first = ("sub", attr(S, "names"), const(0))
        for o in c.paths(fi):
            if o.kind != "return":
                continue
            f, w = o.state.facts, at(c, fi, o)
            isimp = [v for k, v in f.items() if isinstance(k, tuple) and k[0] in ("isinst", "typeis") and k[1] == S]
            eq = [v for k, v in f.items() if isinstance(k, tuple) and k[0] == "cmp" and contains(k, MG)]
            asn = [v for k, v in f.items() if k == ("isnone", attr(first, "asname"))] + [not v for k, v in f.items() if k == attr(first, "asname")]
            named = [k for k in f if isinstance(k, tuple) and k[0] == "cmp" and contains(k, MG)]
            for k in named:
                other = k[2] if k[3] == MG else k[3]
                c.require("C19:recogniser:first", other == attr(first, "name") or (None if not contains(other, attr(S, "names")) else False), w, f"compares {show(other)[:60]} with the marker")
            if o.value == TRUE:
                c.require("C19:recogniser:true", all(isimp) and bool(isimp) and bool(eq) and all(eq) and (all(asn) if asn else (None if any(contains(k, "asname") for k in f) else False)), w, "a statement that is no macro-import is taken for one")
            elif o.value == FALSE:
                c.require("C19:recogniser:false", not (isimp and all(isimp) and eq and all(eq) and asn and all(asn)), w, "a macro-import is not recognised")
            else:
                c.unknown("C19:recogniser", w, show(o.value)[:60])
    c.floor(20)
