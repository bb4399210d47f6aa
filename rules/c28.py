"""Run-time modules behave like imported modules.

Rule: all paths of module creation, of running code, of the docstring reader and of the source test are enumerated. A path that creates a
module must have tested the name it was given (a string made of identifiers), registers exactly the module that it gives back, under its
name, with name and file set; if the name is dotted the path has found the parent in the module table, sets the package to it, and attaches
the module to it exactly if that was not declined; a path that fails has registered and attached nothing. A run executes once, in the
namespace of the module it gives back: the one given, the one registered under the given name, or a new one; before that it sets
the docstring, read from the code that is executed.
"""
from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, call_events, norm_ctor, partial, returns, truth, where_of
from lib.shape import P

C = "mcpyrate.compiler."
SM = ref("sys.modules")


def check(c):
    ix = c.ix
    with c.section("C28:create"):
        creation(c, ix.func(C + "create_module"))
    with c.section("C28:run"):
        running(c, ix.func(C + "run"))
    with c.section("C28:docstring"):
        docstring(c, ix.func("mcpyrate.utils.getdocstring"))
    with c.section("C28:source"):
        sources(c, ix.func(C + "expand"))
    c.floor(25)


def lookups_raise(t, interp=None, state=None):
    return t[0] == "getitem" and t[1] == SM


def allowed(f, x, ok):
    """the types accepted for a value are among these"""
    pos = [set(k[2]) for k, b in f.items() if isinstance(k, tuple) and len(k) == 3 and k[0] in ("isinst", "typeis") and k[1] == x and b]
    neg = set().union(*[set(k[2]) for k, b in f.items() if isinstance(k, tuple) and len(k) == 3 and k[0] in ("isinst", "typeis") and k[1] == x and not b] or [()])
    if not pos:
        return None if any(isinstance(k, tuple) and k[0] == "call" and contains(k, x) for k in f) else False
    rest = set.intersection(*pos) - neg
    if rest <= ok:
        return True
    return False if all(t.startswith(("builtins.", "ast.", "types.")) for t in rest) else None


def meth(t, *names):
    """(receiver, args) of a call of a method with one of these names"""
    if t is not None and t[0] == "call" and t[1][0] in ("attr",) and t[1][2] in names:
        return t[1][1], t[2]
    return None


def part(v, name):
    """which part of a dotted name: "parent", "last", "top", "whole" or None"""
    if v == name:
        return "whole"
    if v is not None and v[0] == "sub" and v[2][0] == "const":
        i = v[2][2]
        m = meth(v[1], "rsplit")
        if m and m[0] == name:
            one = any(x == const(1) for _, x in m[1])
            return {0: "parent" if one else "top", 1: "last" if one else None, -1: "last"}.get(i)
        m = meth(v[1], "rpartition")
        if m and m[0] == name:
            return {0: "parent", 2: "last", -1: "last"}.get(i)
        m = meth(v[1], "split", "partition")
        if m and m[0] == name:
            return {0: "top", -1: "last" if v[1][1][2] == "split" and not any(x == const(1) for _, x in m[1]) else None}.get(i)
    return None


def dotted(f, name):
    for k, b in f.items():
        if not isinstance(k, tuple) or not contains(k, name):
            continue
        if k[0] == "cmp":
            for x, y in ((k[2], k[3]), (k[3], k[2])):
                m = meth(x, "find", "rfind")
                if m and m[0] == name and m[1][0][1] == const("."):
                    if k[1] == "Eq" and y == const(-1):
                        return not b
                    if k[1] in ("GtE", "Lt") and x == k[2] and y == const(0):
                        return b if k[1] == "GtE" else not b
                    if k[1] in ("Gt", "LtE") and x == k[2] and y == const(-1):
                        return b if k[1] == "Gt" else not b
            if k[1] == "In" and k[2] == const(".") and k[3] == name:
                return b
        if part(k, name) == "parent" and meth(k[1], "rpartition"):
            return b
        m = meth(k, "count")
        if m and m[0] == name:
            return b
    return None


def name_tested(f, tr, D):
    """the name was found to consist of identifiers"""
    hint = False
    for k, b in f.items():
        if not isinstance(k, tuple):
            continue
        if k[0] == "call" and k[1] == ref("builtins.all") and contains(k, D) and any(meth(x, "isidentifier") for x in subterms(k) if isinstance(x, tuple) and x and x[0] == "call"):
            if not b:
                return False
            x = next(meth(x, "isidentifier")[0] for x in subterms(k) if isinstance(x, tuple) and x and x[0] == "call" and meth(x, "isidentifier"))
            if x[0] == "elem" and x[1][0] == "sub" and x[1][2][0] == "slice" and partial(x[1], x[1][1]) and meth(x[1][1], "split", "rsplit"):
                return False
            part_ = x[0] == "elem" and meth(x[1], "split", "rsplit") and meth(x[1], "split", "rsplit")[0] == D and [a for _, a in x[1][2]] == [const(".")]
            return True if part_ else None
        if k[0] == "call" and k[1] == ref("builtins.any") and any(meth(x, "isidentifier") for x in subterms(k) if isinstance(x, tuple) and x and x[0] == "call"):
            inner = any(x[0] == "not" for x in subterms(k) if isinstance(x, tuple) and x)
            return (not b) if inner else False
        m = meth(k, "isidentifier")
        if m and part(m[0], D) in ("last", "top", "parent") and not any(e.kind == "loop" and contains(e.a, D) for e in tr):
            return False
        if contains(k, D) and any(isinstance(x, tuple) and x and x[0] == "call" and x[1][0] in ("attr", "ref") for x in subterms(k)) and dotted({k: b}, D) is None and part(k, D) is None:
            hint = True
    if any(e.kind == "loop" and contains(e.a, D) for e in tr):
        hint = True
    return None if hint else "none"


def creation(c, fi):
    D, F, U = P("dotted_name"), P("filename"), P("update_parent")
    n = 0
    for o in c.paths(fi, max_paths=20000, reads=True, may_raise=lookups_raise):
        tr, f, w = o.state.trace, o.state.facts, at(c, fi, o)
        reg = [e for e in tr if e.kind == "setitem" and e.a == SM or e.kind == "call" and callee(e.a) in ("sys.modules.setdefault", "sys.modules.update", "sys.modules.__setitem__")]
        att = [e for e in tr if e.kind == "setattr" and contains(e.a, SM) or e.kind == "setattr" and any(is_call(x, "sys.modules.get") for x in subterms(e.a))]
        if o.kind != "return":
            for e in reg + att:
                c.bad("C28:create:atomic", where_of(e, w), f"the module is registered although creation fails: {show(o.value)[:60]}")
            if not reg + att:
                c.ok("C28:create:atomic", w)
            continue
        M = o.value
        if is_call(M, "sys.modules.setdefault"):
            c.bad("C28:create:registered", w, "a module that is there already stays in the module table")
            continue
        if not is_call(M, "types.ModuleType", "importlib.util.module_from_spec"):
            c.unknown("C28:create:result", w, f"gives {show(M)[:60]}")
            continue
        n += 1
        given = truth(D, f)
        if given is None and f.get(("isnone", D)) is not None:
            given = not f[("isnone", D)]
        sets = {}
        for e in tr:
            if e.kind == "setattr" and e.a == M:
                sets[e.b] = e.c
        name = sets.get("__name__") or argof(M, 0, "name")
        if given:
            c.require("C28:create:name", True if name == D else False if name is not None and (name[0] in ("const", "param", "sub", "fstr") or contains(name, D)) else None, w, f"the module is named {show(name)[:60]}")
            if not f.get(("isinst", D, frozenset(["builtins.str"]))):
                c.require("C28:create:name-type", None if any(isinstance(k, tuple) and k[0] in ("isinst", "typeis") and k[1] == D for k in f) else False, w, "names that are no strings are accepted")
            t = name_tested(f, tr, D)
            c.require("C28:create:name-valid", False if t == "none" else t, w, "names that are not made of identifiers are accepted")
        elif given is False:
            c.require("C28:create:unique", True if any(is_call(x, "mcpyrate.utils.gensym", "uuid.uuid4", "uuid.uuid1") for x in subterms(name)) else False if name[0] in ("const",) else None, w, f"a module without a name is called {show(name)[:60]}")
        else:
            c.unknown("C28:create:name", w, "no test whether there is a name")
            continue
        c.require("C28:create:name", argof(M, 0, "name") == name or "__name__" in sets or None, w, "")
        # registered
        if not reg:
            c.bad("C28:create:registered", w, "the module is not registered")
        for e in reg:
            if e.kind == "setitem":
                c.require("C28:create:registered", e.b == name and e.c == M, where_of(e, w), f"{show(e.c)[:40]} is registered as {show(e.b)[:60]}")
            elif callee(e.a) == "sys.modules.setdefault":
                c.bad("C28:create:registered", where_of(e, w), "a module that is there already stays in the module table")
            else:
                c.unknown("C28:create:registered", where_of(e, w), "")
        # file
        fn = sets.get("__file__")
        has = truth(F, f)
        if has is None and f.get(("isnone", F)) is not None:
            has = not f[("isnone", F)]
        if fn is None or fn == NONE:
            c.bad("C28:create:file", w, "the module has no file name")
        elif has:
            c.require("C28:create:file", True if fn == F else None if contains(fn, F) and fn[0] == "call" else False, w, f"the file of the module is {show(fn)[:60]}")
        else:
            c.require("C28:create:file", True if fn != F else False if has is False else None, w, "the module has no file name")
        # parent
        d = dotted(f, name)
        if d is False:
            for e in att:
                c.bad("C28:create:attach", where_of(e, w), "a module without a parent is attached to something")
            p = sets.get("__package__")
            c.require("C28:create:package", True if p is None or p == NONE or p == const("") else None, w, "")
        elif d is None:
            anyp = any(isinstance(k, tuple) and contains(k, name) and (contains(k, SM) or any(is_call(x, "sys.modules.get") for x in subterms(k))) for k in f)
            if anyp or att or "__package__" in sets or given is not True:
                c.unknown("C28:create:package", w, "no test whether the name is dotted")
            else:
                other = any(isinstance(k, tuple) and contains(k, D) and k != D and k[0] in ("cmp", "call") and not any(meth(x, "isidentifier") for x in subterms(k) if isinstance(x, tuple) and x and x[0] == "call") for k in f)
                c.require("C28:create:package", None if other else False, w, "a dotted name gives no package")
        elif given:
            p = sets.get("__package__")
            pp = part(p, name) if p is not None else None
            c.require("C28:create:package", True if pp == "parent" else False if p is None or pp or p[0] == "const" or p[0] == "attr" and p[2] == "__package__" else None, w, f"the package of a dotted module is {show(p)[:60] if p else 'not set'}")
            # parent found
            look = []
            for k, b in f.items():
                if not isinstance(k, tuple):
                    continue
                for x in subterms(k):
                    if is_call(x, "sys.modules.get"):
                        look.append((x, b if k == x else (not b) if k == ("isnone", x) else None, argof(x, 0)))
                if k[0] == "cmp" and k[1] == "In" and k[3] == SM:
                    look.append((k, b, k[2]))
            look += [(("sub", SM, e.b), True, e.b) for e in tr if e.kind == "getitem" and e.a == SM]
            look += [(x, True, x[2]) for e in tr if e.kind == "setattr" for x in subterms(e.a) if isinstance(x, tuple) and x and x[0] == "sub" and x[1] == SM]
            look += [(x, True, None) for e in tr if e.kind == "call" for x in [e.c] if is_call(x, "importlib.import_module")]
            found = [x for x in look if x[1] is True]
            useless = look and not found and all(isinstance(x[0], tuple) and is_call(x[0], "sys.modules.get") and x[1] is None for x in look) and \
                all(k[0] == "cmp" and k[1] in ("Is", "Eq") and any(y[0] == "const" for y in k[2:4]) for k in f if isinstance(k, tuple) and any(is_call(y, "sys.modules.get") for y in subterms(k)))
            if useless:
                c.bad("C28:create:parent", w, "a dotted module is created without its parent")
            c.require("C28:create:parent", True if found and all(x[2] is None or part(x[2], name) == "parent" for x in found) else False if not look or any(part(x[2], name) in ("top", "last", "whole") for x in found if x[2]) or all(x[1] is False for x in look) else None, w, "a dotted module is created without its parent")
            up = truth(U, f)
            if up is None:
                c.require("C28:create:attach", False if not any(isinstance(k, tuple) and contains(k, U) for k in f) else None, w, "the choice whether to attach the module is ignored")
            elif up:
                ok = [e for e in att if part(("sub", e.a, const(0)), name) or True]
                good = [e for e in att if e.c == M and any(x[0] == e.a or x[2] is not None and contains(e.a, x[2]) for x in found) and (isinstance(e.b, tuple) and part(e.b, name) == "last")]
                c.require("C28:create:attach", True if good and len(att) == 1 else False if not att or any(e.c != M or isinstance(e.b, tuple) and part(e.b, name) in ("whole", "parent", "top") for e in att) else None, w, "the module is not attached to its parent")
            else:
                c.require("C28:create:attach", not att, w, "the module is attached to its parent though that was declined")
    c.require("C28:create:exercised", n > 0 or None, c.where(fi), "")


def running(c, fi):
    S, M0 = P("source"), P("module")
    CT = frozenset(["types.CodeType"])
    n = 0
    for o in c.paths(fi, inline=["_compile"], max_paths=20000, reads=True, may_raise=lookups_raise):
        tr, f, w = o.state.trace, o.state.facts, at(c, fi, o)
        ex = [(i, e) for i, e in enumerate(tr) if e.kind in ("call", "callraise") and callee(e.a) == "builtins.exec"]
        made = [e for e in tr if e.kind == "call" and is_call(e.c, "create_module")]
        none = f.get(("isnone", M0))
        isstr = f.get(("isinst", M0, frozenset(["builtins.str"])))
        if o.kind != "return":
            continue
        # what is accepted as a module
        if none is None and truth(M0, f) is None:
            c.unknown("C28:run:module", w, "no test whether a module is given")
        elif none is False or truth(M0, f) is True:
            c.require("C28:run:module-type", allowed(f, M0, {"types.ModuleType", "builtins.str"}), w, "anything is accepted as a module")
        M = o.value
        n += 1
        if none:
            ok = is_call(M, "create_module") and len(made) == 1
            c.require("C28:run:new", True if ok and not M[2] else False if ok and any(v[0] == "const" and v != NONE for _, v in M[2]) or not made and (M == M0 or M == NONE) else None, w, f"without a module the code runs in {show(M)[:60]}")
        elif isstr:
            look = M[0] == "sub" and M[1] == SM and M[2] == M0 or is_call(M, "sys.modules.get") and argof(M, 0) == M0
            c.require("C28:run:named", True if look else False if made or M == M0 else None, w, f"a module name makes the code run in {show(M)[:60]}")
            if is_call(M, "sys.modules.get"):
                t = truth(M, f)
                c.require("C28:run:named", True if t or f.get(("isnone", M)) is False else None, w, "")
        elif none is False:
            c.require("C28:run:given", True if M == M0 else False if made else None, w, f"given a module the code runs in {show(M)[:60]}")
        # execution
        if len(ex) != 1:
            c.require("C28:run:once", False, w, f"the code is executed {len(ex)} times")
            continue
        i, e = ex[0]
        ns, loc, code = argof(e, 1, "globals"), argof(e, 2, "locals"), argof(e, 0)
        c.require("C28:run:namespace", True if (ns == attr(M, "__dict__") or is_call(ns, "builtins.vars") and argof(ns, 0) == M) and loc is None else False if ns is None or ns[0] in ("attr", "dict", "new", "const") or is_call(ns, "builtins.dict", "builtins.globals", ".copy", "copy.copy") or loc is not None and loc[0] in ("dict", "new") else None, where_of(e, w), f"the code runs in {show(ns)[:60] if ns else 'the namespace of the compiler'}")
        iscode = next((b for k, b in f.items() if isinstance(k, tuple) and len(k) == 3 and k[0] in ("isinst", "typeis") and k[1] == S and "types.CodeType" in k[2]), None)
        doc = [(j, x) for j, x in enumerate(tr) if x.kind == "setattr" and x.a == M and x.b == "__doc__"]
        late = [x for j, x in doc if j > i]
        for x in late:
            c.bad("C28:run:docstring-first", where_of(x, w), "the docstring is set after the code has run")
        if iscode:
            c.require("C28:run:code", True if code == S else None, where_of(e, w), "")
            for j, x in doc:
                c.require("C28:run:docstring", True if x.c == NONE else False if x.c[0] == "const" or x.c == attr(M, "__doc__") else None, where_of(x, w), f"compiled code leaves the docstring {show(x.c)[:60]}")
            if not doc and not is_call(M, "create_module"):
                c.bad("C28:run:docstring", w, "compiled code leaves the docstring that the module had before")
        elif iscode is False:
            c.require("C28:run:code", False if code == S else True if is_call(code, "builtins.compile", "mcpyrate.compiler.compile") else None, where_of(e, w), "source is not compiled by the macro compiler")
            if is_call(code, "builtins.compile"):
                E = argof(code, 0, "source")
                c.require("C28:run:code", True if is_call(E, C + "expand") else False if E == S else None, where_of(e, w), "source is compiled without expanding it")
            if not doc:
                c.bad("C28:run:docstring", w, "the docstring is not set")
            else:
                v = doc[-1][1].c
                if is_call(v, "getdocstring"):
                    E = argof(v, "body", 0)
                    src = argof(code, 0, "source") if is_call(code, "builtins.compile") else None
                    c.require("C28:run:docstring", True if src is not None and E == attr(src, "body") else False if E == attr(S, "body") or E == S else None, w, f"the docstring is read from {show(E)[:60]}")
                else:
                    c.require("C28:run:docstring", False if v == NONE or v[0] == "const" or v == attr(M, "__doc__") else None, w, f"the docstring is {show(v)[:60]}")
        else:
            c.unknown("C28:run:code", w, "no test for compiled code")
    # what fails runs nothing; an unknown name makes no module
    for o in c.paths(fi, inline=["_compile"], max_paths=20000):
        if o.kind != "return":
            f, w = o.state.facts, at(c, fi, o)
            if f.get(("isnone", M0)) is False:
                made = [e for e in o.state.trace if e.kind == "call" and is_call(e.c, "create_module")]
                c.require("C28:run:refused", not made, w, "a new module is made for a refused one")
    c.require("C28:run:exercised", n > 0 or None, c.where(fi), "")


def tested(f, x):
    return any(isinstance(k, tuple) and (k[0] in ("isinst", "typeis") and k[1] == x or contains(k, attr(x, "__class__")) or k[0] == "call" and contains(k, x)) for k in f)


def docstring(c, fi):
    B = P(fi.params()[0])
    first = ("sub", B, const(0))
    node = attr(first, "value")
    n = 0

    def fact(f, t, names):
        r = None
        for k, b in f.items():
            if isinstance(k, tuple) and len(k) == 3 and k[0] in ("isinst", "typeis") and k[1] == t:
                s = set(k[2])
                if b and s <= names:
                    return True
                if not b and s >= names:
                    r = False
        return r
    for o in returns(c.paths(fi)):
        f, v, w = o.state.facts, o.value, at(c, fi, o)
        expr = fact(f, first, {"ast.Expr"})
        cons = fact(f, node, {"ast.Constant", "ast.Str"})
        strc = any(b and isinstance(k, tuple) and len(k) == 3 and k[0] in ("isinst", "typeis") and k[1] == attr(node, "value") and set(k[2]) == {"builtins.str"} for k, b in f.items())
        if v in (attr(node, "value"), attr(node, "s")):
            n += 1
            olds = any(b and isinstance(k, tuple) and len(k) == 3 and k[0] in ("isinst", "typeis") and k[1] == node and set(k[2]) == {"ast.Str"} for k, b in f.items())
            if v == attr(node, "s") and not olds:
                # the old string node: what is left of (Constant, Str) when it is no Constant
                olds = any(b is False and isinstance(k, tuple) and len(k) == 3 and k[0] in ("isinst", "typeis") and k[1] == node and set(k[2]) == {"ast.Constant"} for k, b in f.items())
            seen = lambda t: any(isinstance(k, tuple) and contains(k, t) for k in f)
            c.require("C28:docstring:expression", True if expr else None if tested(f, first) else False, w, "a statement that is no expression gives a docstring")
            c.require("C28:docstring:constant", True if cons else None if tested(f, node) else False, w, "an expression that is no constant gives a docstring")
            c.require("C28:docstring:string", True if strc or olds else None if any(isinstance(k, tuple) and contains(k, attr(node, "value")) and k not in (attr(node, "value"), ("isnone", attr(node, "value"))) for k in f) else False, w, "a constant that is no string gives a docstring")
        elif v == NONE:
            # a body that is long enough to have a first statement is judged by that statement alone
            short = expr and cons and not tested(f, attr(node, "value")) and any(_atmost(k, b, B) for k, b in f.items())
            c.require("C28:docstring:found", False if expr and cons and strc or short else True, w, "a docstring is not found" if not short else "a docstring with nothing after it is not found")
        else:
            c.require("C28:docstring:value", False if contains(v, ("sub", B, const(-1))) or v[0] == "const" or v[0] == "call" and contains(v, node) else None, w, f"gives {show(v)[:60]}")
    c.require("C28:docstring:exercised", True if n else False if all(o.value == NONE for o in returns(c.paths(fi))) else None, c.where(fi), "no docstring is ever found")


def _atmost(k, b, B):
    """Whether the fact says that B has at most some number (> 0) of items."""
    if not (isinstance(k, tuple) and k and k[0] == "cmp"):
        return False
    l, r = k[2], k[3]
    isn = lambda x: is_call(x, "len") and argof(x, "obj", 0) == B
    big = lambda x: x[0] == "const" and x[1] == "int" and x[2] > 0
    if isn(l) and big(r):
        return (k[1] in ("LtE", "Eq") and b) or (k[1] == "Lt" and b and r[2] > 1) or (k[1] in ("Gt", "NotEq") and not b) or (k[1] == "GtE" and not b and r[2] > 1)
    if isn(r) and big(l):
        return (k[1] in ("GtE", "Eq") and b) or (k[1] == "Gt" and b and l[2] > 1) or (k[1] in ("Lt", "NotEq") and not b) or (k[1] == "LtE" and not b and l[2] > 1)
    return False


def sources(c, fi):
    S = P("source")
    OK = {"builtins.str", "builtins.bytes", "ast.Module", "builtins.list"}
    n = 0
    for o in c.paths(fi, max_paths=20000):
        f, w = o.state.facts, at(c, fi, o)
        if o.kind != "return":
            continue
        n += 1
        c.require("C28:source:type", allowed(f, S, OK), w, "source of any type is accepted")
        text = next((b for k, b in f.items() if isinstance(k, tuple) and len(k) == 3 and k[0] in ("isinst", "typeis") and k[1] == S and set(k[2]) == {"builtins.str", "builtins.bytes"}), None)
        if text is False:
            al = [b for k, b in f.items() if isinstance(k, tuple) and k[0] == "call" and k[1] == ref("builtins.all") and "ast.stmt" in str(k)]
            # any() settles it only in the form "no element is something else"
            for k, b in f.items():
                if isinstance(k, tuple) and k[0] == "call" and k[1] == ref("builtins.any") and len(k[2]) == 1 and "ast.stmt" in str(k):
                    g = k[2][0][1]
                    elems = [x[2] for x in subterms(g) if isinstance(x, tuple) and x and x[0] == "rep" and len(x) > 3 and not x[3]]
                    if elems and all(x[0] == "isinst" for x in elems):
                        al.append(None if not b else False)
                    elif elems and all(x[0] == "not" for x in elems):
                        al.append(not b)
            if False in al:
                c.bad("C28:source:statements", w, "module bodies with anything in them are accepted")
                continue
            other = any(isinstance(k, tuple) and k[0] == "call" and k[1] == ref("builtins.any") for k in f) or any(e.kind == "loop" for e in o.state.trace) or any("stmt" in str(k) for k in f)
            c.require("C28:source:statements", True if al == [True] else None if al or other else False, w, "module bodies with anything in them are accepted")
    c.require("C28:source:exercised", n > 0 or None, c.where(fi), "")
