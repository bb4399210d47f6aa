"""Generated names are unique.

Rule: on every path of the generator the name returned consists of the base name (or the fixed default) and the full text of a
fresh random 128-bit identifier with the characters that cannot occur in an identifier removed; it has been tested not to be in
the register of names given out before and has been entered in it, and the register never loses an entry. Every place of the
package that makes up the name of a module or a binding (a new module without a name, a captured macro, a name node or
definition it constructs) uses a generated name, a name it was given, or a name of the language or of this package.
"""
import ast
import builtins

from lib.interp import NONE, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import argof, at, call_events, norm_ctor, raises, returns, where_of

from .c17 import no_removal, table_kind

P = lambda n: ("param", n)
GEN = "mcpyrate.utils.gensym"
POOR = tuple("random." + x for x in ("random", "randint", "getrandbits", "randrange", "choice")) + ("time.time", "time.time_ns", "time.monotonic") + tuple(
    "builtins." + x for x in ("id", "next", "len", "str", "hex", "int", "repr", "hash", "abs"))
RANDOM = ("uuid.uuid4", "secrets.token_hex", "secrets.token_urlsafe", "os.urandom", "uuid.uuid1")


def random_part(t):
    """(True, "") if the term is a full-length random identifier text; (False, why); (None, why)"""
    if is_call(t, "replace"):
        args = [v for _, v in t[2]]
        if len(args) == 2 and args == [const("-"), const("")] and t[1][0] in ("attr", "bound"):
            inner = t[1][1]
            if is_call(inner, "builtins.str") and is_call(inner[2][0][1], "uuid.uuid4"):
                return True, ""
            return None, show(inner)[:60]
        if len(args) == 2 and args[0] == const("-") and args[1] == const("_"):
            return True, ""
        return None, show(t)[:60]
    if t[0] == "attr" and t[2] == "hex" and is_call(t[1], "uuid.uuid4"):
        return True, ""
    if is_call(t, "builtins.str") and is_call(t[2][0][1], *RANDOM):
        return False, "it contains characters that no identifier can have"
    if t[0] == "sub" and t[2][0] == "slice":
        ok, _ = random_part(t[1])
        if ok:
            return False, "the random part is cut short"
        return None, show(t)[:60]
    if t[0] == "sub" and t[2][:2] == ("const", "int") and is_call(t[1], "split", "rsplit", "partition", "rpartition") and any(is_call(x, *RANDOM) for x in subterms(t)):
        return False, "the random part is cut short"
    if is_call(t, "secrets.token_hex"):
        n = argof(t, "nbytes", 0)
        return (True, "") if n is None or n[0] == "const" and (n[2] is None or n[2] >= 12) else (False, "the random part is short")
    if not any(is_call(x, *RANDOM) for x in subterms(t)):
        if any(is_call(x, "uuid.uuid3", "uuid.uuid5") for x in subterms(t)):
            return False, "the unique part is computed from the base name, the same each time"
        cs = [x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == "call"]
        if all(is_call(x, *POOR) for x in cs) and (cs or t[0] == "const"):
            return False, f"the unique part is {show(t)[:40]}"
    return None, show(t)[:60]


def parts_of(t):
    if t[0] == "fstr":
        out = []
        for x in t[1]:
            if isinstance(x, tuple) and x and x[0] == "fmt":
                out.append(x[1])
            else:
                out.append(x)
        return out
    if t[0] == "bin" and t[1] == "Add":
        return parts_of(t[2]) + parts_of(t[3])
    return [t]


def check(c):
    ix = c.ix
    fi = ix.func(GEN)
    B = P(fi.params()[0])
    reg = None
    with c.section("C18:gensym"):
        n = 0
        for o in returns(c.paths(fi)):
            tr, w = o.state.trace, at(c, fi, o)
            v = o.value
            while v[0] == "carried":
                v = v[3]
            ps = parts_of(v)
            uniq = [p for p in ps if any(is_call(x, *RANDOM) for x in subterms(p))]
            n += 1
            if not uniq:
                prior = [p for p in ps if p[0] not in ("const", "param")]
                ok, why = random_part(prior[-1]) if prior else (False, f"the name is {show(v)[:60]}")
                (c.bad if ok is False else c.unknown)("C18:random", w, why)
                continue
            ok, why = random_part(uniq[-1])
            c.require("C18:random", ok, w, f"generated names: {why}")
            rest = [p for p in ps if p not in uniq]
            none = o.state.facts.get(("isnone", B))
            truthy = o.state.facts.get(B)
            given = any(contains(p, B) for p in rest)
            if truthy:
                c.require("C18:basename", given or (None if not rest else False), w, "the base name does not occur in the generated name")
                if ps and contains(ps[0], B):
                    c.ok("C18:basename:first", w, "starts with the base name")
                else:
                    c.require("C18:basename:first", None if not ps or ps[0][0] not in ("const", "fmt") and ps[0] not in uniq else False, w, f"the generated name begins with {show(ps[0])[:40]}: not an identifier for every base name")
            elif none:
                first = ps[0]
                c.require("C18:default", first[0] == "const" and isinstance(first[2], str) and first[2][:1].isidentifier() or (None if first[0] not in ("const",) and first not in uniq else False), w, f"a name without base name is {show(v)[:60]}")
            # consts between
            for p in rest:
                if p[0] == "const" and isinstance(p[2], str):
                    c.require("C18:identifier", ("a" + p[2]).isidentifier(), w, f"the generated name contains {p[2]!r}")
            # registered and tested
            tests = [e for e in tr if e.kind == "assume" and e.a[0] == "cmp" and e.a[1] == "In"]
            adds = [e for _, e in call_events(tr, "add") if e.a[0] in ("attr", "ref", "bound")]
            regs = {e.a[3] for e in tests}
            sets = [e for e in tr if e.kind == "setitem"]
            if not tests:
                rest_ = any(e.kind in ("call",) and e.a[0] == "attr" and not is_call(e.c, "replace") for e in tr)
                c.require("C18:tested", None if rest_ and adds == [] and sets else False, w, "a generated name is not compared with the names given out before")
            final = [e for e in tests if not e.b]
            inloop = any(e.kind == "loop" for e in tr)
            c.require("C18:tested:last", True if final or inloop else False, w, "a name that was given out before is returned") if tests else None
            if inloop and not final:
                # leaving a `while taken:` loop: the value generated in the loop must be re-tested; seen by the loop condition naming it
                cond = [e.a[2] for e in tests]
                c.require("C18:tested:again", any(x[0] == "carried" for x in cond) or None, w, "only the first candidate is tested")
            added = [e for e in adds if any(_same(x, o.value) for _, x in e.b)] or [e for e in sets if _same(e.b, o.value)]
            c.require("C18:registered", True if added else None if sets or any(not _foreign(x, uniq) for e in adds for _, x in e.b) else False, w, "a generated name is not entered in the register")
            for e in adds:
                r = e.a[1] if e.a[0] in ("attr", "bound") else ref(e.a[1].rsplit(".", 1)[0])
                if r[0] == "ref":
                    reg = r
            regs = {r for r in regs if r[0] == "ref"}
            if adds and regs and reg is not None:
                c.require("C18:register:same", reg in regs, w, f"names are entered in {show(reg)} and looked up in {', '.join(show(r) for r in regs)}")
        c.require("C18:exercised", n >= 2 or None, c.where(fi), "paths")
    if reg is not None:
        table_or_set(c, reg[1])
        no_removal(c, "C18:register:kept", reg[1], "the register of generated names")
    sites(c)
    c.floor(10)


def _foreign(x, uniq):
    """certainly not the generated name"""
    return x[0] in ("const", "param") or (x[0] == "fstr" and not any(contains(x, u) for u in uniq) and not any(y[0] == "carried" for y in x[1] if isinstance(y, tuple)))


def _same(x, v):
    return x == v or (x[0] == "carried" and x[3] == v) or (v[0] == "carried" and v[3] == x) or (x[0] == "carried" and v[0] == "carried" and x[3] == v[3])


def table_or_set(c, dotted):
    mod, _, name = dotted.rpartition(".")
    m = c.ix.module(mod)
    for st in m.tree.body:
        ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []
        if any(isinstance(t, ast.Name) and t.id == name for t in ts) and st.value is not None:
            f = c.ix.resolve_expr(m, st.value.func) if isinstance(st.value, ast.Call) else None
            w = f"{m.relpath}:{st.lineno}"
            if isinstance(st.value, (ast.Dict, ast.Set)) or f in ("builtins.set", "builtins.dict"):
                c.ok("C18:register:kind", w, "the register is a plain set")
            elif f and (f.startswith("weakref.") or f == "collections.deque"):
                c.bad("C18:register:kind", w, f"the register is a {f}: it forgets names")
            else:
                c.unknown("C18:register:kind", w, "the register")


def sites(c):
    ix = c.ix
    # a new module without a name
    with c.section("C18:create_module"):
        fi = ix.func("mcpyrate.compiler.create_module")
        N = P(fi.params()[0])
        for o in returns(c.paths(fi, facts={N: False, ("isnone", N): True}, max_paths=8000)):
            for e in o.state.trace:
                if e.kind == "call" and is_call(e.c, "types.ModuleType"):
                    x = argof(e, "name", 0)
                    c.require("C18:create_module", True if any(is_call(t, GEN) for t in subterms(x)) else False if x is not None and not any(t[0] in ("call", "carried") for t in subterms(x) if isinstance(t, tuple) and t and isinstance(t[0], str)) else None,
                              where_of(e, c.where(fi)), f"a module without a name is named {show(x)[:60]}")
    # captured macros
    for fn in ("capture_macro", "capture_as_macro"):
        with c.section("C18:" + fn):
            from .c17 import _deref, _key
            fi = ix.func("mcpyrate.quotes." + fn)
            for o in returns(c.paths(fi, shapes=True, inline_when=lambda f, b, s: False if f.name in ("lookup_macro",) else None)):
                k = _key(_deref(o.value, o.state.heap))
                w = at(c, fi, o)
                if k is None:
                    c.unknown("C18:" + fn, w, show(o.value)[:60])
                else:
                    c.require("C18:" + fn, True if any(is_call(t, GEN) for t in subterms(k[1])) else False, w, f"a captured macro is bound under {show(k[1])[:60]}")
    # modules made elsewhere, and constructed names
    for f in ix.funcs.values():
        if f.parent is not None or f.module.name.startswith("mcpyrate.test") or f.module.name.startswith("mcpyrate.repl"):
            continue
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            w = f"{f.file}:{x.lineno}"
            d = ix.resolve_expr(f.module, x.func)
            if d == "mcpyrate.compiler.create_module" or d == "types.ModuleType":
                a = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg in ("dotted_name", "name")), None)
                if a is None or isinstance(a, (ast.Name, ast.Attribute, ast.Subscript)):
                    c.ok("C18:module", w, "a given name, or none")
                elif isinstance(a, ast.Call) and ix.resolve_expr(f.module, a.func) == GEN or any(isinstance(y, ast.Call) and ix.resolve_expr(f.module, y.func) == GEN for y in ast.walk(a)):
                    c.ok("C18:module", w, "a generated name")
                elif isinstance(a, (ast.Constant, ast.JoinedStr, ast.BinOp)):
                    if not any(isinstance(y, ast.Name) for y in ast.walk(a)) or isinstance(a, ast.Constant):
                        c.bad("C18:module", w, f"a module is made up under the fixed name {ast.unparse(a)}")
                    else:
                        c.unknown("C18:module", w, ast.unparse(a)[:60])
                else:
                    c.unknown("C18:module", w, ast.unparse(a)[:60])
            elif d in ("ast.Name", "ast.FunctionDef", "ast.ClassDef", "ast.arg", "ast.AsyncFunctionDef"):
                a = next((k.value for k in x.keywords if k.arg in ("id", "name", "arg")), x.args[0] if x.args else None)
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    v = a.value
                    c.require("C18:name", True if v == "mcpyrate" or v.startswith("_mcpyrate") or hasattr(builtins, v) or (v.startswith("__") and v.endswith("__")) else False, w, f"a name node is made up with the fixed name {v!r}, which user code may use")
                elif isinstance(a, ast.JoinedStr) or isinstance(a, ast.BinOp):
                    c.require("C18:name", True if any(isinstance(y, ast.Call) and ix.resolve_expr(f.module, y.func) == GEN for y in ast.walk(a)) else None, w, "a composed name")
                else:
                    c.ok("C18:name", w, "a given or generated name")
