"""AST dumps show every field of every node.

Rule: for every kind of node in the grammar of the running Python, with its optional parts present or absent, with and without attributes, on one or several lines, coloured and plain, the dumper is
interpreted abstractly; on every path the text is the name of the kind and, in parentheses, every field by its name and in order, each with the dump of its value, followed on request only by every attribute. Lists of
zero to three elements are the dumps of the elements in brackets; what is neither is its representation. What is put between two parts has a line break exactly in the mode with several lines. Helpers
that only colour a text are shown to pass it on. At the top anything but a node or a list is refused.
"""
import ast
import re

from lib.asdl import fields
from lib.interp import FALSE, NONE, TRUE, argof, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import at, where_of
from lib.shape import P

D = "mcpyrate.astdumper.dump"
T = P("tree")


class Odd(Exception):
    pass


class Wrong(Exception):
    pass


def check(c):
    ix = c.ix
    fi = ix.func(D)
    d = Dumper(c, fi)
    with c.section("C39:helpers"):
        d.helpers()
    kinds = sorted(k for k in fields() if hasattr(ast, k))
    for k in sorted(kinds, key=lambda k: len(fields()[k])):
        if sum(o[1] != "ok" for o in c.obligations) > 20:
            break       # enough is known
        with c.section(f"C39:node:{k}"):
            if hasattr(getattr(ast, k), "_fields"):
                nodes(c, fi, d, k)
    for n in range(4):
        with c.section(f"C39:list:{n}"):
            lists(c, fi, d, n)
    with c.section("C39:refused"):
        refused(c, fi, d)
    c.floor(60)


class Dumper:
    def __init__(self, c, fi):
        self.c, self.fi = c, fi
        own = [f for f in c.ix.funcs.values() if f.module is fi.module]
        names = {f.qualname: {x.func.id for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)} for f in own}
        self.own = {f.qualname: f for f in own}
        byname = {}
        for f in own:
            byname.setdefault(f.name, []).append(f.qualname)

        def reach(q, seen):
            for n in names[q]:
                for t in byname.get(n, ()):
                    if t not in seen:
                        seen.add(t)
                        reach(t, seen)
            return seen
        self.recursive = {q for q in names if q in reach(q, set())}
        self.pure = set()     # helpers that pass on a text

    def when(self, follow, opaque):
        def when(f, bound, s):
            if f.qualname not in self.own:
                return None
            vals = list(bound.values())
            if any(v in follow for v in vals):
                return True
            if f.qualname in self.recursive:
                return False
            return f.qualname not in self.pure
        return when

    def rec(self, t):
        return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and t[1][0] in ("closure", "ref") and t[1][1] in self.recursive

    def helpers(self):
        """functions in the dumper that take a text: whether they pass it on"""
        for q, f in sorted(self.own.items()):
            if q == self.fi.qualname or q in self.recursive or not f.params():
                continue
            p = P(f.params()[0])
            good = True
            for o in self.c.paths(f):
                if o.kind != "return" or not same(o.value, p):
                    good = good and (None if o.kind == "return" and contains(o.value, p) else False)
            if good is True:
                self.pure.add(q)
                self.c.ok("C39:helpers", self.c.where(f))

    def text(self, t, names):
        k = t[0]
        if k == "const":
            if isinstance(t[2], str):
                return t[2]
            raise Odd(show(t))
        if k == "fstr":
            return "".join(self.text(x, names) for x in t[1])
        if k == "op" and t[1] == "Add":
            return self.text(t[2], names) + self.text(t[3], names)
        if k == "op" and t[1] == "Mult":
            for a in t[2:]:
                if a[0] == "const" and isinstance(a[2], str) and not a[2].strip():
                    return "\t"
            raise Odd(show(t)[:80])
        if k == "join":
            items = t[2]
            if items[0] in ("list", "tuple") and not any(x[0] in ("rep", "star") for x in items[1]):
                return self.text(t[1], names).join(self.text(x, names) for x in items[1])
            raise Odd(show(t)[:80])
        if k == "conv":
            return self.text(t[2], names) if t[1] == "s" else "r" + self.name(t[2], names)
        if self.rec(t):
            vals = [v for _, v in t[2]]
            known = [v for v in vals if self.named(v, names)]
            if len(known) == 1:
                return self.name(known[0], names)
            if NONE in vals:
                return "⟦None⟧"
            if not known and any(v[0] == "const" and isinstance(v[2], str) for v in vals) and not any(contains(v, T) for v in vals):
                raise Wrong("a name is shown in place of a value")
            for v in vals:
                if v[0] == "call" or v[0] in ("attr", "getattr") and contains(v, T):
                    raise Odd(show(t)[:80])
            raise Odd(show(t)[:80])
        if k == "call":
            n = callee(t[1])
            if t[1][0] in ("closure", "ref") and t[1][1] in self.pure:
                f = self.own[t[1][1]]
                return self.text(argof(t, f.params()[0], 0), names)
            if n is not None and name_matches(n, "colorize", "maybe_colorize"):
                x = argof(t, "text", 0)
                if x is not None and x[0] in ("ref", "attr") and "ColorScheme" in show(x):
                    raise Wrong("a text is lost where it is coloured")
                return self.text(x, names)
            if n in ("builtins.str", "builtins.format") and len(t[2]) == 1:
                x = t[2][0][1]
                if self.named(x, names):
                    raise Wrong(f"the text of {self.name(x, names)} and not its representation is shown")
                return self.text(x, names)
            if n in ("builtins.repr", "builtins.ascii") and len(t[2]) == 1 and self.rec(t[2][0][1]):
                raise Wrong("the dump of a value is shown by its own representation")
            if n == "builtins.repr" and len(t[2]) == 1 and t[2][0][1][:2] == ("new", "list"):
                raise Wrong("a list is shown by its representation")
            if n == "builtins.repr" and len(t[2]) == 1:
                return "r" + self.name(t[2][0][1], names)
            if t[1][0] == "attr" and t[1][2] in ("strip", "lstrip", "rstrip") and not t[2]:
                return self.text(t[1][1], names)
            if t[1][0] == "attr" and t[1][2] in ("strip", "lstrip", "rstrip", "replace", "upper", "lower", "title") and t[2]:
                self.text(t[1][1], names)
                raise Wrong("a part of the text is altered")
        if k == "sub" and t[2][0] == "slice":
            self.text(t[1], names)
            raise Wrong("a part of the text is cut off")
        if self.named(t, names):
            raise Wrong(f"the text of {self.name(t, names)} and not its representation is shown")
        raise Odd(show(t)[:80])

    def named(self, t, names):
        return t in names or t[0] == "getattr" and t[1] == T and attr(T, t[2]) in names or is_call(t, "builtins.getattr") and argof(t, 0) == T and argof(t, 1)[0] == "const"

    def name(self, t, names):
        if t in names:
            return f"⟦{names[t]}⟧"
        if t[0] == "getattr":
            return f"⟦{t[2]}⟧"
        if is_call(t, "builtins.getattr"):
            return f"⟦{argof(t, 1)[2]}⟧"
        raise Odd(show(t)[:80])


def reordered(t):
    """is a sorted, reversed or unordered copy of the parts in the text? (terms share their parts: each is looked at once)"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if is_call(x, "builtins.sorted", "builtins.reversed", "builtins.set", "builtins.frozenset") or len(x) == 2 and x[0] == "reversed":
            return True
        todo.extend(x)
    return False


def same(v, p):
    if v == p:
        return True
    if v[0] == "fstr":
        return len(v[1]) == 1 and same(v[1][0], p)
    if v[0] == "conv" and v[1] == "s":
        return same(v[2], p)
    if v[0] == "call":
        n = callee(v[1])
        if n == "builtins.str" and len(v[2]) == 1:
            return same(v[2][0][1], p)
        if n is not None and name_matches(n, "colorize", "maybe_colorize"):
            a = argof(v, "text", 0)
            return a is not None and same(a, p)
    return False


def tidy(s):
    return re.sub(r"\s+", " ", re.sub(r"\s*\n\s*", " ", s)).replace("( ", "(").replace("[ ", "[")


def nodes(c, fi, d, kind):
    spec = fields()[kind]
    cls = getattr(ast, kind)
    fs = list(cls._fields)
    attrs = list(cls._attributes)
    for absent in (False, True) if any(q == "?" for _, _, q in spec) else (False,):
        for inc, multi, color in ((False, True, False), (True, False, False), (False, False, True), (True, True, True)):
            facts = {("typeis", T, frozenset(["ast." + kind])): True}
            heap = {(T, "_attributes"): ("tuple", tuple(const(a) for a in attrs))}
            names = {}
            for f, t, q in spec:
                facts[("hasattr", T, f)] = True
                if absent and q == "?":
                    heap[(T, f)] = NONE
                else:
                    names[attr(T, f)] = f
            for a in attrs:
                names[attr(T, a)] = a
                facts[("hasattr", T, a)] = True
            res = c.paths(fi, facts=facts, heap=heap, bind={"include_attributes": TRUE if inc else FALSE, "multiline": TRUE if multi else FALSE, "color": TRUE if color else FALSE},
                          inline_when=d.when({T}, set(names)), shapes=True, max_paths=400)
            none = {f for f, t, q in spec if absent and q == "?"}
            want = f"{kind}(" + ", ".join(f"{f}=⟦{'None' if f in none else f}⟧" for f in fs + (attrs if inc else [])) + ")"
            mode = ", ".join([x for x, y in (("attributes", inc), ("several lines", multi), ("color", color)) if y]) or "plain"
            judge(c, fi, d, res, names, want, f"C39:node:{kind}", f"the dump of a {kind} ({mode}{', optional parts absent' if absent else ''})", multi, len(fs + (attrs if inc else [])))


def judge(c, fi, d, res, names, want, key, what, multi, n):
    for o in res:
        w = at(c, fi, o)
        if o.kind == "raise":
            c.require(key, False if any(isinstance(e.node, ast.Raise) for e in o.state.trace[-1:]) or o.value[0] in ("ref", "call") else None, w, f"{what} fails")
            continue
        try:
            s = d.text(o.value, names)
        except Wrong as e:
            c.bad(key, w, f"{what}: {e}")
            continue
        except Odd as e:
            # a repetition, or the result of a helper not followed: is something known to be missing?
            if reordered(o.value):
                c.bad(key, w, f"{what}: the parts are in another order")
            elif o.value == NONE:
                c.bad(key, w, f"{what} is nothing")
            else:
                c.unknown(key, w, f"{what}: {e}")
            continue
        t = tidy(s)
        # a representation of what is absent is as good as its dump
        t = t.replace("=None", "=⟦None⟧").replace("r⟦None⟧", "⟦None⟧")
        if t == want:
            c.ok(key, w)
            nl = "\n" in s
            if n > 1:
                c.require(key + ":lines", nl == multi, w, f"{what} is on {'several lines' if nl else 'one line'}")
        else:
            c.bad(key, w, f"{what} is  {t[:100]}  instead of  {want[:100]}")


def lists(c, fi, d, n):
    L = ("new", "list", ("shape", "L"))
    els = [P(f"e{i}") for i in range(n)]
    AST, LIST = frozenset({"ast.AST"}), frozenset({"builtins.list"})
    for leaf in (False, True):
        for multi in (True, False):
            facts = {}
            for x in els:
                if leaf:
                    facts[("isinst", x, AST)] = False
                    facts[("isinst", x, LIST)] = False
                    facts[("isinst", x, AST | LIST)] = False
            follow = {L} | (set(els) if leaf else set())
            res = c.paths(fi, facts=facts, heap={(L, "#"): tuple(els)}, bind={"tree": L, "include_attributes": FALSE, "multiline": TRUE if multi else FALSE, "color": FALSE},
                          inline_when=d.when(follow, set(els) - follow), shapes=True, max_paths=400)
            want = "[" + ", ".join(("r" if leaf else "") + f"⟦e{i}⟧" for i in range(n)) + "]"
            judge(c, fi, d, res, {x: x[1] for x in els}, want, f"C39:list:{n}", f"the dump of a list of {n} {'values' if leaf else 'nodes'}", multi, n)


def refused(c, fi, d):
    AST, LIST = frozenset({"ast.AST"}), frozenset({"builtins.list"})
    facts = {("isinst", T, AST): False, ("isinst", T, LIST): False, ("isinst", T, AST | LIST): False}
    for o in c.paths(fi, facts=facts, inline_when=d.when({T}, set()), max_paths=400):
        w = at(c, fi, o)
        if o.kind == "return":
            c.require("C39:refused", False, w, "something that is no syntax tree is dumped as if it were one")
        else:
            c.require("C39:refused", True if is_call(o.value, "builtins.TypeError") or o.value == ref("builtins.TypeError") else None, w, "")
