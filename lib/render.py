"""The text that the unparser produces for a node of a given shape, as a sequence of tokens.

A shape says which optional parts of the node are there, how long its lists are, and what its integer and constant parts
are; the children themselves stay opaque. The methods of the unparser are interpreted abstractly for that shape, starting
from its dispatcher; every piece written is either literal text or a placeholder for a child (dispatched: ⟦x⟧) or for an
identifier of the node (written as it is: ⟨x⟩).
"""
import ast
import itertools
import re

from .asdl import fields, ftype, members
from .interp import FALSE, NONE, TRUE, Interp, Policy, argof, attr, callee, const, is_call, name_matches, ref, show

UNP = "mcpyrate.unparser.Unparser"
BASE = ("write", "fill", "enter", "leave", "maybe_colorize", "maybe_colorize_python_keyword", "nocolor")
SPACED = set(members()["stmt"]) | {"stmt", "excepthandler", "match_case", "comprehension"}


class N:
    """A node whose rendering is followed too: kind and shape."""
    def __init__(self, kind, /, opaque=False, **shape):
        self.kind, self.opaque, self.shape = kind, opaque, shape


class V:
    """A constant value."""
    def __init__(self, value):
        self.value = value


class Unrecognised(Exception):
    pass


class Fails(Exception):
    pass


class Renderer:
    def __init__(self, c):
        self.c, self.ix = c, c.ix
        self.cls = self.ix.classes.get(self.ix.canonical(UNP)) or self.ix.classes[UNP]
        self.runs = 0

    # -- building the abstract node
    def node(self, term, n, path, st):
        """Register node `n` under `term`; `path` is its name in placeholders."""
        facts, heap, names = st["facts"], st["heap"], st["names"]
        facts[("typeis", term, frozenset(["ast." + n.kind]))] = True
        st["typed"][term] = n.opaque
        for f, t, q in fields()[n.kind]:
            v = n.shape.get(f, ...)
            x = attr(term, f)
            name = f"{path}{f}"
            facts[("hasattr", term, f)] = True
            if v is ... and q == "*":
                v = []
            if v is None:
                heap[(term, f)] = NONE
            elif isinstance(v, list):
                obj = ("new", "list", ("shape", term, f))
                items = []
                for i, y in enumerate(v):
                    p = ("param", f"{name}{i}")
                    items.append(self.value(p, y, f"{name}{i}", t, st))
                heap[(term, f)] = obj
                heap[(obj, "#")] = tuple(items)
            elif isinstance(v, V):
                heap[(term, f)] = const(v.value)
            elif v is ...:
                self.value(x, True, name, t, st)
            else:
                heap[(term, f)] = self.value(x, v, name, t, st)

    def value(self, x, v, name, t, st):
        if v is None:
            return NONE
        if isinstance(v, V):
            return const(v.value)
        if isinstance(v, N):
            if v.opaque:
                st["names"][x] = (name, v.kind)
            else:
                st["names"][x] = (name, v.kind)
            self.node(x, v, name + ".", st)
            return x
        st["names"][x] = (name, t)
        st["facts"][("isnone", x)] = False
        st["facts"][x] = True
        return x

    # -- running
    def paths(self, kind, shape, color=False, debug=False):
        st = {"facts": {}, "heap": {}, "names": {}, "typed": {}}
        T = ("param", "tree")
        self.node(T, N(kind, **shape), "", st)
        st["typed"][T] = False
        S = ("param", "self")
        init = self.cls.methods.get("__init__")
        for n in ast.walk(init.node) if init is not None else ():
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
                a = n.targets[0].attr
                if isinstance(n.value, ast.List) and not n.value.elts or isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "list" and not n.value.args:
                    obj = ("new", "list", ("init", a))
                    st["heap"][(S, a)] = obj
                    st["heap"][(obj, "#")] = ()
                elif isinstance(n.value, ast.Constant):
                    st["heap"][(S, a)] = const(n.value.value)
        st["heap"][(S, "debug")] = const(debug)
        st["heap"][(S, "color")] = const(color)
        typed = st["typed"]

        def when(fi, bound, s):
            if fi.cls is not None and fi.cls.qualname == self.cls.qualname:
                if fi.name == "dispatch":
                    x = bound.get("tree", next((v for k, v in bound.items() if k != "self"), None))
                    if x is not None and x[0] == "new":
                        return any(typed.get(y) is False for y in s.heap.get((x, "#"), ()))
                    return typed.get(x) is False
                if fi.name in BASE:
                    return False
                return True
            if fi.parent is not None and fi.qualname.startswith(self.cls.qualname + ".") and any(x in typed for x in bound.values()):
                return True
            return True if fi.name == "interleave" else None
        fi = self.ix.find_method(self.cls, "dispatch")
        it = Interp(self.ix, Policy(self.c.baseline, inline=["interleave"], shapes=True, inline_when=when, max_paths=3000, max_depth=30))
        res = it.run(fi, bind={fi.params()[1]: T}, facts=st["facts"], heap=st["heap"], selfcls=self.cls.qualname)
        self.c.analysed.add(f"{self.cls.qualname}._{kind}")
        self.c.npaths += len(res)
        self.runs += 1
        return res, st

    # -- text
    def text(self, t, st):
        k = t[0]
        if k == "const":
            if isinstance(t[2], str):
                return t[2]
            raise Unrecognised(show(t))
        if k == "fstr":
            return "".join(self.text(x, st) for x in t[1])
        if k == "op" and t[1] == "Add":
            return self.text(t[2], st) + self.text(t[3], st)
        if k == "conv" and t[1] == "s":
            return self.text(t[2], st)
        if k == "call":
            n = callee(t[1])
            if name_matches(n, "maybe_colorize", "maybe_colorize_python_keyword", "colorize"):
                return self.text(argof(t, "text", 0), st)
            if name_matches(n, "setcolor"):
                return ""
            if n == "builtins.repr" and len(t[2]) == 1:
                x = t[2][0][1]
                if x[0] == "const":
                    return repr(x[2])
            if n == "builtins.str" and len(t[2]) == 1:
                return self.text(t[2][0][1], st)
        if t in st["names"]:
            name, ty = st["names"][t]
            if ty in ("identifier", "string", "int"):
                return f"⟨{name}⟩"
        self.poisoned(t)
        raise Unrecognised(show(t)[:80])

    def poisoned(self, t):
        """Does evaluating the term fail for this shape?"""
        from .interp import subterms
        for x in subterms(t):
            if isinstance(x, tuple) and x and x[0] == "attr" and x[1] == NONE and not x[2].startswith("__"):
                raise Fails(f"reads .{x[2]} of a part that is absent")
            if isinstance(x, tuple) and x and x[0] == "sub" and x[1][0] in ("list", "tuple") and x[2][0] == "const" and isinstance(x[2][2], int) \
                    and not any(y[0] in ("rep", "star") for y in x[1][1]) and not -len(x[1][1]) <= x[2][2] < len(x[1][1]):
                raise Fails(f"takes element {x[2][2]} of a list of {len(x[1][1])}")
            if isinstance(x, tuple) and len(x) == 4 and x[0] == "cmp" and x[1] in ("Lt", "LtE", "Gt", "GtE") and any(y[0] == "const" and isinstance(y[2], complex) for y in x[2:]):
                raise Fails("compares a complex number by size")
            if isinstance(x, tuple) and x and x[0] == "sub" and x[1][0] == "dict" and x[2][0] == "const" and all(k is not None and k[0] == "const" for k, _ in x[1][1]):
                raise Fails(f"has no entry for {x[2][2]!r}")

    def child(self, x, st):
        if x[0] in ("list", "tuple"):
            return "".join(self.child(y, st) for y in x[1])
        if x == NONE:
            raise Fails("dispatches a part that is absent")
        if x in st["names"]:
            name, ty = st["names"][x]
            if ty in ("identifier", "string", "int", "constant"):
                raise Fails(f"treats {name} as a node")
            return f" ⟦{name}⟧ " if ty in SPACED else f"⟦{name}⟧"
        self.poisoned(x)
        if x[0] == "sub" and x[1] in st["names"] and st["names"][x[1]][1] in ("expr", "stmt", "pattern"):
            raise Fails(f"indexes {st['names'][x[1]][0]}, which is a node")
        raise Unrecognised(f"dispatch of {show(x)[:60]}")

    def string(self, o, st):
        out = []
        for e in o.state.trace:
            if e.kind == "loop":
                raise Unrecognised("a loop over " + show(e.a)[:60])
            if e.kind == "assume":
                self.poisoned(e.a)
            if e.kind not in ("call", "callraise"):
                continue
            n = callee(e.a)
            m = n.rsplit(".", 1)[-1] if n else ""
            if name_matches(n, "Unparser.write", "self.write", "self.f.write") or m == "write":
                out.append(self.text(argof(e, "text", 0, "arg0"), st).replace("\n", " "))
            elif m == "fill":
                x = argof(e, "text", 0)
                out.append(" ¶ " + (self.text(x, st) if x is not None else ""))
            elif m == "enter":
                out.append(": ⇥ ")
            elif m == "leave":
                out.append(" ⇤ ")
            elif m == "dispatch":
                out.append(self.child(argof(e, "tree", 0), st))
            elif m in ("interleave",) or n and n.startswith(self.cls.qualname + ".") and m not in BASE:
                raise Unrecognised("call of " + n)
            else:
                for _, x in e.b:
                    self.poisoned(x)
        return "".join(out)

    def render(self, kind, /, **shape):
        """-> list of (verdict, text or reason, outcome): verdict 'text', 'fails', 'unknown'."""
        res, st = self.paths(kind, shape)
        out = []
        for o in res:
            try:
                s = self.string(o, st)
                if o.kind == "raise":
                    out.append(("fails", "raises " + show(o.value)[:80], o))
                else:
                    out.append(("text", s, o))
            except Fails as e:
                out.append(("fails", str(e), o))
            except Unrecognised as e:
                out.append(("unknown", str(e), o))
        return out


TOKEN = re.compile(r"[\w⟦⟧⟨⟩.]*[⟦⟨][\w⟦⟧⟨⟩.]*|\w+|\*\*=|//=|>>=|<<=|\*\*|//|>>|<<|[-+*/%&|^@=<>!:]=|->|\S")


def tokens(s):
    return TOKEN.findall(s)


def children(s):
    return sorted(re.findall(r"[⟦⟨][^⟦⟧⟨⟩]*[⟧⟩]", s))
