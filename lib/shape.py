"""Statement lists of known shape: bodies whose statements are of given kinds, for analysing functions that rearrange bodies."""
from .interp import FALSE, NONE, TRUE, attr, const, is_call, show

P = lambda n: ("param", n)


def stmts(kinds):
    return tuple(P(f"s{i}{k}") for i, k in enumerate(kinds))


def kind(t):
    return t[1].lstrip("s0123456789") or None if t[0] == "param" and t[1].startswith("s") else None


def first(pos, kw):
    return pos[0] if pos else kw[0][1]


def m_future(pos, kw, st):
    t = first(pos, kw)
    return (TRUE if t[1].endswith("F") else FALSE) if t[0] == "param" and t[1][:1] == "s" else None


def items_of(t, st=None):
    """elements of a list term of known shape, slices and concatenations resolved; a list of terms or None"""
    if t[0] == "new" and st is not None and (t, "#") in st.heap:
        return flat(st.heap[(t, "#")], st)
    if t[0] in ("list", "tuple"):
        return flat(t[1], st)
    if t[0] == "op" and t[1] == "Add":
        a, b = items_of(t[2], st), items_of(t[3], st)
        return a + b if a is not None and b is not None else None
    if t[0] == "sub" and t[2][0] == "slice":
        base = items_of(t[1], st)
        if base is None:
            return None
        v = []
        for x in t[2][1:]:
            if x is None or x == NONE:
                v.append(None)
            elif x[0] == "const" and isinstance(x[2], int):
                v.append(x[2])
            elif x[0] == "op" and x[1] == "Add" and x[2][0] == "const" and x[3][0] == "const":
                v.append(x[2][2] + x[3][2])
            else:
                return None
        if any(x[0] == "star" for x in base):
            return None
        return base[slice(*(v + [None] * (3 - len(v))))]
    return None


def flat(items, st=None):
    out = []
    for x in items:
        if x[0] == "star":
            y = items_of(x[1], st)
            if y is None and x[1][0] in ("sub", "op", "list", "new", "carried"):
                return None
            if y is None:
                out.append(x)       # an opaque list
            else:
                out += y
        elif x[0] == "rep":
            e = x[2]
            if not x[3] and e[0] == "elem" and e[1] == x[1]:
                out.append(("star", x[1]))
            elif not x[3] and (is_call(e, "copy.deepcopy") or is_call(e, "copy.copy")) and e[2] and e[2][0][1][0] == "elem" and e[2][0][1][1] == x[1]:
                out.append(("star", ("call", e[1], ((e[2][0][0], x[1]),) + e[2][1:]) + e[3:]))
            else:
                return None
        else:
            out.append(x)
    return out
