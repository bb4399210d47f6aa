"""Query helpers over abstract paths."""
import ast

from .interp import (FALSE, NONE, TRUE, Ev, argof, attr, callee, calls, const, contains, is_call, name_matches, ref, show,
                     show_ev, subterms)

QUIET = {"builtins.isinstance", "builtins.type", "builtins.len", "builtins.id", "builtins.hasattr", "builtins.getattr",
         "builtins.callable", "builtins.print", "builtins.repr", "builtins.str", "builtins.bool"}


def any_call_raises(t, interp=None, state=None):
    """Exceptional edge for every call except total builtins."""
    return t[0] == "call" and not (t[1][0] == "ref" and t[1][1] in QUIET)


def returns(paths):
    return [o for o in paths if o.kind == "return"]


def raises(paths):
    return [o for o in paths if o.kind == "raise"]


def end(o):
    """Short rendering of how a path ends, for reports."""
    return "normal return" if o.kind == "return" else f"exception {show(o.value)[:80]}"


def final(o, obj, name):
    """Final value of attribute `name` of `obj` on a path (initial: the attribute term itself)."""
    return o.state.heap.get((obj, name), attr(obj, name))


def final_items(o, obj):
    return o.state.heap.get((obj, "#"))


def watched_at(trace, i, obj, name):
    """Value of a watched cell when event number i happened."""
    for e in reversed(trace[:i]):
        if e.kind == "watch" and e.a == obj and e.b == name:
            return e.c
    return None


def call_events(trace, *names, raising=True):
    kinds = ("call", "callraise") if raising else ("call",)
    return [(i, e) for i, e in enumerate(trace) if e.kind in kinds and name_matches(callee(e.a), *names)]


def call_term(e):
    """The call term of a call event."""
    return e.c


def args_of(t):
    args = t.b if isinstance(t, Ev) else t[2]
    return dict(args)


def assumed(trace, upto=None):
    """{atom: truth} assumed on the path (up to event number)."""
    return {e.a: e.b for e in (trace if upto is None else trace[:upto]) if e.kind == "assume"}


def where_of(e, default=""):
    if e is not None and e.node is not None and e.fi is not None:
        return f"{e.fi.file}:{getattr(e.node, 'lineno', '?')}"
    return default


def last_event(o):
    for e in reversed(o.state.trace):
        if e.node is not None:
            return e
    return None


def at(c, fi, o=None):
    """file:line of the last event of a path, or of the function."""
    e = last_event(o) if o is not None else None
    return where_of(e, c.where(fi))


def unwrap(t, *names):
    """Strip outer calls such as copy_location(x, ...) whose first argument is the value passed through."""
    while is_call(t, *names) and t[2]:
        t = t[2][0][1]
    return t


def isinst_facts(facts, x):
    """Type sets assumed true / false of term x."""
    pos, neg = [], []
    for f, v in facts.items():
        if f[0] in ("isinst", "typeis") and f[1] == x:
            (pos if v else neg).append((f[0], f[2]))
    return pos, neg


def functions_storing(ix, attrs):
    """Functions (outermost) of the package that assign an attribute with one of the given names."""
    out = []
    for fi in ix.funcs.values():
        if fi.parent is not None:
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in attrs:
                out.append((fi, n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 \
                    and isinstance(n.args[1], ast.Constant) and n.args[1].value in attrs:
                out.append((fi, n))
    return out


def one(trace, *names):
    """The only normally completed call of one of the named functions on a path: (index, event), or None if not exactly one."""
    ev = call_events(trace, *names, raising=False)
    return ev[0] if len(ev) == 1 else None


def arg(t, *keys):
    """Argument by name or position of a call event or call term."""
    return argof(t, *keys)


def norm_ctor(t):
    """Node constructor call -> (class, {field: term}), or None."""
    if isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and t[1][0] == "ref" and t[1][1].startswith("ast."):
        cls = t[1][1][4:]
        import ast as _a
        fields = getattr(getattr(_a, cls, None), "_fields", None)
        if fields is None:
            return None
        out = {}
        for k, v in t[2]:
            if isinstance(k, int):
                if k < len(fields):
                    out[fields[k]] = v
            else:
                out[k] = v
        return cls, out
    return None


def truth(t, facts):
    """Truth of a value term under the assumptions of a path: True, False or None."""
    if t is None:
        return None
    if t[0] == "const":
        return bool(t[2]) if t[1] != "ellipsis" else True
    if t == NONE:
        return False
    if t[0] == "not":
        v = truth(t[1], facts)
        return None if v is None else not v
    if t[0] == "call" and t[1] == ref("builtins.bool") and len(t[2]) == 1:
        return truth(t[2][0][1], facts)
    if t in facts:
        return facts[t]
    if facts.get(("isnone", t)):
        return False
    if t[0] in ("tuple", "list", "dict", "set") and isinstance(t[1], tuple) and any(not (isinstance(x, tuple) and x and x[0] in ("rep", "star")) for x in t[1]):
        return True
    if t[0] in ("tuple", "list", "dict", "set") and t[1] == ():
        return False
    return None


def fact(facts, kind, *rest):
    return facts.get((kind,) + rest)


def visitor(ix, cls, kind):
    """The method that handles nodes of a class, following class-level aliases."""
    seen = set()
    name = "visit_" + kind
    while name not in seen:
        seen.add(name)
        fi = ix.class_attr(cls, name)
        if fi is None:
            return None
        if hasattr(fi, "params"):
            return fi
        v = getattr(fi, "value", fi)
        if isinstance(v, ast.Name):
            name = v.id
        else:
            return None
    return None


def strip_list(t):
    """list(x), x[:], copy(x), [*x] -> x"""
    while t is not None:
        if t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "star":
            t = t[1][0][1]
        elif is_call(t, "copy.copy", "copy.deepcopy", "builtins.list", "builtins.tuple") and len(t[2]) == 1:
            t = t[2][0][1]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "copy" and not t[2]:
            t = t[1][1]
        else:
            return t


def partial(t, base):
    """Is this an iterable of only some elements of `base`?"""
    while t[0] in ("enumerate", "reversed") or is_call(t, "builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.reversed", "builtins.iter"):
        t = t[1] if t[0] in ("enumerate", "reversed") else argof(t, 0)
        if t is None:
            return False
    if t[0] == "sub" and t[1] == base and t[2][0] == "slice":
        lo, hi, step = t[2][1:]
        return lo not in (NONE, const(0)) or hi != NONE or step not in (NONE, const(1), const(-1))
    return False


def partial_loops(trace, base):
    return [e for e in trace if e.kind in ("loop", "endloop") and isinstance(e.a, tuple) and partial(e.a, base)]
