"""Unparsed code keeps the order, operators and keywords of the source.

Rule: the same abstract renderings as for C12 (every kind of node, every shape), compared token by token with the
renderings that Python's grammar prescribes: the operator or keyword of the node, the punctuation, the order of the
children, the delimiters of compound expressions, and the extent of indented blocks.
"""
from lib.render import tokens

from .c12 import primitives, run, shape_name, where_unparse


def check(c):
    def norm(s, raw):
        return s.strip() if raw else tokens(s)

    def judge(R, kind, shape, refs, raw, verdict, s, o):
        w = where_unparse(c, R, kind, o)
        name = f"{kind} ({shape_name(shape)})"
        key = f"C13:{kind}"
        if verdict == "unknown":
            c.unknown(key, w, f"{name}: {s}")
            return
        if verdict == "fails":
            c.bad(key + ":fails", w, f"unparsing a {name} {s}")
            return
        got = norm(s, raw)
        want = [norm(r, raw) for r in refs]
        if got in want:
            c.ok(key, w, f"{name}: {s.strip()[:60]}")
        else:
            show = (lambda x: x) if raw else " ".join
            c.bad(key, w, f"{name} is rendered as  {show(got)}  instead of  {show(want[0])}")
    R, seen = run(c, judge)
    primitives(c, R, "C13")
    c.floor(400)
