"""Unparsing renders every part of every kind of node.

Rule: for every kind of node in the grammar of the running Python, and for every combination of absent and present
optional parts and of empty, one-element and longer lists, the unparser's code for that kind is interpreted abstractly from
its dispatcher; every path must end normally and must have written each child and each identifier that the node carries
exactly once (children of a nested node that is rendered in place count as well), and the parts that are neither nodes nor names
(import level, constant, conversion, operator, the mark of an asynchronous clause) as Python writes them.
"""
import ast

from lib.asdl import fields, ftype, members
from lib.interp import NONE, TRUE, argof, attr, callee, const, contains, is_call, show, subterms
from lib.pygrammar import argument_cases, cases
from lib.q import at, call_events, returns, where_of
from lib.render import UNP, N, Renderer, children, tokens

NOT_CODE = {"FunctionType", "TypeIgnore"}      # only in type comments
VALUED = {"ImportFrom", "Constant", "FormattedValue", "JoinedStr", "comprehension", "MatchSingleton", "BinOp", "UnaryOp", "BoolOp", "Compare", "AugAssign"}
SUMS = ("mod", "stmt", "expr", "excepthandler", "pattern", "type_param")
PRODUCTS = ("arguments", "arg", "keyword", "alias", "withitem", "match_case", "comprehension")


def shape_name(shape):
    out = []
    for k, v in shape.items():
        if isinstance(v, list):
            out.append(f"{len(v)} {k}" + ("" if None not in v else "(" + ",".join("-" if x is None else "x" for x in v) + ")"))
        elif v is None:
            out.append(f"no {k}")
        elif isinstance(v, N):
            out.append(f"{k}: {v.kind}")
        elif hasattr(v, "value"):
            out.append(f"{k}={v.value!r}")
    return ", ".join(out)


def where_unparse(c, R, kind, o):
    ev = [e for e in o.state.trace if e.node is not None and e.fi is not None] if o is not None else []
    fi = R.ix.find_method(R.cls, "_" + kind)
    return where_of(ev[-1]) if ev else c.where(fi) if fi is not None else c.where(R.ix.find_method(R.cls, "dispatch"))


def run(c, judge):
    R = Renderer(c)
    seen = set()
    for kind, shape, refs, raw in list(cases()) + list(argument_cases(c.tier == "thorough")):
        seen.add(kind)
        with c.section(f"{c.pid}:{kind}"):
            for verdict, s, o in R.render(kind, **shape):
                judge(R, kind, shape, refs, raw, verdict, s, o)
    c.stats["shapes"] = R.runs
    c.stats["kinds"] = len(seen)
    return R, seen


def check(c):
    ix = c.ix

    def judge(R, kind, shape, refs, raw, verdict, s, o):
        w = where_unparse(c, R, kind, o)
        name = f"{kind} ({shape_name(shape)})"
        key = f"C12:{kind}"
        if verdict == "unknown":
            c.unknown(key, w, f"{name}: {s}")
        elif verdict == "fails":
            c.bad(key + ":fails", w, f"unparsing a {name} {s}")
        else:
            got = children(s)
            accepted = [children(r) for r in refs]
            if got in accepted and kind in VALUED:
                # parts that are no nodes or names: levels, constants, conversions, operators
                norm = (lambda x: x.strip()) if raw else tokens
                text, want = norm(s), [norm(r) for r in refs]
                c.require(key + ":value", text in want, w, f"{name} is rendered as  {text if raw else ' '.join(text)}  instead of  {want[0] if raw else ' '.join(want[0])}")
                return
            if got in accepted:
                c.ok(key, w, f"{name}: {len(got)} parts rendered")
                return
            want = accepted[0]
            lost = [x for x in want if want.count(x) > got.count(x)]
            twice = [x for x in got if got.count(x) > want.count(x)]
            c.bad(key, w, f"{name}: " + ("; ".join(([f"{', '.join(dict.fromkeys(lost))} not rendered"] if lost else []) + ([f"{', '.join(dict.fromkeys(twice))} rendered more than once or though absent"] if twice else []))))
    R, seen = run(c, judge)
    # every kind of the grammar is in the table (a rendering for each)
    kinds = {k for s in SUMS for k in members()[s]} | set(PRODUCTS)
    for k in sorted(kinds - NOT_CODE):
        if k not in seen:
            # no reference: at least there must be a method for it
            c.require("C12:kinds:" + k, ix.find_method(R.cls, "_" + k) is not None, c.where(ix.find_method(R.cls, "dispatch")), f"there is no rendering for {k}")
        else:
            c.ok("C12:kinds:" + k, "", f"{k} is rendered")
    primitives(c, R, "C12")
    # lists and markers
    fi = ix.find_method(R.cls, "dispatch")
    T = ("param", fi.params()[1])
    with c.section("C12:list"):
        for o in c.paths(fi, facts={("isinst", T, frozenset(["builtins.list"])): True}, opaque=["dispatch"]):
            w = at(c, fi, o)
            for lp in [e for e in o.state.trace if e.kind == "endloop" and e.a == T]:
                ds = [e for _, e in call_events(o.state.trace, "dispatch") if argof(e, "tree", 0) == ("elem", T, lp.b)]
                c.require("C12:list", len(ds) == 1, w, "the elements of a list are not each rendered once")
    with c.section("C12:marker"):
        am = frozenset(["mcpyrate.markers.ASTMarker"])
        n = 0
        for o in c.paths(fi, inline=["astmarker", "write_astmarker_field_value"], opaque=["dispatch", "fill", "enter", "leave", "maybe_colorize"],
                         facts={("isinst", T, am): True, ("isinst", T, frozenset(["builtins.list"])): False, attr(("param", "self"), "debug"): False}, max_paths=20000):
            w = at(c, fi, o)
            c.require("C12:marker:total", o.kind == "return", w, "rendering a marker raises")
            body = attr(T, "body")
            shown = [e for _, e in call_events(o.state.trace, "dispatch", "write", "repr")]
            direct = any(contains(v, body) for e in shown for _, v in e.b) or any(e.kind == "loop" and contains(e.a, body) for e in o.state.trace)
            loops = [e for e in o.state.trace if e.kind == "loop"]
            fieldloop = [e for e in loops if is_call(e.a, "iter_fields") or contains(e.a, attr(T, "_fields"))]
            for lp in fieldloop:
                n += 1
                empty = any(e.kind == "assume" and e.b and e.a[0] == "isinst" and "builtins.list" in e.a[2] and contains(e.a[1], lp.a) for e in o.state.trace)
                for e in loops:
                    if e is not lp and e.a[0] == "sub" and e.a[2][0] == "slice" and contains(e.a[1], lp.a) and e.a[2] != ("slice", NONE, NONE, NONE):
                        c.bad("C12:marker:items", where_of(e), f"of a list in a field of a marker only {show(e.a)[:40]} is rendered")
                used = empty or any(any(contains(v, lp.a) and lp is not e for _, v in e.b) for e in shown) or any(e is not lp and contains(e.a, lp.a) for e in loops)
                c.require("C12:marker:fields", used, where_of(lp), "the value of a field of a marker is not rendered")
            if not fieldloop:
                single = [e for e in o.state.trace if e.kind == "assume" and e.b and e.a[0] == "cmp" and e.a[1] == "Eq" and const("body") in e.a[2:]]
                if single:
                    n += 1
                    direct = direct or any(e.kind == "assume" and e.b and e.a == ("isinst", body, frozenset(["builtins.list"])) for e in o.state.trace)
                    c.require("C12:marker:body", direct or None, w, "the body of a marker is not rendered")
        c.require("C12:marker:exercised", True if n else None, c.where(fi), "")
    c.floor(400)


def outermost(c, R, pid):
    """All of the tree that is given is rendered, and all that is rendered is given back."""
    ix = c.ix
    fi = ix.find_method(R.cls, "__init__")
    T = ("param", fi.params()[1])
    L = frozenset(["builtins.list"])
    for islist in (True, False):
        with c.section(f"{pid}:root"):
            for o in returns(c.paths(fi, facts={("isinst", T, L): islist}, opaque=["dispatch"], selfcls=R.cls.qualname)):
                w = at(c, fi, o)
                ds = [e for _, e in call_events(o.state.trace, "dispatch")]
                whole = [e for e in ds if argof(e, "tree", 0) == T]
                loops = [e for e in o.state.trace if e.kind == "loop" and contains(e.a, T)]
                if whole:
                    c.require(f"{pid}:root", len(ds) == 1 or None, w, "the tree is rendered more than once")
                elif islist and loops:
                    for lp in loops:
                        sliced = any(x[0] == "sub" and x[2][0] == "slice" and x[1] == T for x in subterms(lp.a) if isinstance(x, tuple) and len(x) == 3)
                        part = sliced and not lp.a[2] == ("slice", NONE, NONE, NONE)
                        c.require(f"{pid}:root", False if part else True if lp.a == T else None, w, f"of the list of trees only {show(lp.a)[:40]} is rendered")
                elif islist:
                    pass
                else:
                    c.require(f"{pid}:root", None if ds else False, w, "a tree is not rendered")
    for name in ("unparse",):
        fi = ix.func("mcpyrate.unparser." + name)
        with c.section(f"{pid}:text"):
            for o in returns(c.paths(fi)):
                v, w = o.value, at(c, fi, o)
                cut = False
                while is_call(v, "strip", "rstrip", "lstrip") and v[1][0] in ("attr", "bound") and not v[2]:
                    v = v[1][1]
                if is_call(v, "getvalue"):
                    c.ok(f"{pid}:text", w, "all that was written is returned")
                else:
                    cut = v[0] == "sub" or is_call(v, "replace", "translate", "lower", "upper", "partition", "removeprefix", "removesuffix", "join") or is_call(v, "strip", "rstrip", "lstrip")
                    c.require(f"{pid}:text", False if cut and any(is_call(x, "getvalue") for x in subterms(v)) and (v[0] == "sub") else None, w, f"what was written is returned as {show(v)[:60]}")
    fi = ix.funcs.get("mcpyrate.unparser.interleave")
    if fi is not None:
        F = ("param", fi.params()[1])
        with c.section(f"{pid}:interleave"):
            for o in c.paths(fi, may_raise=lambda t, it, st: t[0] == "call" and t[1] == F):
                for i, e in enumerate(o.state.trace):
                    if e.kind != "callraise" or e.a != F:
                        continue
                    h = next((x for x in o.state.trace[i + 1:] if x.kind == "except"), None)
                    if h is None or not isinstance(h.node, ast.ExceptHandler):
                        c.ok(f"{pid}:interleave", where_of(e), "errors get out")
                        continue
                    ts = h.node.type.elts if isinstance(h.node.type, ast.Tuple) else [h.node.type]
                    names = {ast.unparse(t) if t is not None else "BaseException" for t in ts}
                    c.require(f"{pid}:interleave", False if names & {"Exception", "BaseException"} and o.kind == "return" else True, where_of(h), "an error while rendering an item is swallowed, and the item lost")


def primitives(c, R, pid):
    """The pieces that everything else is written with."""
    ix = c.ix
    outermost(c, R, pid)
    S = ("param", "self")
    for name in ("write", "fill", "enter", "leave", "maybe_colorize", "maybe_colorize_python_keyword"):
        fi = ix.find_method(R.cls, name)
        if fi is None:
            c.unknown(f"{pid}:{name}", "", "no such method")
            continue
        with c.section(f"{pid}:{name}"):
            for o in c.paths(fi):
                w = at(c, fi, o)
                tr = o.state.trace
                if o.kind != "return":
                    c.bad(f"{pid}:{name}", w, f"{name} raises")
                    continue
                writes = [(e, argof(e, "text", 0, "arg0")) for e in tr if e.kind == "call" and (callee(e.a) or "").rsplit(".", 1)[-1] == "write"]
                text = ("param", "text")
                if name == "write":
                    c.require(f"{pid}:write", len(writes) == 1 and writes[0][1] == text, w, "what is written is not written as given, once")
                elif name == "fill":
                    c.require(f"{pid}:fill", writes and writes[0][1][0] in ("const", "fstr") and show(writes[0][1]).strip("'\"f").startswith("\\n"), w, "a new statement does not begin a new line")
                    c.require(f"{pid}:fill", writes and contains(writes[-1][1], text) and sum(contains(x, text) for _, x in writes) == 1, w, "the text that begins a line is not written once, last")
                    ind = [x for _, y in writes for x in subterms(y) if isinstance(x, tuple) and x and contains(x, attr(S, "_indent"))]
                    c.require(f"{pid}:fill:depth", False if any(is_call(x, "builtins.min", "builtins.max", "builtins.bool") or x[0] == "op" and x[1] in ("Mod", "FloorDiv", "Sub", "BitAnd") for x in ind) else True, w, "the indentation is not that of the nesting")
                    c.require(f"{pid}:fill", sum(contains(x, attr(S, "_indent")) for _, x in writes) == 1 or None, w, "the line is not indented")
                elif name in ("enter", "leave"):
                    d = 1 if name == "enter" else -1
                    ind = attr(S, "_indent")
                    sets = [e for e in tr if e.kind == "setattr" and e.b == "_indent"]
                    c.require(f"{pid}:{name}", (len(sets) == 1 and sets[0].c in (("op", "Add", ind, const(d)), ("op", "Sub", ind, const(-d)))) if sets else None, w, f"{name} does not change the indentation by one level")
                    if name == "enter":
                        c.require(f"{pid}:enter", len(writes) == 1 and show(writes[0][1]).strip("'\" ") == ":", w, "a block does not begin with a colon")
                else:
                    v = o.value
                    while is_call(v, "colorize", "maybe_colorize"):
                        v = argof(v, "text", 0)
                    c.require(f"{pid}:{name}", v == text, w, f"coloring changes the text to {show(v)[:40]}")
