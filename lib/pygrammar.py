"""Reference renderings: for every kind of node and shape, the token sequences that mean that node.

Written from the Python language reference. ⟦x⟧ is the rendering of a child, ⟨x⟩ an identifier of the node itself, ¶ the
start of a line, ⇥ and ⇤ the limits of an indented block.
"""
import itertools

from .render import N, V

OPS = {"Add": "+", "Sub": "-", "Mult": "*", "MatMult": "@", "Div": "/", "Mod": "%", "LShift": "<<", "RShift": ">>",
       "BitOr": "|", "BitXor": "^", "BitAnd": "&", "FloorDiv": "//", "Pow": "**"}
CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not",
       "In": "in", "NotIn": "not in"}
UN = {"Invert": "~", "Not": "not ", "UAdd": "+", "USub": "-"}
BOOL = {"And": "and", "Or": "or"}


def ch(f, n=None):
    return f"⟦{f}⟧" if n is None else [f"⟦{f}{i}⟧" for i in range(n)]


def tx(f, n=None):
    return f"⟨{f}⟩" if n is None else [f"⟨{f}{i}⟩" for i in range(n)]


def block(f, n=1):
    return ": ⇥ " + " ".join(ch(f, n)) + " ⇤"


def seq(f, n, sep=", "):
    return sep.join(ch(f, n))


X = [True]


def cases():
    """-> (kind, shape, [accepted renderings], exact text?)"""
    def case(kind, shape, *refs, raw=False):
        return kind, shape, refs, raw

    for k in ("Module", "Interactive"):
        for n in (0, 1, 2):
            yield case(k, {"body": X * n}, " ".join(ch("body", n)))
    yield case("Expression", {}, "⟦body⟧")
    # statements
    yield case("Expr", {}, "¶ ⟦value⟧")
    for n in (1, 2, 3):
        yield case("Import", {"names": X * n}, "¶ import " + seq("names", n))
        yield case("Delete", {"targets": X * n}, "¶ del " + seq("targets", n))
        yield case("Global", {"names": X * n}, "¶ global " + ", ".join(tx("names", n)))
        yield case("Nonlocal", {"names": X * n}, "¶ nonlocal " + ", ".join(tx("names", n)))
        yield case("Assign", {"targets": X * n}, "¶ " + "".join(t + " = " for t in ch("targets", n)) + "⟦value⟧")
        for lv in (0, 1, 2, 3):
            yield case("ImportFrom", {"names": X * n, "level": V(lv)}, "¶ from " + "." * lv + "⟨module⟩ import " + seq("names", n))
            if lv:
                yield case("ImportFrom", {"names": X * n, "level": V(lv), "module": None}, "¶ from " + "." * lv + " import " + seq("names", n))
    for v in (True, None):
        tail = " = ⟦value⟧" if v else ""
        yield case("AnnAssign", {"target": N("Name", opaque=True), "simple": V(1), "value": v}, "¶ ⟦target⟧: ⟦annotation⟧" + tail)
        yield case("AnnAssign", {"target": N("Name", opaque=True), "simple": V(0), "value": v}, "¶ (⟦target⟧): ⟦annotation⟧" + tail)
        for k in ("Attribute", "Subscript"):
            yield case("AnnAssign", {"target": N(k, opaque=True), "simple": V(0), "value": v},
                       "¶ (⟦target⟧): ⟦annotation⟧" + tail, "¶ ⟦target⟧: ⟦annotation⟧" + tail)
        yield case("Return", {"value": v}, "¶ return" + (" ⟦value⟧" if v else ""))
        yield case("Yield", {"value": v}, "(yield" + (" ⟦value⟧" if v else "") + ")")
        yield case("Assert", {"msg": v}, "¶ assert ⟦test⟧" + (", ⟦msg⟧" if v else ""))
        yield case("Raise", {"cause": v}, "¶ raise ⟦exc⟧" + (" from ⟦cause⟧" if v else ""))
    for op, s in OPS.items():
        yield case("AugAssign", {"op": N(op)}, f"¶ ⟦target⟧ {s}= ⟦value⟧")
        yield case("BinOp", {"op": N(op)}, f"(⟦left⟧ {s} ⟦right⟧)")
    yield case("Pass", {}, "¶ pass")
    yield case("Break", {}, "¶ break")
    yield case("Continue", {}, "¶ continue")
    yield case("Await", {}, "(await ⟦value⟧)")
    yield case("YieldFrom", {}, "(yield from ⟦value⟧)")
    yield case("Raise", {"exc": None, "cause": None}, "¶ raise")
    for k, star in (("Try", ""), ("TryStar", "*")):
        for nb, nh, no, nf in itertools.product((1, 2), (0, 1, 2), (0, 1, 2), (0, 1, 2)):
            if nh == 0 and (k == "TryStar" or nf == 0 or no) or nb + nh + no + nf > 6:
                continue
            hs = [N("ExceptHandler", type=True, name=(None if i else True), body=X) for i in range(nh)]
            s = "¶ try" + block("body", nb)
            for i in range(nh):
                s += f" ¶ except{star} ⟦handlers{i}.type⟧" + ("" if i else f" as ⟨handlers{i}.name⟩") + block(f"handlers{i}.body", 1)
            if no:
                s += " ¶ else" + block("orelse", no)
            if nf:
                s += " ¶ finally" + block("finalbody", nf)
            yield case(k, {"body": X * nb, "handlers": hs, "orelse": X * no, "finalbody": X * nf}, s)
    # a handler inside the body of another kind of try
    inner = N("Try", body=X, handlers=[N("ExceptHandler", type=None, name=None, body=X)])
    yield case("TryStar", {"body": [inner], "handlers": [N("ExceptHandler", type=True, name=None, body=[
        N("Try", body=X, handlers=[N("ExceptHandler", type=None, name=None, body=X)])]), N("ExceptHandler", type=True, name=None, body=X)]},
        "¶ try: ⇥ ¶ try" + block("body0.body") + " ¶ except" + block("body0.handlers0.body") + " ⇤ ¶ except* ⟦handlers0.type⟧: ⇥ ¶ try" +
        block("handlers0.body0.body") + " ¶ except" + block("handlers0.body0.handlers0.body") + " ⇤ ¶ except* ⟦handlers1.type⟧" + block("handlers1.body"))
    for n in (1, 2):
        yield case("ExceptHandler", {"type": None, "name": None, "body": X * n}, "¶ except" + block("body", n))
        yield case("ExceptHandler", {"name": None, "body": X * n}, "¶ except ⟦type⟧" + block("body", n))
        yield case("ExceptHandler", {"body": X * n}, "¶ except ⟦type⟧ as ⟨name⟩" + block("body", n))

    def tp(n):
        return f"[{seq('type_params', n)}]" if n else ""

    def decos(n):
        return "".join(f"¶ @{d} " for d in ch("decorator_list", n))
    for nd, nt, nb, nk, body in itertools.product((0, 1, 2), (0, 1, 2), (0, 1, 2), (0, 1, 2), (1, 2)):
        args = ch("bases", nb) + ch("keywords", nk)
        refs = [decos(nd) + "¶ class ⟨name⟩" + tp(nt) + a + block("body", body) for a in ([f"({', '.join(args)})"] if args else ["", "()"])]
        yield case("ClassDef", {"decorator_list": X * nd, "type_params": X * nt, "bases": X * nb, "keywords": X * nk, "body": X * body}, *refs)
    for k, kw in (("FunctionDef", "def"), ("AsyncFunctionDef", "async def")):
        for nd, nt, r, body in itertools.product((0, 1, 2), (0, 1, 2), (True, None), (1, 2)):
            yield case(k, {"decorator_list": X * nd, "type_params": X * nt, "returns": r, "body": X * body},
                       decos(nd) + f"¶ {kw} ⟨name⟩" + tp(nt) + "(⟦args⟧)" + (" -> ⟦returns⟧" if r else "") + block("body", body))
    for nb, no in itertools.product((1, 2), (0, 1, 2)):
        els = " ¶ else" + block("orelse", no) if no else ""
        yield case("For", {"body": X * nb, "orelse": X * no}, "¶ for ⟦target⟧ in ⟦iter⟧" + block("body", nb) + els)
        yield case("AsyncFor", {"body": X * nb, "orelse": X * no}, "¶ async for ⟦target⟧ in ⟦iter⟧" + block("body", nb) + els)
        yield case("While", {"body": X * nb, "orelse": X * no}, "¶ while ⟦test⟧" + block("body", nb) + els)
        stm = [N("Pass", opaque=True)] * no
        yield case("If", {"body": X * nb, "orelse": stm}, "¶ if ⟦test⟧" + block("body", nb) + els)
    def iff(p, els):
        return f"if ⟦{p}test⟧" + block(p + "body") + els
    for els, refs in (([], [""]), ([N("Pass", opaque=True)], [" ¶ else: ⇥ ⟦orelse0.orelse0⟧ ⇤"])):
        inner = N("If", body=X, orelse=els)
        for r in refs:
            yield case("If", {"body": X, "orelse": [inner]},
                       "¶ " + iff("", " ¶ el" + iff("orelse0.", r)), "¶ " + iff("", " ¶ else: ⇥ ¶ " + iff("orelse0.", r) + " ⇤"))
    yield case("If", {"body": X, "orelse": [N("If", opaque=True, body=X), N("Pass", opaque=True)]}, "¶ if ⟦test⟧" + block("body") + " ¶ else" + block("orelse", 2))
    yield case("If", {"body": X, "orelse": [N("Pass", opaque=True), N("If", opaque=True, body=X)]}, "¶ if ⟦test⟧" + block("body") + " ¶ else" + block("orelse", 2))
    deep = N("If", body=X, orelse=[N("If", body=X, orelse=[N("Pass", opaque=True)])])
    d2 = " ¶ el" + iff("orelse0.orelse0.", " ¶ else: ⇥ ⟦orelse0.orelse0.orelse0⟧ ⇤")
    yield case("If", {"body": X, "orelse": [deep]}, "¶ " + iff("", " ¶ el" + iff("orelse0.", d2)))
    for k, kw in (("With", "with"), ("AsyncWith", "async with")):
        for n, b in itertools.product((1, 2, 3), (1, 2)):
            yield case(k, {"items": X * n, "body": X * b}, f"¶ {kw} " + seq("items", n) + block("body", b),
                       f"¶ {kw} (" + seq("items", n) + ")" + block("body", b))
    # expressions
    yield case("NamedExpr", {}, "(⟦target⟧ := ⟦value⟧)")
    for n in (0, 1, 2, 3):
        yield case("List", {"elts": X * n}, f"[{seq('elts', n)}]")
        yield case("Set", {"elts": X * n}, "{" + (seq("elts", n) or "*()") + "}")
        yield case("Tuple", {"elts": X * n}, f"({seq('elts', n)}" + ("," if n == 1 else "") + ")", *([f"({seq('elts', n)},)"] if n > 1 else []))
        yield case("Call", {"args": X * n}, f"⟦func⟧({seq('args', n)})")
        for m in (1, 2):
            yield case("Call", {"args": X * n, "keywords": X * m}, f"⟦func⟧({', '.join(ch('args', n) + ch('keywords', m))})")
        for ks in itertools.product((True, None), repeat=n):
            pairs = [f"⟦keys{i}⟧: ⟦values{i}⟧" if k else f"**⟦values{i}⟧" for i, k in enumerate(ks)]
            yield case("Dict", {"keys": list(ks), "values": X * n}, "{" + ", ".join(pairs) + "}")
    for n in (1, 2):
        g = " ".join(ch("generators", n))
        yield case("ListComp", {"generators": X * n}, f"[⟦elt⟧ {g}]")
        yield case("GeneratorExp", {"generators": X * n}, f"(⟦elt⟧ {g})")
        yield case("SetComp", {"generators": X * n}, f"{{⟦elt⟧ {g}}}")
        yield case("DictComp", {"generators": X * n}, f"{{⟦key⟧: ⟦value⟧ {g}}}")
    for a, n in itertools.product((0, 1), (0, 1, 2)):
        yield case("comprehension", {"is_async": V(a), "ifs": X * n}, (" async" if a else "") + " for ⟦target⟧ in ⟦iter⟧" + "".join(f" if {x}" for x in ch("ifs", n)))
    yield case("IfExp", {}, "(⟦body⟧ if ⟦test⟧ else ⟦orelse⟧)")
    for op, s in UN.items():
        yield case("UnaryOp", {"op": N(op)}, f"({s}⟦operand⟧)")
    for op, s in CMP.items():
        yield case("Compare", {"ops": [N(op)], "comparators": X}, f"(⟦left⟧ {s} ⟦comparators0⟧)")
        yield case("Compare", {"ops": [N("Lt"), N(op)], "comparators": X * 2}, f"(⟦left⟧ < ⟦comparators0⟧ {s} ⟦comparators1⟧)")
    for op, s in BOOL.items():
        for n in (2, 3):
            yield case("BoolOp", {"op": N(op), "values": X * n}, "(" + f" {s} ".join(ch("values", n)) + ")")
    yield case("Name", {}, "⟨id⟩")
    yield case("Attribute", {"value": N("Name", opaque=True)}, "⟦value⟧.⟨attr⟩")
    yield case("Attribute", {"value": N("Constant", opaque=True, value=V(3), kind=None)}, "⟦value⟧ .⟨attr⟩", "(⟦value⟧).⟨attr⟩", raw=True)
    yield case("Starred", {}, "*⟦value⟧")
    yield case("Subscript", {"slice": N("Name", opaque=True)}, "⟦value⟧[⟦slice⟧]")
    yield case("Subscript", {"slice": N("Slice", opaque=True)}, "⟦value⟧[⟦slice⟧]")
    for n in (0, 1, 2, 3):
        elts = ch("slice.elts", n)
        s = ", ".join(elts) + ("," if n == 1 else "")
        yield case("Subscript", {"slice": N("Tuple", elts=X * n)}, *([f"⟦value⟧[{s}]"] if n else ["⟦value⟧[()]", "⟦value⟧[⟦slice⟧]"]))
    for lo, up, st in itertools.product((True, None), repeat=3):
        l, u = "⟦lower⟧" if lo else "", "⟦upper⟧" if up else ""
        yield case("Slice", {"lower": lo, "upper": up, "step": st}, f"{l}:{u}:⟦step⟧" if st else f"{l}:{u}", *([] if st else [f"{l}:{u}:"]))
    for v, s in ((3, "3"), (0, "0"), (1.5, "1.5"), (2j, "2j"), ("a", "'a'"), ("a'b\n", repr("a'b\n")), (b"x", "b'x'"), (None, "None"), (True, "True"),
                 (False, "False"), (..., "..."), ("", "''")):
        yield case("Constant", {"value": V(v), "kind": None}, s, *([f"({s})"] if not isinstance(v, (str, bytes)) else []), raw=True)
    for v in (-3, -1.5, -2j):
        yield case("Constant", {"value": V(v), "kind": None}, f"({v!r})", repr(v) if repr(v).startswith("(") else f"({v!r})", raw=True)
    inf = ("1e309", "(1e309)")
    yield case("Constant", {"value": V(float("inf")), "kind": None}, *inf, raw=True)
    yield case("Constant", {"value": V("a"), "kind": V("u")}, "u'a'", raw=True)
    # f-strings
    nm = N("Name", opaque=True)
    for conv, s in ((-1, ""), (115, "!s"), (114, "!r"), (97, "!a")):
        yield case("FormattedValue", {"value": nm, "conversion": V(conv), "format_spec": None}, "f'{⟦value⟧" + s + "}'", raw=True)
        fv = N("FormattedValue", value=nm, conversion=V(conv), format_spec=N("JoinedStr", values=[N("Constant", value=V(">4"), kind=None)]))
        yield case("JoinedStr", {"values": [N("Constant", value=V("x"), kind=None), fv]}, "f'x{⟦values1.value⟧" + s + ":>4}'", raw=True)
    nested = N("FormattedValue", value=nm, conversion=V(-1), format_spec=N("JoinedStr", values=[N("FormattedValue", value=nm, conversion=V(-1), format_spec=None)]))
    yield case("JoinedStr", {"values": [nested]}, "f'{⟦values0.value⟧:{⟦values0.format_spec.values0.value⟧}}'", raw=True)
    yield case("JoinedStr", {"values": []}, "f''", raw=True)
    for k in ("Dict", "Set", "DictComp", "SetComp"):
        yield case("JoinedStr", {"values": [N("FormattedValue", value=N(k, opaque=True), conversion=V(-1), format_spec=None)]},
                   "f'{ ⟦values0.value⟧}'", "f'{(⟦values0.value⟧)}'", raw=True)
    for k in ("Dict", "Set", "DictComp", "SetComp"):
        inner = N(k, opaque=True)
        for outer in (N("Subscript", opaque=True, value=inner), N("Attribute", opaque=True, value=inner), N("Call", opaque=True, func=N("Attribute", opaque=True, value=inner)),
                      N("Subscript", opaque=True, value=N("Subscript", opaque=True, value=inner))):
            yield case("JoinedStr", {"values": [N("FormattedValue", value=outer, conversion=V(-1), format_spec=None)]},
                       "f'{ ⟦values0.value⟧}'", "f'{(⟦values0.value⟧)}'", raw=True)
    for v, s in (("a{b}c", "a{{b}}c"), ("a'b", "a\\'b"), ("a\nb", "a\\nb"), ("a\\b", "a\\\\b"), ("\r", "\\r")):
        yield case("JoinedStr", {"values": [N("Constant", value=V(v), kind=None)]}, f"f'{s}'", raw=True)
    # arguments
    yield case("arg", {"annotation": None}, "⟨arg⟩")
    yield case("arg", {}, "⟨arg⟩: ⟦annotation⟧")
    yield case("keyword", {}, "⟨arg⟩=⟦value⟧")
    yield case("keyword", {"arg": None}, "**⟦value⟧")
    yield case("alias", {"asname": None}, "⟨name⟩")
    yield case("alias", {}, "⟨name⟩ as ⟨asname⟩")
    yield case("withitem", {"optional_vars": None}, "⟦context_expr⟧")
    yield case("withitem", {}, "⟦context_expr⟧ as ⟦optional_vars⟧")
    none = dict(vararg=None, kwarg=None)
    yield case("Lambda", {"args": N("arguments", **none)}, "(lambda: ⟦body⟧)")
    one = N("arg", annotation=None)
    for f in ("posonlyargs", "args", "kwonlyargs"):
        s = {"posonlyargs": "⟨args.posonlyargs0.arg⟩, /", "args": "⟨args.args0.arg⟩", "kwonlyargs": "*, ⟨args.kwonlyargs0.arg⟩"}[f]
        yield case("Lambda", {"args": N("arguments", **none, **{f: [one]}, **({"kw_defaults": [None]} if f == "kwonlyargs" else {}))}, f"(lambda {s}: ⟦body⟧)")
    yield case("Lambda", {"args": N("arguments", vararg=one, kwarg=None)}, "(lambda *⟨args.vararg.arg⟩: ⟦body⟧)")
    yield case("Lambda", {"args": N("arguments", vararg=None, kwarg=one)}, "(lambda **⟨args.kwarg.arg⟩: ⟦body⟧)")
    # patterns
    for n, in ((1,), (2,)):
        yield case("Match", {"cases": X * n}, "¶ match ⟦subject⟧: ⇥ " + " ".join(ch("cases", n)) + " ⇤")
        for g in (True, None):
            gs = " if ⟦guard⟧" if g else ""
            yield case("match_case", {"pattern": N("MatchValue", opaque=True), "guard": g, "body": X * n}, "¶ case ⟦pattern⟧" + gs + block("body", n))
            yield case("match_case", {"pattern": N("MatchOr", opaque=True), "guard": g, "body": X * n}, "¶ case ⟦pattern⟧" + gs + block("body", n), "¶ case (⟦pattern⟧)" + gs + block("body", n))
    yield case("MatchValue", {}, "⟦value⟧")
    for v in (None, True, False):
        yield case("MatchSingleton", {"value": V(v)}, repr(v))
    yield case("MatchStar", {"name": None}, "*_")
    yield case("MatchStar", {}, "*⟨name⟩")
    for n in (0, 1, 2):
        yield case("MatchSequence", {"patterns": X * n}, f"[{seq('patterns', n)}]", *([f"({seq('patterns', n)},)"] if n else ["()"]))
        for r in (True, None):
            items = [f"⟦keys{i}⟧: ⟦patterns{i}⟧" for i in range(n)] + (["**⟨rest⟩"] if r else [])
            yield case("MatchMapping", {"keys": [N("Constant", opaque=True)] * n, "patterns": X * n, "rest": r}, "{" + ", ".join(items) + "}")
        for m in (0, 1, 2):
            items = ch("patterns", n) + [f"⟨kwd_attrs{i}⟩=⟦kwd_patterns{i}⟧" for i in range(m)]
            yield case("MatchClass", {"patterns": X * n, "kwd_attrs": X * m, "kwd_patterns": X * m}, f"⟦cls⟧({', '.join(items)})")
    # numeric literals are the only compound keys; they take no parentheses
    number = N("Constant", opaque=True)
    minus = N("UnaryOp", op=N("USub"), operand=number)
    yield case("MatchMapping", {"keys": [N("Attribute", opaque=True)], "patterns": X, "rest": None}, "{⟦keys0⟧: ⟦patterns0⟧}")
    yield case("MatchMapping", {"keys": [minus], "patterns": X, "rest": None}, "{-⟦keys0.operand⟧: ⟦patterns0⟧}")
    for op, sign in (("Add", "+"), ("Sub", "-")):
        yield case("MatchMapping", {"keys": [N("BinOp", left=number, op=N(op), right=number)], "patterns": X, "rest": None}, "{⟦keys0.left⟧ %s ⟦keys0.right⟧: ⟦patterns0⟧}" % sign)
    yield case("MatchMapping", {"keys": [N("BinOp", left=minus, op=N("Add"), right=number)], "patterns": X, "rest": None}, "{-⟦keys0.left.operand⟧ + ⟦keys0.right⟧: ⟦patterns0⟧}")
    yield case("MatchAs", {"pattern": None, "name": None}, "_")
    yield case("MatchAs", {"pattern": None}, "⟨name⟩")
    simple = N("MatchValue", opaque=True)
    named, orp = N("MatchAs", pattern=simple), N("MatchOr", patterns=[simple, simple])
    capture = N("MatchAs", pattern=None)

    def orpat(p):
        return f"⟦{p}.patterns0⟧ | ⟦{p}.patterns1⟧"
    yield case("MatchAs", {"pattern": simple}, "⟦pattern⟧ as ⟨name⟩")
    yield case("MatchAs", {"pattern": orp}, f"({orpat('pattern')}) as ⟨name⟩", f"{orpat('pattern')} as ⟨name⟩")
    yield case("MatchAs", {"pattern": named}, "(⟦pattern.pattern⟧ as ⟨pattern.name⟩) as ⟨name⟩")
    for n in (2, 3):
        yield case("MatchOr", {"patterns": [simple] * n}, seq("patterns", n, " | "))
    yield case("MatchOr", {"patterns": [simple, orp]}, f"⟦patterns0⟧ | ({orpat('patterns1')})")
    yield case("MatchOr", {"patterns": [named, simple]}, "(⟦patterns0.pattern⟧ as ⟨patterns0.name⟩) | ⟦patterns1⟧")
    yield case("MatchOr", {"patterns": [simple, capture]}, "⟦patterns0⟧ | ⟨patterns1.name⟩", "⟦patterns0⟧ | (⟨patterns1.name⟩)")
    # type parameters
    for n in (0, 1, 2):
        yield case("TypeAlias", {"type_params": X * n}, "¶ type ⟦name⟧" + tp(n) + " = ⟦value⟧")
    yield case("TypeVar", {"bound": None}, "⟨name⟩")
    yield case("TypeVar", {}, "⟨name⟩: ⟦bound⟧")
    yield case("ParamSpec", {}, "**⟨name⟩")
    yield case("TypeVarTuple", {}, "*⟨name⟩")


def argument_cases(deep=False):
    """Parameter lists."""
    size = (0, 1, 2)
    for npo, na, nk in itertools.product(size, size, size):
        for nd in range(npo + na + 1):
            for va, kw in itertools.product((False, True), repeat=2):
                for kwd in itertools.product((True, None), repeat=nk):
                    if not deep and npo + na + nk > 4:
                        continue
                    arg = N("arg", annotation=None)
                    ann = N("arg")
                    parts = []
                    for i in range(npo + na):
                        if i == npo and npo:
                            parts.append("/")
                        p = f"posonlyargs{i}" if i < npo else f"args{i - npo}"
                        d = i - (npo + na - nd)
                        parts.append(f"⟨{p}.arg⟩" + (f"=⟦defaults{d}⟧" if d >= 0 else ""))
                    if npo and not na:
                        parts.append("/")
                    if va:
                        parts.append("*⟨vararg.arg⟩: ⟦vararg.annotation⟧")
                    elif nk:
                        parts.append("*")
                    for i, d in enumerate(kwd):
                        parts.append(f"⟨kwonlyargs{i}.arg⟩" + (f"=⟦kw_defaults{i}⟧" if d else ""))
                    if kw:
                        parts.append("**⟨kwarg.arg⟩")
                    yield ("arguments", {"posonlyargs": [arg] * npo, "args": [arg] * na, "defaults": X * nd, "vararg": ann if va else None,
                                         "kwonlyargs": [arg] * nk, "kw_defaults": list(kwd), "kwarg": N("arg", annotation=None) if kw else None},
                           (", ".join(parts),), False)
    ann = N("arg")
    yield ("arguments", {"posonlyargs": [ann], "args": [ann], "defaults": X * 2, "vararg": None, "kwonlyargs": [ann] * 2, "kw_defaults": [True, None], "kwarg": None},
           ("⟨posonlyargs0.arg⟩: ⟦posonlyargs0.annotation⟧=⟦defaults0⟧, /, ⟨args0.arg⟩: ⟦args0.annotation⟧=⟦defaults1⟧, *, "
            "⟨kwonlyargs0.arg⟩: ⟦kwonlyargs0.annotation⟧=⟦kw_defaults0⟧, ⟨kwonlyargs1.arg⟩: ⟦kwonlyargs1.annotation⟧",), False)
    yield ("arguments", {"args": X, "vararg": N("arg", annotation=None), "kwarg": N("arg")}, ("⟦args0⟧, *⟨vararg.arg⟩, **⟨kwarg.arg⟩: ⟦kwarg.annotation⟧",), False)
