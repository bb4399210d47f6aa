"""The abstract grammar of the running Python, from the ast module's own class descriptions."""
import ast
import functools

TERMINALS = {"identifier", "string", "int", "constant"}


@functools.lru_cache(None)
def fields():
    """{class: [(field, type, quantifier)]} for concrete node classes; quantifier '', '?' or '*'."""
    out = {}
    for k in dir(ast):
        cls = getattr(ast, k)
        if not (isinstance(cls, type) and issubclass(cls, ast.AST)) or cls.__module__ not in ("ast", "_ast"):
            continue
        doc = " ".join((cls.__doc__ or "").split())
        if "=" in doc or "|" in doc or k in ("AST", "Num", "Str", "Bytes", "NameConstant", "Ellipsis", "Index", "ExtSlice", "slice", "Suite", "Param", "AugLoad", "AugStore", "_ast_Ellipsis"):
            continue
        fs = []
        if "(" in doc and doc.startswith(k + "("):
            for part in doc[doc.index("(") + 1:doc.rindex(")")].split(","):
                t, n = part.split()
                q = t[-1] if t[-1] in "?*" else ""
                fs.append((n, t.rstrip("?*"), q))
        out[k] = fs
    return out


@functools.lru_cache(None)
def members():
    """{sum type: [constructors]}"""
    out = {}
    for k, fs in fields().items():
        for b in getattr(ast, k).__mro__[1:]:
            if b is ast.AST:
                break
            if b.__name__ != k:
                out.setdefault(b.__name__, []).append(k)
    for k in fields():
        out.setdefault(k, [k])
    return out


def quantifier(kind, field):
    return next((q for n, t, q in fields()[kind] if n == field), None)


def ftype(kind, field):
    return next((t for n, t, q in fields()[kind] if n == field), None)
