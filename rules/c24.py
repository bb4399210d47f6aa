"""Finding dialect-imports in text never harms the rest of the text.

Rule: the pattern whose matches are taken for dialect-imports is extracted from the source and decided as a language, on its
automaton: no accepted string contains a newline, no match can begin inside a line or stop before the end of it, every dialect-import
line in the documented form is accepted, and nothing else than a dialect-import is. On every path of the finder the statement that is
parsed is the matched text, it was not seen before and is remembered under the same text, a match that was seen before makes the
search go on with the next match, and the search gives up only when there are no more matches; the location is counted from the text
before the match. The text itself passes through a stage unchanged except for what dialects return.
"""
import ast
import re

from lib import relang
from lib.interp import NONE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, where_of

P = lambda n: ("param", n)
S = P("self")
DE = "mcpyrate.dialects.DialectExpander"
DOC = r"from[ \t]+\.*[a-zA-Z_][0-9a-zA-Z_]*(\.[a-zA-Z_][0-9a-zA-Z_]*)*[ \t]+import dialects,[ \t]+[a-zA-Z_][0-9a-zA-Z_]*([ \t]*,[ \t]*[a-zA-Z_][0-9a-zA-Z_]*)*[ \t]*"
LIB = r"from\s+\S+\s+import\s+dialects\s*,.*"
ALTERS = ("replace", "lower", "casefold", "upper", "lstrip", "strip", "expandtabs", "translate", "swapcase")
CUTS = ("split", "rsplit", "partition", "rpartition", "replace", "lower", "removesuffix", "removeprefix", "upper", "casefold")
FINDS = ("finditer", "search", "match", "findall", "fullmatch", "scanner")


def compiled(ix, t, mod):
    """(pattern, flags, node) of the compiled pattern a term stands for"""
    node = None
    if t[0] == "ref" and t[1].startswith(mod.name + "."):
        name = t[1][len(mod.name) + 1:]
        for st in mod.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in st.targets):
                node = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
                node = st.value
        if not isinstance(node, ast.Call):
            return None
        args = list(node.args) + [k.value for k in node.keywords]
        if not args or not ast.unparse(node.func).endswith("compile"):
            return None
        p, fl = strconst(args[0], mod), 0
        for a in args[1:]:
            fl |= flags(a)
        return p, fl, node
    return None


def strconst(n, mod):
    try:
        return ast.literal_eval(n)
    except ValueError:
        pass
    if isinstance(n, ast.Name):
        for st in mod.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == n.id for x in st.targets):
                return strconst(st.value, mod)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        return strconst(n.left, mod) + strconst(n.right, mod)
    raise ValueError("pattern is no constant")


def flags(n):
    v = 0
    modules = {x.value.id for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)}
    for x in ast.walk(n):
        if isinstance(x, ast.Attribute):
            v |= int(getattr(re, x.attr))
        elif isinstance(x, ast.Name) and x.id not in modules:
            v |= int(getattr(re, x.id))
        elif isinstance(x, ast.Constant):
            v |= x.value
    return v


def language(c, pat, fl, where):
    try:
        n, d, l = relang.NFA(pat, fl), relang.NFA(DOC), relang.NFA(LIB, re.S)
        line = dict(start_prev=(None, "\n"), ends=(None, "\n"))
        r = relang.find(n, lambda a, nl: a[0] and nl, **line)
        c.require("C24:pattern:one-line", r is None, where, f"a match can extend over several lines: {r[1]!r}" if r else "")
        r = relang.find(n, lambda a, nl: a[0], start_prev=("x", " "), ends=(None, "\n"))
        c.require("C24:pattern:line-start", r is None, where, f"a match can begin inside of a line, after {r[0]!r}" if r else "")
        r = relang.stops_short(n)
        c.require("C24:pattern:whole-line", r is None, where, f"a match {r[0]!r} can end before the rest of the line, {r[1]!r}" if r else "")
        r = relang.find(d, lambda a, nl: a[0] and not a[1], [n], **line)
        c.require("C24:pattern:complete", r is None, where, f"the dialect-import {r[1]!r} is not found" if r else "")
        r = relang.find(n, lambda a, nl: a[0] and not a[1], [l], **line)
        c.require("C24:pattern:only", r is None, where, f"{r[1]!r} is taken for a dialect-import" if r else "")
        c.stats["automaton_states"] = len(n.eps)
    except relang.Unsupported as e:
        c.unknown("C24:pattern", where, f"pattern construct: {e}")


def check(c):
    ix = c.ix
    fi = ix.find_method(DE, "find_dialectimport_source")
    ps = None
    if fi is None:
        c.unknown("C24:finder", DE, "no such method")
        c.floor(0)
        return
    X = P(fi.params()[1])
    mod = fi.module
    its = []
    with c.section("C24:finder"):
        def mr(t, interp=None, state=None):
            return is_call(t, "builtins.next")
        outs = c.paths(fi, iters=its, may_raise=mr, opaque=["get_macros"])
        pats, handled = {}, set()
        for o in list(outs):
            for e in o.state.trace:
                if e.kind in ("call", "callraise") and finding(e.c):
                    pats.setdefault(finding(e.c), (e, where_of(e)))
                    t = argof(e.c, "string", 0)
                    if t is not None:
                        c.require("C24:whole-text", True if t == X else False if t[0] == "sub" and t[1] == X or is_call(t, *ALTERS) and t[1][0] == "attr" and t[1][1] == X else None, where_of(e), f"dialect-imports are looked for in {show(t)[:60]}")
                    pos = argof(e.c, "pos", 1)
                    if (e.c[1][0] == "attr" or e.c[1][0] == "ref" and not e.c[1][1].startswith("re.")) and pos is not None:
                        c.require("C24:whole-text", False if pos[0] == "const" and pos != const(0) else True if pos == const(0) else None, where_of(e), f"dialect-imports are looked for from position {show(pos)[:40]} on")
        if not pats:
            c.unknown("C24:pattern", c.where(fi), "no pattern search recognised")
        for p, (e, w) in pats.items():
            r = compiled(ix, p, mod)
            if r is None or not isinstance(r[0], str):
                c.unknown("C24:pattern", w, f"the pattern is {show(p)[:60]}")
                continue
            language(c, r[0], r[1], f"{mod.file}:{r[2].lineno}" if hasattr(mod, "file") else w)
        n = 0
        for o in outs:
            f, tr, w, v = o.state.facts, o.state.trace, at(c, fi, o), o.value
            if o.kind != "return":
                continue
            if v == NONE:
                stop = any(e.kind == "callraise" and is_call(e.c, "builtins.next") for e in tr) or not any(e.kind == "endloop" and e.c in ("return", "break") for e in tr)
                unseen = [b for k, b in seen_facts(f)]
                c.require("C24:gives-up", stop, w, "the search ends although there are more matches")
                continue
            n += 1
            prs = [e for e in tr if e.kind == "call" and is_call(e.c, "ast.parse")]
            if len(prs) != 1:
                c.unknown("C24:statement", w, f"{len(prs)} parses")
                continue
            st = argof(prs[0], "source", 0)
            grp = [x for x in subterms(st) if is_call(x, "group")] or [x for x in subterms(st) if isinstance(x, tuple) and len(x) == 3 and x[0] == "sub" and x[2] == const(0)]
            pre = not grp and st is not None and st[0] == "sub" and st[1] == X and st[2][0] == "slice" and (st[2][1] in (NONE, const(0)) or st[2][2] == NONE)
            c.require("C24:statement", False if pre else True if grp and (not grp[0][2] or argof(grp[0], 0) == const(0) or grp[0][0] == "sub") else False if grp else None, where_of(prs[0], w), f"what is parsed is {show(st)[:60]}, not the matched line")
            cut = grp and [x for x in subterms(st) if isinstance(x, tuple) and x and x[0] == "call" and x[1][0] == "attr" and x[1][2] in CUTS and contains(x[1][1], grp[0])]
            if grp:
                c.require("C24:statement", False if cut else True, where_of(prs[0], w), f"what is parsed is {show(st)[-60:]}, not the whole of the matched line")
            sf = seen_facts(f)
            sf = [(k, b) for k, b in sf if contains(k[2], grp[0])] if grp else sf
            c.require("C24:unseen", True if any(b is False for _, b in sf) else False if not sf and not any(contains(k, grp[0]) for k in f) else None, w, "a dialect-import that was seen before is found again")
            for k, b in sf:
                if any(isinstance(x, tuple) and len(x) == 3 and x[0] == "sub" and is_call(x[1], "split", "rsplit", "partition", "rpartition") for x in subterms(k[2])):
                    c.bad("C24:seen:key", w, f"what was seen before is decided by a part of the statement: {show(k[2])[:60]}")
                c.require("C24:seen:key", k[2] == st or (False if k[2] != st and contains(k[2], grp[0]) and any(is_call(x, "group") and x[2] and argof(x, 0) not in (None, const(0)) for x in subterms(k[2])) else None), w, f"what was seen before is decided by {show(k[2])[:60]}")
                adds = [e for e in tr if e.kind == "call" and e.c[1][0] in ("attr", "bound") and e.c[1][-1].rsplit(".", 1)[-1] in ("add", "append") and e.c[1][1] == k[3]]
                c.require("C24:seen:remembered", True if any(argof(e, 0) == k[2] for e in adds) else False if adds or not any(contains(e.c, k[3]) for e in tr if e.kind in ("call", "setattr", "setitem") and e.c is not None) else None, w, "a dialect-import that is found is not remembered as seen")
            if v[0] == "tuple" and len(v[1]) == 4:
                ln = v[1][2]
                if ln[0] == "op" and ln[1] == "Add":
                    cnt = [x for x in (ln[2], ln[3]) if is_call(x, "count")]
                    k = [x for x in (ln[2], ln[3]) if x[0] == "const"]
                    if cnt and k:
                        sl = [x for x in subterms(cnt[0]) if isinstance(x, tuple) and x and x[0] == "slice"]
                        c.require("C24:location", True if k[0] == const(1) and argof(cnt[0], 0) == const("\n") and (sl and any(is_call(x, "start") for x in subterms(sl[0][2])) or len(cnt[0][2]) == 3) else False if k[0] != const(1) or argof(cnt[0], 0) != const("\n") or not sl or any(is_call(x, "end") for x in subterms(sl[0])) else None, w, f"the line number is {show(ln)[:80]}")
                    else:
                        c.unknown("C24:location", w, show(ln)[:60])
                else:
                    c.require("C24:location", False if is_call(ln, "count") else None, w, f"the line number is {show(ln)[:80]}")
        for it, serial, k, st, fid in its:
            body = st.trace[max(i for i, e in enumerate(st.trace) if e.kind == "loop" and e.b == serial):]
            if any(e.kind == "callraise" for e in body):
                continue
            f = {e.a: e.b for e in body if e.kind == "assume"}
            sf = [(kk, b) for kk, b in seen_facts(f)]
            w = where_of(next((e for e in reversed(body) if e.node is not None), None), c.where(fi))
            if any(b for _, b in sf):
                c.require("C24:skips-seen", k in ("next", "continue"), w, "the search ends at a dialect-import that was seen before")
        c.require("C24:exercised", n > 0 or None, c.where(fi), "")
    with c.section("C24:text"):
        f2 = ix.find_method(DE, "transform_source")
        X2 = P(f2.params()[1])
        for o in c.paths(f2, inline=["DialectExpander._transform"]):
            if o.kind != "return":
                continue
            v, w = o.value, at(c, f2, o)
            while v[0] == "carried":
                v = v[3]
            src = [x for x in subterms(v) if is_call(x, "transform_source")]
            c.require("C24:text", True if v == X2 else False if contains(v, X2) and not src and v[0] in ("call", "op", "sub", "fstr") else None, w, f"text without dialect-imports becomes {show(v)[:80]}")
        its = []
        c.paths(f2, inline=["DialectExpander._transform"], iters=its)
        for it, serial, k, st, fid in its:
            for e in st.trace:
                if e.kind == "call" and e.c[1][0] in ("attr", "bound") and "find_dialectimport" in e.c[1][2]:
                    t = argof(e.c, "text", "tree", "content", 0)
                    u = t or ("?",)
                    while u[0] == "carried":
                        u = u[3]
                    c.require("C24:text:scanned", True if u == X2 else None, where_of(e), f"dialect-imports are looked for in {show(t)[:60]}")
    c.floor(6)


def finding(t):
    """the pattern that is searched for"""
    f = t[1]
    if f[0] == "attr" and f[2] in FINDS:
        return f[1]
    if f[0] == "ref" and f[1].rsplit(".", 1)[-1] in FINDS and "." in f[1]:
        return ref(f[1].rsplit(".", 1)[0])
    return None


def seen_facts(f):
    return [(k, b) for k, b in f.items() if isinstance(k, tuple) and k[0] == "cmp" and k[1] == "In" and k[3][0] in ("attr", "new")]
