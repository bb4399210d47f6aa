"""File-to-package resolution respects directory boundaries.

Rule: every directory that the resolver returns is an element of the module search path for which, on that path of the code, it was
established by a test on path components (equality, membership among the parents, relative_to, commonpath) that it is the file or
an ancestor of it - a test on the text of the path needs the separator after the directory; entries and file are brought to the same
canonical form; the candidates are taken deepest first (or the deepest match is selected); when nothing matches an exception is
raised. The remainder of the path is the text after the directory without the separator, and the dotted name is the whole remainder
of the file's directory with each separator replaced by a dot, where an empty remainder is an error.
"""
import ast

from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, name_matches, ref, show, subterms
from lib.q import argof, at, call_events, partial, raises, returns, where_of

P = lambda n: ("param", n)
SYSPATH = ref("sys.path")
SEP = (ref("os.path.sep"), ref("os.sep"), const("/"))
CANON = ("resolve", "os.path.realpath", "os.path.abspath", "absolute")


def canonical(t):
    """canonicalising operations applied in a path term"""
    out = set()
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == "call":
            if x[1][0] in ("attr", "bound") and x[1][-1] in ("resolve", "absolute"):
                out.add(x[1][-1])
            elif is_call(x, "os.path.realpath"):
                out.add("resolve")
            elif is_call(x, "os.path.abspath"):
                out.add("absolute")
    return out


def has_sep(t):
    return any(any(x == s for s in SEP) or isinstance(x, tuple) and x and x[0] == "const" and x[1] == "str" and x[2].endswith("/") for x in subterms(t))


def path_test(k, v, root, F):
    """what the fact k == v says about `root` being an ancestor of F: True / False / None (nothing) / "text" (only textual)"""
    if not contains(k, root):
        return None
    if isinstance(k, tuple) and k[0] == "cmp":
        if k[1] == "Eq" and contains((k[2], k[3]), F) or k[1] in ("Eq", "In") and (contains(k[2], F) or contains(k[3], F)):
            if not v:
                return None
            if k[1] == "In" and k[3][0] == "attr" and k[3][2] == "parents":
                return True
            if k[1] == "In" and k[3][0] == "sub" and k[3][2][0] == "slice" and k[3][1][0] == "attr" and k[3][1][2] == "parents":
                return "some" if partial(k[3], k[3][1]) else True
            if k[1] == "In" and k[3][0] == "sub" and k[3][2][0] == "slice" and k[3][1][0] in ("list", "tuple") and partial(k[3], k[3][1]):
                return "some"
            if k[1] == "In":
                return True if k[3][0] in ("list", "tuple", "op") or any(isinstance(x, tuple) and x and x[0] == "attr" and x[2] in ("parents",) for x in subterms(k[3])) else "text" if is_call(k[3], "builtins.str") or contains(k[3], "str") else "?"
            if any(is_call(x, "os.path.commonprefix") for x in subterms(k)):
                return "text"
            sl = [x for x in subterms(k) if isinstance(x, tuple) and len(x) == 4 and x[0] == "slice"]
            if sl and not has_sep(k) and not any(isinstance(x, tuple) and x and x[0] == "attr" and x[2] == "parts" for x in subterms(k)):
                return "text"
            return True
        return "?" if v else None
    if is_call(k, "startswith"):
        if not v:
            return None
        return True if has_sep(k) else "text"
    if is_call(k, "match", "full_match", "fnmatch", "fnmatchcase", "search", "find", "count", "index"):
        return None if not v else "text"
    if is_call(k, "is_relative_to"):
        return True if v else None
    return "?"


def known(fn, e):
    """what a local variable that is assigned once stands for"""
    for _ in range(4):
        if not isinstance(e, ast.Name):
            break
        vs = [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == e.id]
        if len(vs) != 1:
            break
        e = vs[0]
    return e


def depth_key(ix, fi, t, heap):
    """of a sort key function term: 'deep' (ascending order puts the deepest first), 'shallow' (deepest last), None"""
    node = None
    if t[0] == "closure" or t[0] == "lambda":
        for x in t[1:]:
            if isinstance(x, ast.AST):
                node = x
            if hasattr(x, "node"):
                node = x.node
    if node is None:
        name = show(t)
        for x in ast.walk(fi.node):
            if isinstance(x, ast.FunctionDef) and x.name == name:
                node = x
        if node is None:
            f = ix.funcs.get(t[1]) if t[0] == "ref" else None
            node = f.node if f else None
    if node is None:
        lam = [x for x in ast.walk(fi.node) if isinstance(x, ast.Lambda)]
        node = lam[0] if len(lam) == 1 else None
    if node is None:
        return None
    if isinstance(node, ast.Lambda):
        e = node.body
    else:
        rs = [x for x in ast.walk(node) if isinstance(x, ast.Return)]
        if len(rs) != 1 or rs[0].value is None:
            return None
        e = known(node, rs[0].value)
    if isinstance(e, ast.Tuple) and e.elts:
        e = known(node, e.elts[0])
    neg = False
    while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        neg, e = not neg, known(node, e.operand)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len":
        if e.args and any(isinstance(x, ast.Attribute) and x.attr in ("name", "stem", "suffix", "anchor", "drive", "root", "suffixes") for x in ast.walk(e.args[0])):
            return "other"
        return "deep" if neg else "shallow"
    if isinstance(e, ast.Name) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "str":
        return "shallow"
    return None


def itself(c, fi, F, outs):
    """a directory that is itself an entry of the search path is matched by that entry"""
    above = []
    for o in returns(outs):
        for k, b in o.state.facts.items():
            if not b or not isinstance(k, tuple) or not contains(k, SYSPATH):
                continue
            if k[0] == "cmp" and k[1] == "In" and k[3][0] == "attr" and k[3][2] == "parents" and contains(k[3][1], F) and \
                    not any(isinstance(x, tuple) and x and (x[0] == "op" or is_call(x, "joinpath", "os.path.join", "with_name")) for x in subterms(k[3][1])):
                above.append(o)
            elif contains(k, F):
                return
        if not any(o is x for x in above):
            return
    if above:
        c.bad("C20:match:itself", at(c, fi, above[0]), "a directory that is itself an entry of the search path is not matched by it, but by one above it")


def matcher(c):
    ix = c.ix
    fi = ix.func("mcpyrate.coreutils.match_syspath")
    F = P(fi.params()[0])
    outs = c.paths(fi)
    n = 0
    itself(c, fi, F, outs)
    for o in returns(outs):
        v, f, w = o.value, o.state.facts, at(c, fi, o)
        if v == NONE:
            c.bad("C20:match:error", w, "a file outside the search path is not an error")
            continue
        if v[0] == "elem" and not contains(v, SYSPATH) and contains(v, F):
            # one of the directories of the file itself, found among the entries
            member = [k for k, t in f.items() if t and isinstance(k, tuple) and k[0] == "cmp" and k[1] == "In" and k[2] == v]
            c.require("C20:match:entry", True if any(contains(k[3], SYSPATH) for k in member) else None if member else False, w, f"returns {show(v)[:80]}, which need not be an entry of the search path")
            n += 1
            continue
        if not contains(v, SYSPATH):
            c.require("C20:match:entry", None if v[0] in ("carried", "call") else False, w, f"returns {show(v)[:80]}, which is no entry of the search path")
            continue
        n += 1
        if v[0] == "elem":
            root = v
        else:
            el = [t for t in subterms(v) if isinstance(t, tuple) and t and t[0] == "elem" and contains(t, SYSPATH)]
            root = el[0] if el else None
        if root is None or v[0] == "carried" or is_call(v, "builtins.max", "builtins.next", "builtins.min"):
            # selection from the matching ones
            if is_call(v, "builtins.max", "builtins.min"):
                k = argof(v, "key")
                d = depth_key(ix, fi, k, o.state.heap) if k is not None else None
                if d:
                    c.require("C20:match:deepest", d != "other" and (d == "shallow") == (callee(v[1]) == "builtins.max"), w, "when several directories match, the shallowest is picked")
            c.unknown("C20:match:ancestor", w, f"returns {show(v)[:80]}")
            continue
        says = [(k, path_test(k, t, root, F)) for k, t in f.items()]
        got = [s for _, s in says if s is not None]
        if True in got:
            c.ok("C20:match:ancestor", w, "an ancestor by path components")
        elif "some" in got:
            c.bad("C20:match:ancestor", w, "only some of the directories above the file are considered")
        elif "text" in got:
            c.bad("C20:match:ancestor", w, "a directory is picked because its path is a textual prefix of the file's")
        else:
            rel = [e for e in o.state.trace if e.kind == "call" and is_call(e.c, "relative_to", "os.path.commonpath", "os.path.relpath", "os.path.samefile") and contains(e.c, root)]
            c.require("C20:match:ancestor", None if rel or "?" in got else False, w, "an entry is picked without a test that it is an ancestor of the file")
        # canonical forms
        ce = canonical(root)
        tests = [k for k, s in says if s is True]
        cf = set()
        for k in tests:
            for x in subterms(k):
                if isinstance(x, tuple) and x and x[0] == "call" and contains(x, F) and not contains(x, SYSPATH):
                    cf |= canonical(x)
        ce2 = set(ce)
        for k in tests:
            for x in subterms(k):
                if isinstance(x, tuple) and x and x[0] == "call" and contains(x, root) and not contains(x, F):
                    ce2 |= canonical(x)
        if tests:
            c.require("C20:match:canonical", ("resolve" in cf) == ("resolve" in ce2) or (None if not cf and not ce2 else False), w,
                      f"the file is {'resolved' if 'resolve' in cf else 'not resolved'} but the entries of the search path are {'' if 'resolve' in ce2 else 'not'}: they do not match through links")
        E = lambda k: isinstance(k, tuple) and len(k) > 1 and k[0] == "elem" and k[1] == SYSPATH
        cut = [x for x in subterms(root) if isinstance(x, tuple) and len(x) == 4 and x[0] == "rep" and isinstance(x[3], tuple) and
               any(E(k) or isinstance(k, tuple) and len(k) == 2 and k[0] == "not" and isinstance(k[1], tuple) and k[1][:1] == ("cmp",) and k[1][1] == "Eq" and const("") in k[1][2:] and any(E(y) for y in k[1][2:]) for k in x[3])]
        c.require("C20:match:entries", not cut, w, "the empty entry of the search path, which stands for the current directory, is left out")
        # order
        it = root[1]
        rev = False
        inplace = [e for e in o.state.trace if e.kind == "call" and e.a[0] in ("attr", "bound") and e.a[-1] in ("sort", "reverse")]
        if inplace and not is_call(it, "builtins.sorted"):
            c.unknown("C20:match:deepest", where_of(inplace[-1], w), "sorted in place")
            continue
        while it[0] == "reversed" or is_call(it, "builtins.reversed"):
            rev, it = not rev, it[1] if it[0] == "reversed" else argof(it, 0)
        if is_call(it, "builtins.sorted"):
            k, r = argof(it, "key"), argof(it, "reverse")
            if r == TRUE:
                rev = not rev
            d = depth_key(ix, fi, k, o.state.heap) if k is not None and k != NONE else "shallow"
            if r is not None and r not in (TRUE, FALSE) or d is None:
                c.unknown("C20:match:deepest", w, show(it)[:60])
            else:
                c.require("C20:match:deepest", d != "other" and (d == "deep") != rev, w, "when several directories match, the shallowest is picked")
        elif it == SYSPATH or it[0] == "list" and any(contains(x, SYSPATH) for x in it[1]):
            # first match in search path order, if it is returned from within the loop
            inloop = any(e.kind == "endloop" and e.c == "return" and contains(e.a, SYSPATH) for e in o.state.trace)
            c.require("C20:match:deepest", False if inloop else None, w, "the first matching entry in the order of the search path is picked, not the deepest")
        elif it[0] == "attr" and it[2] == "parents" or contains(it, "parents"):
            c.ok("C20:match:deepest", w, "parents are tried from the inside")
        else:
            c.unknown("C20:match:deepest", w, show(it)[:60])
        src = [t for t in subterms(it) if isinstance(t, tuple) and len(t) == 3 and t[0] == "sub" and t[1] == SYSPATH]
        c.require("C20:match:all", False if src else True, w, f"only {show(src[0])[:40] if src else ''} is considered")
    c.require("C20:match:exercised", n > 0 or None, c.where(fi), "no path returns an entry")
    rs = raises(outs)
    c.require("C20:match:raises", True if rs else None, c.where(fi), "no path raises")


def relativizer(c):
    ix = c.ix
    fi = ix.func("mcpyrate.coreutils.relativize")
    F = P(fi.params()[0])
    MS = "mcpyrate.coreutils.match_syspath"
    for o in returns(c.paths(fi)):
        v, f, w = o.value, o.state.facts, at(c, fi, o)
        if v[0] not in ("tuple", "list") or len(v[1]) != 2:
            c.unknown("C20:relativize", w, show(v)[:80])
            continue
        root, rel = v[1]
        c.require("C20:relativize:root", is_call(root, MS) and contains(root, F) or (None if contains(root, F) else False), w, f"the directory returned is {show(root)[:60]}")
        above = [t for t in subterms(rel) if is_call(t, "os.path.relpath", "relative_to") and any(x == attr(root, "parent") for x in subterms(t))]
        c.require("C20:relativize:start", not above, w, "the remainder is relative to the directory above the entry")
        full = canonical(rel)
        c.require("C20:relativize:canonical", "resolve" in full or None, w, "")
        if is_call(rel, "builtins.str", "as_posix", "os.fspath") and any(is_call(t, "relative_to") for t in subterms(rel)) or is_call(rel, "os.path.relpath"):
            dot = any(contains(k, const(".")) or contains(k, root) for k in f)
            c.require("C20:relativize:root-itself", None if dot else False, w, "for a file that is an entry of the search path itself, the remainder is '.' instead of empty")
            continue
        if rel == const(""):
            continue
        # abs[len(str(root)):] with the separator removed
        t, cut = rel, 0
        stripped = None
        if is_call(t, "lstrip", "removeprefix", "strip"):
            stripped = argof(t, 0)
            if stripped is not None and stripped not in SEP and any(isinstance(x, tuple) and x and x[0] == "const" and x[1] == "str" and set(x[2]) - {"/"} for x in subterms(stripped)):
                c.bad("C20:relativize:stripped", w, f"characters of the first or last directory name are stripped: {show(rel)[-60:]}")
            t = t[1][1]
        if t[0] == "sub" and t[2][0] == "slice" and not contains(t[2][1], root):
            lo = t[2][1]
            cut = 1 if lo in (const(1),) or is_call(lo, "builtins.len") and argof(lo, 0) in SEP else None
            t = t[1]
        if t[0] == "sub" and t[2][0] == "slice" and contains(t[2][1], root):
            lo = t[2][1]
            base = t[1]
            exact = is_call(lo, "builtins.len") and argof(lo, 0) is not None and is_call(argof(lo, 0), "builtins.str") and argof(argof(lo, 0), 0) == root
            c.require("C20:relativize:offset", True if exact or lo == ("op", "Add", lo[2] if lo[0] == "op" else None, const(1)) else None, w, f"cut at {show(lo)[:60]}")
            sameform = contains(base, F)
            c.require("C20:relativize:base", True if sameform else None, w, show(base)[:60])
            starts = [x for k, x in f.items() if is_call(k, "startswith") and contains(k, t)]
            if exact:
                if cut == 1:
                    c.require("C20:relativize:separator", True if starts == [True] else False if not starts or starts == [False] else None, w, "a first character is cut off that need not be the separator")
                elif cut is None:
                    c.require("C20:relativize:separator", None if not t else None, w, f"cut by {show(rel)[:60]}")
                elif stripped is None:
                    c.require("C20:relativize:separator", True if starts == [False] else False if starts == [True] or not starts else None, w, "the remainder keeps the separator at its beginning")
            elif lo[0] == "op" and lo[1] == "Add" and lo[3] == const(1):
                c.bad("C20:relativize:separator", w, "a character is cut off without a test that it is the separator: wrong for the root directory")
        elif any(is_call(t, "replace") and argof(t, 0) is not None and contains(argof(t, 0), root) and argof(t, "count", 2) is None for t in subterms(rel)):
            c.bad("C20:relativize:offset", w, "the path of the entry is removed wherever it occurs in the path of the file")
        else:
            c.unknown("C20:relativize:form", w, show(rel)[:80])


def resolver(c):
    ix = c.ix
    fi = ix.func("mcpyrate.coreutils.resolve_package")
    F = P(fi.params()[0])
    RL = "mcpyrate.coreutils.relativize"
    for o in returns(c.paths(fi)):
        v, f, w = o.value, o.state.facts, at(c, fi, o)
        rl = [t for t in subterms(v) if is_call(t, RL)]
        if not rl:
            c.require("C20:resolve", None if v[0] in ("call", "carried", "join") else False, w, f"the package is {show(v)[:60]}")
            continue
        rel = ("sub", rl[0], const(1))
        d = argof(rl[0], "filename", 0)
        par = [t for t in subterms(d) if isinstance(t, tuple) and t and t[0] == "attr" and t[2] in ("parent", "parents")] + [t for t in subterms(d) if is_call(t, "os.path.dirname")]
        direct = d[0] == "attr" and d[2] == "parent" or is_call(d, "os.path.dirname") or is_call(d, "builtins.str") and argof(d, 0)[0] == "attr"
        if par:
            deep = par[0][0] == "attr" and par[0][1][0] == "attr" and par[0][1][2] == "parent"
            c.require("C20:resolve:directory", False if deep or d[0] == "sub" and d[2] not in (const(0),) else True, w, "the package is that of the directory above the file's")
            # the parent of the canonical file, not the canonical parent of a link
            inner = par[0][1] if par[0][0] == "attr" else argof(par[0], 0)
            c.require("C20:resolve:canonical", "resolve" in canonical(inner) or (None if "resolve" in canonical(d) or contains(inner, "resolve") else False), w, "the directory of a file reached through a link is not that of the file")
        else:
            c.require("C20:resolve:directory", None if d[0] == "call" and not d == F and any(isinstance(x, tuple) and x and x[0] == "call" and not is_call(x, "pathlib.Path", "builtins.str", "expanduser", "resolve") for x in subterms(d)) else False, w, f"the package is computed from {show(d)[:60]}, the file instead of its directory")
        nonempty = f.get(rel)
        if nonempty is None:
            tests = [x for k, x in f.items() if isinstance(k, tuple) and contains(k, rel) and k[0] not in ("isnone", "isinst", "typeis")]
            c.require("C20:resolve:top", None if tests else False, w, "a file directly in an entry of the search path is given the empty package name")
        else:
            c.require("C20:resolve:top", nonempty, w, "a file directly in an entry of the search path is given the empty package name")
        for t in subterms(v):
            if is_call(t, "lower", "upper", "casefold", "title", "capitalize", "swapcase") and t[1][0] in ("attr", "bound") and contains(t[1][1], rel):
                c.bad("C20:resolve:case", w, f"the letter case of the directory names is changed: {show(v)[-60:]}")
            if isinstance(t, tuple) and len(t) == 3 and t[0] == "sub" and t[1] != rl[0] and contains(t[1], rel) and (t[2][0] == "slice" and partial(t, t[1]) or t[2][0] == "const"):
                c.bad("C20:resolve:whole", w, f"only some of the directories make up the package name: {show(v)[-60:]}")
        if is_call(v, "replace") and v[1][1] == rel:
            a = [x for _, x in v[2]]
            c.require("C20:resolve:dots", len(a) == 2 and a[0] in SEP and a[1] == const(".") or (None if len(a) == 2 and a[0][0] not in ("const",) and a[1] == const(".") else False), w, f"the dotted name is made by {show(v)[-60:]}")
        elif is_call(v, "replace", "lower", "casefold", "title") and contains(v, rel) and any(is_call(t, "replace") and t[1][1] == rel for t in subterms(v)):
            # a further rewriting of the dotted name
            a = [x for _, x in v[2]]
            c.require("C20:resolve:dots", False if all(x[0] == "const" for x in a) and not (len(a) == 2 and a[0] in (const("/"), const("\\"))) else None, w, f"the dotted name is changed further: {show(v)[-60:]}")
        elif is_call(v, "strip", "lstrip", "rstrip") or v[0] == "sub":
            c.unknown("C20:resolve:dots", w, show(v)[:60])
        elif v == rel:
            c.bad("C20:resolve:dots", w, "the package name contains path separators")
        else:
            c.unknown("C20:resolve:dots", w, show(v)[:60])


def check(c):
    with c.section("C20:match"):
        matcher(c)
    with c.section("C20:relativize"):
        relativizer(c)
    with c.section("C20:resolve"):
        resolver(c)
    c.floor(6)
