"""Cache cleaning deletes nothing but bytecode caches.

Rule: all paths of the listing and of the deletion (helpers inlined) are enumerated. Each path listed is the directory named `__pycache__`
of a directory reached by a walk under the given directory that follows no links, and is tested not to be a link itself. Each call that removes
something is given a listed directory, or a file or directory reached by a walk under it that follows no links; a directory entry is removed
as a directory only if it is tested not to be a link. Each listed directory, each file and each directory in it is removed. Listing calls nothing that
removes or writes; the command line deletes only if the dry run is not asked for, and then only the given directory.
"""
from lib.interp import FALSE, NONE, TRUE, attr, callee, const, contains, is_call, ref, show, subterms
from lib.q import argof, at, call_events, returns, truth, where_of
from lib.shape import P

MC = "mcpyrate.pycachecleaner."
REMOVE = ("unlink", "remove", "rmdir", "removedirs", "rmtree", "rename", "renames", "replace", "truncate", "move", "system", "run", "call", "check_call", "Popen")
CACHE = const("__pycache__")


def removing(e):
    if e.kind not in ("call", "callraise"):
        return None
    n = callee(e.a)
    if not n:
        return None
    last = n.rsplit(".", 1)[-1]
    if last not in REMOVE:
        return None
    if n.startswith(("os.", "shutil.", "subprocess.")):
        return last
    if e.a[0] == "attr" and last in ("unlink", "rmdir", "rename") and any(is_call(x, "pathlib.Path") or isinstance(x, tuple) and x and x[0] == "call" and "scandir" in str(x[1]) for x in subterms(e.a)):
        return last
    return None


def check(c):
    ix = c.ix
    ls, rm = ix.func(MC + "getpycachedirs"), ix.func(MC + "deletepycachedirs")
    with c.section("C32:list"):
        listing(c, ls)
    with c.section("C32:delete"):
        deleting(c, rm, ls)
    with c.section("C32:cli"):
        cli(c, ix.func("mcpyrate.repl.macropython.main"))
    c.floor(12)


def fact(f, *ks):
    for k, b in f.items():
        if k in ks:
            return b
    return None


def islink(f, p):
    for k, b in f.items():
        if is_call(k, "os.path.islink") and argof(k, 0) == p:
            return b
        if k[0] == "call" and k[1][0] == "attr" and k[1][2] == "is_symlink" and contains(k[1][1], p):
            return b
    return None


def walk_of(t):
    """the walk that a term is an element of: (walk call, element, path root) or None"""
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == "elem" and is_call(x[1], "os.walk", "os.fwalk"):
            return x[1], x
    return None


def follows(w):
    return next((v for k, v in w[2] if k == "followlinks" or k == 3), FALSE)


def safe_walk(c, key, w, where):
    v = follows(w)
    c.require(key, True if v == FALSE or v == NONE else False if v == TRUE else None, where, "the walk follows links out of the directory")


def caches(c, key, t, f, where):
    """a term that is listed must be a cache directory found by a walk"""
    we = walk_of(t)
    if we is None:
        walked = any(walk_of(k) for k in f)
        c.require(key + ":form", False if walked and is_call(t, "os.path.join") and not any(isinstance(x, tuple) and x and x[0] in ("elem", "opaque", "carried") for x in subterms(t)) else None, where, f"lists {show(t)[:80]}, which the walk did not find")
        return
    w, el = we
    safe_walk(c, key + ":follow", w, where)
    root, dirs, files = (("sub", el, const(i)) for i in range(3))
    if is_call(t, "os.path.join") and len(t[2]) == 2 and t[2][0][1] == root:
        name = t[2][1][1]
        if name == CACHE:
            good = fact(f, ("cmp", "In", CACHE, dirs))
            c.require(key + ":name", good if good is not None else False if any(b and k[0] == "cmp" and k[1] == "In" and k[2] == CACHE and contains(k[3], files) for k, b in f.items()) else None, where, "a name that is not among the directories")
        elif name[0] == "elem" and name[1] in (dirs, files):
            eq = fact(f, ("cmp", "Eq", name, CACHE), ("cmp", "Eq", CACHE, name))
            only = any(k[0] == "in" and b and k[1] == name and set(k[2]) == {CACHE} for k, b in f.items())
            c.require(key + ":name", True if (eq or only) and name[1] == dirs else False, where, "a directory is taken for a bytecode cache by something else than its name")
        else:
            c.require(key + ":name", False if name[0] == "const" else None, where, f"lists {show(t)[:80]}")
        c.require(key + ":link", True if islink(f, t) is False else False if islink(f, t) else None if any(contains(k, t) for k in f) else False, where, "a link named like a bytecode cache is listed, and what it points to would be cleaned")
    elif t == root:
        named = [k for k, b in f.items() if b and k[0] == "cmp" and k[1] == "Eq" and CACHE in k[2:] and contains(k, root)]
        loose = [k for k, b in f.items() if b and contains(k, root) and contains(k, CACHE)]
        c.require(key + ":name", True if named else False, where, "a directory is taken for a bytecode cache by something else than its name" if loose else "a directory that is not a bytecode cache is listed")
    else:
        c.unknown(key + ":form", where, show(t)[:80])


def listing(c, fi):
    n = 0
    helpers = [q for q in c.ix.funcs if q.startswith(MC) and q != fi.qualname]
    for o in c.paths(fi, inline=helpers):
        f, tr, w = o.state.facts, o.state.trace, at(c, fi, o)
        for e in tr:
            r = removing(e)
            if r:
                c.bad("C32:list:removes", where_of(e, w), f"listing calls {callee(e.a)}")
        if o.kind != "return":
            continue
        v = o.value
        if v is None or v[0] not in ("list", "tuple"):
            c.unknown("C32:list:form", w, show(v)[:80] if v else "")
            continue
        c.ok("C32:list:pure", w)
        for x in v[1]:
            if x[0] == "rep":
                fx = dict(f)
                for cond in (x[3] if len(x) > 3 else ()):
                    if isinstance(cond, tuple) and cond and cond[0] == "not":
                        fx[cond[1]] = False
                    elif isinstance(cond, tuple) and cond and cond[0] == "and":
                        for y in cond[1]:
                            fx[y[1] if y[0] == "not" else y] = y[0] != "not"
                    elif isinstance(cond, tuple):
                        fx[cond] = True
                n += 1
                caches(c, "C32:list", x[2], fx, w)
            else:
                n += 1
                caches(c, "C32:list", x, f, w)
    c.require("C32:list:some", n > 0 or None, c.where(fi), "")


def deleting(c, fi, ls):
    PT = P("path")
    some = 0
    helpers = [q for q in c.ix.funcs if q.startswith(MC) and q != ls.qualname]
    paths = [o for o in c.paths(fi, inline=helpers, max_paths=60000)]
    for o in paths:
        f, tr, w = o.state.facts, o.state.trace, at(c, fi, o)
        lst = next((e.c for e in tr if e.kind in ("call", "callraise") and is_call(e.c, "getpycachedirs")), None)
        if lst is None:
            inner = [e for e in tr if removing(e)]
            c.unknown("C32:delete:list", w, "") if inner else None
            for e in inner:
                we = walk_of(e.c)
                if we is not None:
                    caches(c, "C32:delete:own", argof(e.c, 0), f, where_of(e, w))
            continue
        c.require("C32:delete:under", argof(lst, "path", 0) == PT, w, f"cleans what is listed under {show(argof(lst, 'path', 0))[:60]}")
        loops = [(i, e) for i, e in enumerate(tr) if e.kind == "loop" and e.a == lst]
        if not loops:
            for e in tr:
                if removing(e):
                    c.require("C32:delete:listed", None if contains(e.c, lst) else False, where_of(e, w), f"removes {show(e.c)[:100]}, which is not listed")
            continue
        X = ("elem", lst, loops[0][1].b)
        gone = set()
        for i, e in enumerate(tr):
            if e.kind == "call" and (callee(e.a) or "") in helpers and e.c[2]:
                t = e.c[2][0][1]
                link = islink(f, t)
                c.require("C32:delete:again", False if link else None, where_of(e, w), "what a link points to is cleaned")
                gone.add(t)
            r = removing(e)
            if not r:
                continue
            t = argof(e.c, "path", 0) if e.a[0] != "attr" or e.a[1][0] == "ref" else e.a[1]
            ww = where_of(e, w)
            some += 1
            if t == X:
                gone.add(X)
                c.require("C32:delete:how", True if r in ("rmdir", "rmtree") else False if r in ("removedirs", "rename", "renames", "replace", "move", "truncate") else None, ww, f"a directory is removed by {r}")
                continue
            we = walk_of(t) if t is not None else None
            if t is None or we is None:
                c.require("C32:delete:listed", None if t is not None and contains(t, X) and t[0] != "call" else False if t is not None and not (t[0] == "call" and is_call(t, "os.path.join") and contains(t, X)) else None, ww, f"removes {show(t)[:100] if t else 'something'}, which is not inside of a listed directory")
                continue
            wk, el = we
            safe_walk(c, "C32:delete:follow", wk, ww)
            root = argof(wk, "top", 0)
            c.require("C32:delete:inside", True if root == X else None if contains(root, X) and not is_call(root, "os.path.dirname", "os.path.realpath", "os.path.join") else False, ww, f"removes what is under {show(root)[:80]}, which is not a listed directory")
            top = next((v for k, v in wk[2] if k in ("topdown", 1)), TRUE)
            dirs, files = ("sub", el, const(1)), ("sub", el, const(2))
            if is_call(t, "os.path.join") and len(t[2]) == 2 and t[2][0][1] == ("sub", el, const(0)) and t[2][1][1][0] == "elem" and t[2][1][1][1] in (dirs, files):
                isdir = t[2][1][1][1] == dirs
                gone.add(t[2][1][1])
                if isdir:
                    link = islink(f, t)
                    if r == "rmdir":
                        c.require("C32:delete:link", True if link is False else None if any(contains(k, t) for k in f) and link is None else False, ww, "a link to a directory is removed as a directory")
                        c.require("C32:delete:order", True if top == FALSE else False, ww, "a directory is removed before what it contains")
                    elif r == "rmtree":
                        c.unknown("C32:delete:dir", ww, "")
                    else:
                        c.require("C32:delete:link", True if link else False, ww, "a directory is removed as a file")
                else:
                    c.require("C32:delete:file", r in ("unlink", "remove"), ww, f"a file is removed by {r}")
            else:
                c.require("C32:delete:entry", False if is_call(t, "os.path.join") and len(t[2]) == 2 and t[2][1][1][0] == "elem" and t[2][0][1] != ("sub", el, const(0)) else None, ww, f"removes {show(t)[:100]}")
        # everything in it is removed
        if o.kind != "return" or not any(removing(e) for e in tr):
            c.require("C32:delete:all", None if o.kind != "return" else False, w, "a listed directory is not removed") if loops and not gone and o.kind == "return" else None
            continue
        skipped = any(e.kind == "except" for e in tr)
        c.require("C32:delete:self", True if X in gone else None if skipped else False, w, "a listed directory is not removed")
        tree = any(removing(e) == "rmtree" and argof(e.c, 0) == X for e in tr)
        for e in tr:
            if e.kind == "loop" and not tree and e.c != "comp":
                we = walk_of(e.a)
                if we and e.a in (("sub", we[1], const(1)), ("sub", we[1], const(2))):
                    x = ("elem", e.a, e.b)
                    c.require("C32:delete:contents", True if x in gone else None if skipped else False, where_of(e, w), "an entry of a cache directory is skipped")
    c.require("C32:delete:some", some > 0 or None, c.where(fi), "")


def cli(c, fi):
    n = 0
    for o in c.paths(fi, max_paths=60000, reads=True):
        f, tr, w = o.state.facts, o.state.trace, at(c, fi, o)
        opts = next((e.c for e in tr if e.kind == "call" and e.c[0] == "call" and e.c[1][0] == "attr" and e.c[1][2] in ("parse_args", "parse_known_args")), None)
        if opts is None:
            c.unknown("C32:cli:form", w, "")
            continue
        D, PC = attr(opts, "dry_run"), attr(opts, "path_to_clean")
        for e in tr:
            ww = where_of(e, w)
            if e.kind in ("call", "callraise") and is_call(e.c, "deletepycachedirs"):
                n += 1
                d = truth(D, f)
                c.require("C32:cli:dry", True if d is False else False, ww, "caches are deleted though a dry run is asked for")
                c.require("C32:cli:path", argof(e.c, "path", 0) == PC, ww, f"cleans {show(argof(e.c, 'path', 0))[:60]}")
                c.require("C32:cli:asked", True if truth(PC, f) else False if truth(PC, f) is False else None, ww, "caches are deleted though no cleaning is asked for")
            elif removing(e) and e.a[0] == "ref" and e.a[1].startswith(("os.", "shutil.")):
                c.bad("C32:cli:removes", ww, f"the command line calls {callee(e.a)}")
    c.require("C32:cli:some", n > 0 or None, c.where(fi), "")
