"""The freshness timestamp covers the file and everything it gets macros or dialects from.

Rule, on the abstract paths of the dependency scan (path_stats, with its nested scan and any new helpers inlined):
the returned mtime is a maximum that contains the file's own mtime and, on every path through the dependency loop where
the module was found, the recursive result for that module's file; the statement scan asks every top-level statement
whether it is a macro-import, a dialect-import or a phase block, records or recurses accordingly, and never stops early;
a stored record is consulted only under the assumption that its recorded mtime equals the file's; failures while
reading the record never escape; the record written contains exactly what a later run will read in place of the scan;
relative imports are resolved with the package of the file; the per-run memo is fresh for each top-level query.
"""
import ast

from lib.alias import Renamed
from rules import c31
from lib.interp import FALSE, NONE, TRUE, attr, calls, const, ref, show, subterms
from lib.q import any_call_raises, argof, at, call_events, callee, contains, is_call, last_event, partial, raises, returns, where_of

P = lambda n: ("param", n)
SAMEFILE = ("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.normcase")
PATH = P("path")


def stat_calls(t, names=("path_stats",)):
    return [x for x in subterms(t) if is_call(x, *names)]


def own_mtime(t):
    """Terms for the file's own modification time inside t."""
    for x in subterms(t):
        if x[0] == "attr" and x[2] in ("st_mtime", "st_mtime_ns") and is_call(x[1], "os.stat") and argof(x[1], 0, "path") == PATH:
            return True
        if is_call(x, "os.path.getmtime") and argof(x, 0) == PATH:
            return True
    return False


def record_terms(t):
    """Reads out of an unpickled record: {key: term}"""
    out = {}
    for x in subterms(t):
        if x[0] == "sub" and x[2][0] == "const" and any(is_call(y, "pickle.load", "pickle.loads") for y in subterms(x[1])):
            out[x[2][2]] = x
    return out


def parts(t):
    """Flatten a concatenation of lists into its parts."""
    if t[0] == "op" and t[1] == "Add":
        return parts(t[2]) + parts(t[3])
    if t[0] == "list":
        out = []
        for x in t[1]:
            if x[0] == "rep" and x[2] and x[2][0] == "elem" and x[2][1] == x[1] and not x[3] and x[1][0] in ("list", "op"):
                out += parts(x[1])
            else:
                out.append(x[2] if x[0] == "rep" else x[1] if x[0] == "star" else x)
        return out
    if t[0] == "star":
        return parts(t[1])
    return [t]


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def check(c):
    ix = c.ix
    fi = ix.func("mcpyrate.importer.path_stats")
    memo = fi.params()[1] if len(fi.params()) > 1 else None
    MEMO = P(memo) if memo else None
    facts = {("cmp", "In", PATH, MEMO): False} if memo else {}

    # the timestamp is asked for every source file outside of the standard library
    with c.section("C04:hook"):
        needed = {"C31:stats:only", "C31:stats:stdlib", "C31:stdlib:pruned", "C31:stdlib:third-party"}
        c31.stats(Renamed(c, lambda k: "C04:hook" + k[3:] if k in needed or k in ("C31:stats", "C31:stdlib") else None), ix)
    with c.section("C04:path_stats"):
        ps = c.paths(fi, max_paths=40000)
        nret = nrec = nscan = nmeta = 0
        fresh_lists, cached_lists = set(), set()
        written = []
        followed = {}
        for o in returns(ps):
            tr = o.state.trace
            f = o.state.facts
            # ---- memo hit
            if o.value[0] == "sub" and o.value[2] == PATH and not call_events(tr, "os.stat"):
                c.require("C04:memo-hit", any(k[0] == "cmp" and k[1] == "In" and k[2] == PATH and v for k, v in f.items()), at(c, fi, o),
                          "a memoised result is returned without checking that it is this file's")
                continue
            nret += 1
            v = o.value
            if v[0] == "sub" and v[1] == MEMO and not call_events(tr, "os.stat"):
                c.require("C04:memo-hit", None if is_call(v[2], *SAMEFILE) else False if contains(v[2], PATH) else None, at(c, fi, o),
                          f"results are memoised under {show(v[2])[:80]}, which other files share")
                continue
            if v[0] == "dict":
                d = {k[2]: x for k, x in v[1] if k is not None and k[0] == "const"}
                m = d.get("mtime")
            else:
                m = None
            if m is None:
                c.unknown("C04:result", at(c, fi, o), f"result {show(v)[:80]} not understood")
                continue
            cut = [x for x in subterms(m) if x[0] == "sub" and x[1][0] in ("list", "new") and partial(x, x[1])]
            c.require("C04:maximum", not cut, at(c, fi, o), f"only some of the timestamps are considered: {show(m)[:140]}")
            c.require("C04:own-mtime", own_mtime(m), at(c, fi, o), f"the timestamp {show(m)[:140]} does not take the file's own modification time into account")
            bad = [x for x in subterms(m) if is_call(x, "builtins.min")]
            c.require("C04:maximum", not bad, at(c, fi, o), "the timestamp is computed with min()")
            low = [x for x in subterms(m) if is_call(x, "builtins.int", "builtins.round", "math.floor", "math.trunc") and any(is_call(y, "path_stats", "os.path.getmtime") or y[0] == "attr" and y[2] == "st_mtime" for y in subterms(x))]
            low += [x for x in subterms(m) if x[0] == "op" and x[1] == "FloorDiv"]
            for x in low:
                c.bad("C04:rounded", at(c, fi, o), f"the timestamp {show(x)[:100]} is rounded down, so it is older than the file that it was taken from")
            # ---- dependency loop
            rec = [(i, e) for i, e in call_events(tr, "path_stats", raising=False)]
            for i, e in rec:
                nrec += 1
                ok = contains(m, e.c)
                nest = any(x[0] == "carried" for x in subterms(m))
                c.require("C04:dependency-counted", ok or (None if nest else False), where_of(e),
                          f"the timestamp {show(m)[:140]} leaves out the dependency {show(argof(e, 'path', 0))[:80]}")
                if len(rec) == 1:
                    mx = [x for x in subterms(m) if is_call(x, "builtins.max")]
                    c.require("C04:maximum", any(contains(x, e.c) and own_mtime(x) for x in mx) or (None if nest or not mx else False), where_of(e),
                              "the timestamp is not the maximum over the file and its dependencies")
                if memo:
                    c.require("C04:memo-passed", argof(e, memo, 1) not in (None, NONE), where_of(e),
                              "the recursion does not pass on the files already visited, so cyclic dependencies never end")
            specs = [e for _, e in call_events(tr, "find_spec", raising=False)]
            for e in specs:
                found = f.get(e.c)
                if found is None and ("isnone", e.c) in f:
                    found = not f[("isnone", e.c)]
                origins = [argof(r, "path", 0) for _, r in rec]
                if found:
                    org = f.get(attr(e.c, "origin"))
                    if org is None and ("isnone", attr(e.c, "origin")) in f:
                        org = not f[("isnone", attr(e.c, "origin"))]
                    c.require("C04:dependency-followed", attr(e.c, "origin") in origins or (None if org is False else False), where_of(e),
                              "a module that provides macros or dialects is found but its file's timestamp is not followed")
                # relative resolution
                name = argof(e, 0, "name")
                rn = [x for x in subterms(name) if is_call(x, "resolve_name")]
                pk = argof(e, 1, "package")
                if rn:
                    pk = argof(rn[0], 1, "package")
                    nm = argof(rn[0], 0, "name")
                else:
                    nm = name
                c.require("C04:dependency-name", any(x[0] == "attr" and x[2] == "module" for x in subterms(nm)) and any(x[0] == "attr" and x[2] == "level" for x in subterms(nm)),
                          where_of(e), f"the dependency looked for is {show(nm)[:120]}; it must be the imported module at the import's relative level")
                haspk = any(is_call(x, "resolve_package") for x in subterms(pk)) if pk else False
                if haspk:
                    rp = [x for x in subterms(pk) if is_call(x, "resolve_package")][0]
                    c.require("C04:relative-package", argof(rp, "filename", 0) == PATH, where_of(e), "relative imports are resolved against another file's package")
                else:
                    # allowed only where the path assumes that no relative import is present
                    lv = [k for k, v2 in f.items() if v2 is False and (any(x[0] == "attr" and x[2] == "level" for x in subterms(k)) or
                          (k[0] == "sub" and k[2][0] == "const" and "relative" in str(k[2][2])))]
                    for k in lv:
                        if is_call(k, "builtins.any", "builtins.all"):
                            c.require("C04:relative-asked", is_call(k, "builtins.any"), where_of(e), "the package is left out although only some of the imports are absolute")
                    c.require("C04:relative-package", bool(lv), where_of(e), "a possibly relative import is resolved without the file's package")
            # iterated import list
            for e in tr:
                if e.kind == "loop" and e.c is None and specs and any(contains(x.b, ("elem", e.a, e.b)) or any(contains(y, ("elem", e.a, e.b)) for y in subterms(x.c)) for x in specs):
                    (cached_lists if record_terms(e.a) else fresh_lists).add(e.a)
            # ---- record
            recs = {}
            for e in tr:
                if e.kind == "loop":
                    recs.update(record_terms(e.a))
            if recs:
                ok = any(k[0] == "cmp" and k[1] == "Eq" and v2 and mtime_pair(k[2], k[3]) for k, v2 in f.items())
                c.require("C04:record-valid", ok, at(c, fi, o), "a stored dependency record is used on a path that does not establish that it was made for the file's current modification time")
                opens = [e for _, e in call_events(tr, "builtins.open", raising=False)]
                c.require("C04:record-own", bool(opens) and any(is_call(x, "cache_from_source") and argof(x, 0, "path") == PATH for x in subterms(opens[0].c)),
                          at(c, fi, o), "the stored record that is used belongs to another file") if opens else None
            for e in tr:
                if e.kind == "call" and name_of(e) == "pickle.dump":
                    written.append((argof(e, 0, "obj"), e, o))
            # ---- scan
            nscan += scan(c, fi, o, followed)
        for (kind, w), (ok, ev) in followed.items():
            c.require("C04:scan-followed", ok, w, f"no path follows a {kind} import found at the top level")
        # ---- what is written is what is read
        for data, e, o in written[:400]:
            if data is None or data[0] != "dict":
                c.unknown("C04:record-written", where_of(e), "record of unknown shape")
                continue
            d = {k[2]: v for k, v in data[1] if k is not None and k[0] == "const"}
            st = [k for k, v in d.items() if v[0] == "attr" and v[2] == "st_mtime_ns" and is_call(v[1], "os.stat") and argof(v[1], 0) == PATH]
            need = set()
            for p in ps:
                for k, v in p.state.facts.items():
                    need |= set(record_terms(k))
            for l in cached_lists:
                need |= set(record_terms(l))
            miss = need - set(d)
            c.require("C04:record-written", bool(st) and not miss, where_of(e),
                      f"the stored record lacks {sorted(miss) if miss else 'the modification time'} that a later run relies on")
            # lists of a fresh scan vs. what reading this record back would give, on this path
            loops = {ev.a for ev in o.state.trace if ev.kind == "loop" and ev.c is None}
            for cl in list(cached_lists)[:1]:
                got = subst(cl, {t: d[k] for k, t in record_terms(cl).items() if k in d})
                gp = parts(got)
                c.require("C04:record-complete", all(x in gp for x in scanned(o)), where_of(e),
                          "an import found by the scan is missing from the stored record")
            nmeta += 1
        c.require("C04:exercised", True if nret and nrec and nscan and nmeta else None, c.where(fi),
                  f"{nret} results, {nrec} dependencies, {nscan} scanned statements, {nmeta} records")

    # -- unreadable records are absent
    with c.section("C04:record-unreadable"):
        reading = ("pickle.load", "pickle.loads")

        def mr(t, interp, s):
            if t[0] == "call":
                if name_matches_any(t, reading):
                    return True
                if is_call(t, "builtins.open"):
                    m = argof(t, 1, "mode")
                    return m is None or (m[0] == "const" and "r" in m[2])
            return False
        n = 0
        for o in c.paths(fi, may_raise=mr, max_paths=60000, assume_events=False):
            cr = [e for e in o.state.trace if e.kind == "callraise"]
            if not cr:
                continue
            n += 1
            escaped = o.kind == "raise" and o.value == ("exc", cr[-1].c)
            c.require("C04:record-unreadable", not escaped, where_of(cr[0]), "a failure while reading the stored record escapes instead of causing a fresh scan")
            if o.kind == "return" and not escaped:
                c.require("C04:record-rescan", bool(call_events(o.state.trace, "ast.parse", "parse")) and
                          not any(record_terms(e.a) for e in o.state.trace if e.kind == "loop"), at(c, fi, o),
                          "after failing to read the stored record, the file is not scanned")
        c.require("C04:record-unreadable-exercised", True if n else None, c.where(fi), "no reading of a record found")

    # -- fresh memo per query
    with c.section("C04:memo"):
        args = fi.node.args
        if memo:
            dflt = args.defaults[-1] if args.defaults else None
            c.require("C04:memo-default", dflt is None or isinstance(dflt, ast.Constant), c.where(fi),
                      "the memo of visited files is a mutable default shared by all queries of the process")
            for o in returns(c.paths(fi, facts={("isnone", MEMO): True}, max_paths=40000))[:200]:
                for e in o.state.trace:
                    if e.kind == "setitem" and e.b == PATH:
                        c.require("C04:memo-fresh", e.a[0] == "new" or e.a == MEMO, where_of(e), f"results are memoised in {show(e.a)[:60]}, which outlives the query")
        x = ix.func("mcpyrate.importer.path_xstats")
        n = 0
        for o in returns(c.paths(x)):
            if not call_events(o.state.trace, "importer.path_stats", raising=False):
                delegated(c, x, o)
            for _, e in call_events(o.state.trace, "importer.path_stats", raising=False):
                n += 1
                c.require("C04:query", argof(e, "path", 0) == PATH, where_of(e), "the timestamp of another file is asked for")
                c.require("C04:query-memo", memo is None or argof(e, memo) in (None, NONE) or argof(e, memo)[0] in ("dict", "new"), where_of(e),
                          "a memo shared between queries is passed in")
                c.require("C04:query-result", o.value == e.c or contains(o.value, e.c), at(c, x, o), "the computed timestamp is not what is returned")
        c.require("C04:query-exercised", True if n else None, c.where(x), "path_stats is not called by the hook")
    c.floor(150)


def delegated(c, x, o):
    """a query is left to the standard implementation only for what cannot have macros"""
    f, w = o.state.facts, at(c, x, o)
    ok, odd = False, False
    for k, b in f.items():
        if not isinstance(k, tuple) or not contains(k, PATH):
            continue
        if k[0] == "cmp" and k[1] == "In" and b and (k[2] == PATH or is_call(k[2], *SAMEFILE)) and k[3][0] != "const":
            ok = True
        elif k[0] == "call" and k[1][0] == "attr" and k[1][2] == "endswith" and not b:
            ok = True
        elif k[0] == "cmp" and k[1] in ("In", "Eq") and any(y[0] == "const" and isinstance(y[2], str) for y in k[2:]) and not any(y[0] == "call" or y[0] == "sub" for y in k[2:]) and b \
                or k[0] == "call" and k[1][0] == "attr" and k[1][2] in ("startswith", "find", "count") and b:
            odd = True
        else:
            odd = odd or None
    c.require("C04:query", True if ok else False if odd is True else None, w, "a file that may have macros is left to the standard implementation")


def name_of(e):
    return callee(e.a) or ""


def name_matches_any(t, names):
    return is_call(t, *names)


def mtime_pair(a, b):
    def cur(t):
        return t[0] == "attr" and t[2] in ("st_mtime_ns", "st_mtime") and is_call(t[1], "os.stat") and argof(t[1], 0) == PATH

    def stored(t):
        return bool(record_terms(t))
    return (cur(a) and stored(b)) or (cur(b) and stored(a))


def scanned(o):
    """Statements recognised as imports on this path."""
    out = []
    for k, v in o.state.facts.items():
        if v and is_call(k, "ismacroimport"):
            out.append(argof(k, "statement", 0))
    return out


def scan(c, fi, o, followed):
    tr = o.state.trace
    n = 0
    seen = {}
    for i, e in enumerate(tr):
        if e.kind == "assume" and is_call(e.a, "ismacroimport", "iswithphase"):
            t = argof(e.a, "statement", "stmt", 0)
            if t is None or t[0] != "elem" or not (t[1][0] == "attr" and t[1][2] == "body"):
                continue
            which = "phase" if is_call(e.a, "iswithphase") else "dialects" if argof(e.a, "magicname", 1) == const("dialects") else "macros"
            seen.setdefault(t, {})[which] = (e.b, e)
    used = [e for e in tr if e.kind == "loop" and e.c is None and ("elem", e.a, e.b) not in seen]
    for t, d in seen.items():
        n += 1
        ev = list(d.values())[0][1]
        hit = [w for w, (v, _) in d.items() if v]
        if not hit:
            asked = set(d)
            # a phase block cannot be an import, so a path that never asks may have been answered by another test
            c.require("C04:scan-asks", asked >= {"macros", "dialects", "phase"}, where_of(ev),
                      f"a top-level statement is passed over after asking only whether it is {sorted(asked)}")
        elif hit[0] in ("macros", "dialects"):
            # it must reach the list of dependencies: some later loop runs over a list containing it
            ok = any(contains(e.a, t) for e in used)
            followed.setdefault((hit[0], where_of(ev)), [False, ev])
            if not used:
                continue    # the path with no dependency to look at
            followed[(hit[0], where_of(ev))][0] |= ok
            c.require("C04:scan-records", ok, where_of(ev), f"a {hit[0]} import found at the top level does not reach the list of dependencies")
        elif hit[0] == "phase":
            rec = any(e.kind == "call" and any(v == t or contains(v, attr(t, "body")) for _, v in e.b) and "iswithphase" not in name_of(e) and "ismacroimport" not in name_of(e)
                      for e in tr if e.kind == "call") or any(e.kind == "loop" and e.a == attr(t, "body") for e in tr) \
                or any(x[0] == "carried" for e in tr if e.kind == "endloop" for x in [])
            c.require("C04:scan-phases", rec, where_of(ev), "the contents of a compile-time phase block are not scanned")
    for i, e in enumerate(tr):
        if e.kind == "endloop" and any(t == ("elem", e.a, e.b) for t in seen):
            c.require("C04:scan-all", e.c in ("next", "continue"), where_of(e), f"the scan stops early ({e.c}) before all top-level statements are seen")
    return n
