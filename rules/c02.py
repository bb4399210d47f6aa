"""sys.modules is back at its entry state on every exit of a multi-phase compile and of temporary_module.

Rule: the writes to the module table (setitem, delitem, pop, setdefault, update) on each abstract path, exceptional
edges at every call included, are replayed for the key concerned. In multiphase_expand the last write must put back the
entry read before the first write on paths where an entry existed, and must be a deletion where none did. In a client of
temporary_module, every entry and every parent attribute the creation made is deleted under the same name on every path
that leaves the block, and nothing is deleted on paths where creation failed. Only the owners may write the table.
"""
import ast

from lib.interp import NONE, attr, ref, show, const, subterms
from lib.q import any_call_raises, argof, at, call_events, callee, contains, end, name_matches, returns, where_of
from rules.c28 import dotted, part

SYSMOD = ref("sys.modules")
P = lambda n: ("param", n)

CLIENT = '''
from mcpyrate.compiler import temporary_module
def use_temporary_module(name, filename, up, body):
    with temporary_module(name, filename, update_parent=up) as module:
        body(module)
'''


def method(f):
    """the method's name, for a method of the module table"""
    if f[0] == "attr" and f[1] == SYSMOD:
        return f[2]
    if f[0] == "ref" and isinstance(f[1], str) and f[1].startswith("sys.modules."):
        return f[1][len("sys.modules."):]
    return None


def table_writes(trace):
    """[(index, 'set'|'del', key, value, event)]"""
    out = []
    for i, e in enumerate(trace):
        if e.kind == "setitem" and e.a == SYSMOD:
            out.append((i, "set", e.b, e.c, e))
        elif e.kind == "delitem" and e.a == SYSMOD:
            out.append((i, "del", e.b, None, e))
        elif e.kind == "call" and method(e.a):
            m = method(e.a)
            if m == "pop":
                out.append((i, "del", argof(e, 0), e.c, e))
            elif m in ("setdefault", "__setitem__"):
                out.append((i, "set", argof(e, 0), argof(e, 1), e))
            elif m == "__delitem__":
                out.append((i, "del", argof(e, 0), None, e))
            elif m in ("update", "clear", "popitem", "__ior__"):
                out.append((i, "?", None, None, e))
    return out


def originals(trace, key, first):
    """Terms that denote the entry under `key` as it was before the first write."""
    out = set()
    for i, e in enumerate(trace):
        if i > first:
            break
        if e.kind == "getitem" and e.a == SYSMOD and e.b == key:
            out.add(("sub", SYSMOD, key))
        if e.kind == "call" and method(e.a) in ("get", "pop") and argof(e, 0) == key:
            out.add(e.c)
    return out


def existed(o, key, origs):
    """Did an entry exist originally, as far as the path's assumptions say? True/False/None"""
    f = o.state.facts
    v = f.get(("cmp", "In", key, SYSMOD))
    if v is not None:
        return v
    for t in origs:
        if f.get(t) is True or f.get(("isnone", t)) is False:
            return True
        if f.get(t) is False or f.get(("isnone", t)) is True:
            return False
    return None


STR = {"find", "rfind", "split", "rsplit", "partition", "rpartition", "count", "startswith", "endswith", "isidentifier", "format", "join", "get"}


def breaks(t, interp=None, state=None):
    """Calls (other than of string methods and look-ups with a default) and deletions from the module table"""
    if t[0] == "delitem":
        return t[1] == SYSMOD
    if t[0] == "call" and (t[1][0] == "attr" and t[1][2] in STR or t[1] == ref("sys.modules.get") or t[1] == ref("sys.modules.pop") and len(t[2]) > 1):
        return False
    return any_call_raises(t, interp, state)


def contradicts(tr, names):
    """a question about an unchanging string is answered in two ways"""
    seen = {}
    for e in tr:
        if e.kind == "assume" and not inmod(e.a) and any(x[0] == "call" and x[1][0] == "attr" and x[1][2] in STR for x in subterms(e.a)):
            if seen.setdefault(serialless(e.a), e.b) != e.b:
                return True
    for name in names:
        if len({dotted({e.a: e.b}, name) for e in tr if e.kind == "assume" and contains(e.a, name)} - {None}) == 2:
            return True
    return False


def samename(a, b, names):
    return serialless(a) == serialless(b) or any(part(a, n) == part(b, n) != None for n in names)


def serialless(t):
    """the term with the evaluations of a call told apart no longer"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call" and len(t) == 4:
        t = t[:3]
    return tuple(serialless(x) for x in t)


def check(c):
    ix = c.ix
    key = "C02:multiphase_expand"
    with c.section(key):
        fi = ix.func("mcpyrate.multiphase.multiphase_expand")
        K = P("self_module")
        n = 0
        for o in c.paths(fi, inline=["create_module", "temporary_module"], may_raise=any_call_raises, reads=True, max_paths=60000,
                         facts={K: True, ("isinst", K, frozenset(["builtins.str"])): True}):
            tr = o.state.trace
            ws = [w for w in table_writes(tr) if w[2] == K or w[1] == "?"]
            odd = [w for w in table_writes(tr) if w[2] != K and w[1] != "?"]
            for w in odd:
                c.bad(key + ":other-key", where_of(w[4]), f"entry {show(w[2])[:80]} of the module table is written, not the compiled module's")
            if not ws:
                c.ok(key + ":untouched", at(c, fi, o), f"ends by {end(o)} without touching the table")
                continue
            n += 1
            if any(w[1] == "?" for w in ws):
                c.unknown(key + ":restored", at(c, fi, o), "bulk write to the module table")
                continue
            for e in tr:
                if e.kind == "setattr" and inmod(e.a) and e.c is not None:
                    undone = any(x.kind in ("delattr", "setattr") and x is not e and inmod(x.a) and samename(x.b, e.b, {K}) for x in tr[tr.index(e) + 1:])
                    c.require(key + ":parent", undone, where_of(e),
                              f"ending by {end(o)}, the temporary module stays an attribute of its parent package")
            first, last = ws[0], ws[-1]
            origs = originals(tr, K, first[0])
            ex = existed(o, K, origs)
            # a present entry that is falsy cannot be a module
            falsy = any(o.state.facts.get(t) is False or o.state.facts.get(("isnone", t)) is True for t in origs)
            if ex is True and falsy and o.state.facts.get(("cmp", "In", K, SYSMOD)) is True:
                continue
            good = (last[1] == "set" and last[3] in origs and ex is True) or (last[1] == "del" and ex is False) or \
                   (ex is None and last[1] == "set" and last[3] in origs and False)
            c.require(key + ":restored", good, where_of(last[4]),
                      f"ending by {end(o)}, the module table's entry for the compiled module was last "
                      + (f"set to {show(last[3])[:80]}" if last[1] == "set" else "deleted")
                      + f" although originally it {'existed' if ex else 'did not exist' if ex is False else 'may or may not have existed'}")
        c.require(key + ":injects", True if n else None, c.where(fi), "no write to the module table found")

    key = "C02:temporary_module"
    with c.section(key):
        m = ix.add_source("_client02", CLIENT)
        fi = m.functions["use_temporary_module"]
        owner = ix.func("mcpyrate.compiler.temporary_module")
        n = npub = 0
        for o in c.paths(fi, inline=["temporary_module", "create_module"], may_raise=breaks, reads=True, max_paths=60000):
            tr = o.state.trace
            ws = table_writes(tr)
            names = {w[2] for w in ws if w[2] is not None}
            if contradicts(tr, names):
                continue
            sets = [w for w in ws if w[1] == "set"]
            if any(w[1] == "?" for w in ws):
                c.unknown(key, at(c, owner, o), "bulk write to the module table")
                continue
            made = {w[2] for w in sets}
            for w in ws:
                if w[1] == "del":
                    c.require(key + ":own", w[2] in made, where_of(w[4]),
                              f"an entry {show(w[2])[:80]} of the module table is removed that the context did not create on this path")
            for w in sets:
                n += 1
                c.require(key + ":removed", any(x[1] == "del" and x[2] == w[2] and x[0] > w[0] for x in ws), at(c, owner, o),
                          f"leaving by {end(o)}, the temporary module's entry {show(w[2])[:80]} is not removed from the module table")
            # the parent's attribute
            pub = [e for e in tr if e.kind == "setattr" and inmod(e.a) and e.c is not None]
            gone = [e for e in tr if e.kind == "delattr" and inmod(e.a)]
            npub += len(pub)
            gone += [e for i, e in call_events(tr, "__delattr__", raising=False)]
            for e in pub:
                if not sets:
                    continue
                match = [g for g in gone if g.kind != "delattr" or (samename(g.b, e.b, names) and _samepkg(g.a, e.a))]
                if not match and len([x for x in tr if x.kind == "except"]) and any(t for t in tr if t.kind == "callraise" and t.a[0] == "attr" and t.a[1] == SYSMOD):
                    continue    # the lookup of the parent itself failed
                c.require(key + ":parent", bool(match), at(c, owner, o),
                          f"leaving by {end(o)}, the temporary module stays an attribute of its parent package")
            for g in gone:
                if g.kind == "delattr":
                    c.require(key + ":parent-own", any(samename(g.b, e.b, names) for e in pub), where_of(g),
                              "an attribute of the parent package is removed although the module was not published there")
        c.require(key + ":parent:exercised", True if npub else None, c.where(owner), "publishing in the parent not found")
        c.require(key + ":exercised", True if n >= 4 else None, c.where(owner), "creation paths not found")

    # -- who may write the table
    owners = {"mcpyrate.multiphase.multiphase_expand", "mcpyrate.compiler.create_module", "mcpyrate.compiler.temporary_module",
              "mcpyrate.repl.macropython.import_module_as_main"}
    n = 0
    for fi in list(ix.funcs.values()):
        if fi.parent is not None or fi.module.name.startswith("_client") or fi.qualname not in c.baseline or fi.qualname in owners:
            continue
        n += 1
        for node in ast.walk(fi.node):
            tgt = None
            if isinstance(node, ast.Subscript) and isinstance(node.ctx, (ast.Store, ast.Del)):
                tgt = node.value
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("pop", "setdefault", "update", "clear", "popitem"):
                tgt = node.func.value
            if tgt is not None and ix.resolve_expr(fi.module, tgt) == "sys.modules":
                c.bad("C02:writers", f"{fi.file}:{node.lineno}", f"{fi.qualname} writes the module table; only {', '.join(sorted(x.rsplit('.', 1)[1] for x in owners))} may")
    c.ok("C02:writers", "", f"{n} other functions do not write the module table")
    c.stats["functions_scanned_for_table_writes"] = n
    c.floor(30)


def _samepkg(a, b):
    """Both denote a lookup of the parent package in the module table."""
    return inmod(a) and inmod(b)


def inmod(t):
    """Is this an entry of the module table?"""
    return contains(t, SYSMOD) or any(x[0] == "ref" and isinstance(x[1], str) and x[1].startswith("sys.modules.") for x in subterms(t))
