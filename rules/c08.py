"""Macros are invoked only as declared and receive what is documented.

Rule: (a) the acceptance test for a macro use answers true only on paths where the name is bound, and then exactly when
the binding is declared as a name macro (bare names) or there are no arguments or the binding is declared parametric
(all other kinds); the declaration decorators set the very attribute that is tested. (b) A candidate is taken apart only
as a name, a subscript of a name, or a call of a name without keywords; parenthesised arguments that are empty or
starred raise when validated. (c) For every invocation kind, with the whole application chain inlined down to the macro
call itself, the call receives the documented tree, arguments, as-part, syntax kind, expander and a copy of the whole
invocation made before anything was removed from it; the applied item is the first of several block macros and the last
of several decorators, and precisely that item is removed first.
"""
from lib.interp import FALSE, NONE, TRUE, attr, const, ref, show, subterms
from lib.q import argof, at, call_events, callee, contains, is_call, raises, returns, strip_list, truth, visitor, where_of

P = lambda n: ("param", n)
S = P("self")
X = "mcpyrate.expander.MacroExpander"


def macro_call(t):
    return t[0] == "call" and (is_call(t[1], "isbound") or t[1][0] == "sub" and contains(t[1], attr(S, "bindings")))


def mentions(t, lst):
    """Does a condition depend on what is left in a list of items (other than through the applied item itself)?"""
    if t == lst:
        return True
    if not isinstance(t, tuple) or is_call(t, "_detect_macro_items"):
        return False
    if t and t[0] == "sub" and is_call(t[1], "_detect_macro_items"):
        return t[2] == const(1)
    return any(mentions(x, lst) for x in t if isinstance(x, tuple))


def check(c):
    ix = c.ix
    flags = {}
    for kind in ("name", "parametric"):
        key = f"C08:declare:{kind}"
        with c.section(key):
            d, t = ix.func(f"mcpyrate.expander.{kind}macro"), ix.func(f"mcpyrate.expander.is{kind}macro")
            F, G = P(d.params()[0]), P(t.params()[0])
            for o in returns(c.paths(d)):
                sets = {k[1]: v for k, v in o.state.heap.items() if k[0] == F}
                c.require(key + ":returns", o.value == F, at(c, d, o), f"declaring a macro returns {show(o.value)[:60]} instead of the function")
                flags[kind] = set(sets)
                for o2 in returns(c.paths(t)):
                    v = o2.value
                    has = next((b for k, b in o2.state.facts.items() if k[0] == "hasattr" and k[1] == G and k[2] in sets), None)
                    if has is not None:
                        c.require(key + ":decides", truth(v, o2.state.facts) is has or (None if truth(v, o2.state.facts) is None and has and any(x[0] in ("attr", "hasattr") and x[2] in sets or x == const(x[2]) and x[2] in sets for x in subterms(v) if len(x) > 2) else False), at(c, t, o2), f"a function that is {'' if has else 'not '}declared a {kind} macro gives {show(v)[:60]}")
                    tested = {x[2] for x in subterms(v) if x[0] == "const" and x[1] == "str"} | {x[2] for x in subterms(v) if x[0] in ("attr", "hasattr")} | \
                        {x[2] for k in o2.state.facts for x in subterms(k) if x[0] in ("attr", "hasattr")}
                    c.require(key + ":tested", bool(tested & set(sets)) if tested else None, at(c, t, o2), f"the test for a {kind} macro looks at {sorted(map(str, tested))}, the declaration sets {sorted(sets)}")
    if len(flags) == 2:
        c.require("C08:declare:distinct", not flags["name"] & flags["parametric"], "mcpyrate/expander.py", "the two macro declarations set the same attribute")

    # -- is it bound
    with c.section("C08:isbound"):
        fi = ix.find_method(X, "isbound")
        for o in returns(c.paths(fi)):
            glob = truth(P("global_only"), o.state.facts)
            table = ref("mcpyrate.core.global_bindings") if glob else attr(S, "bindings")
            v = o.value
            if v[0] == "sub":
                c.require("C08:isbound:table", v[1] == table and v[2] == P("name"), at(c, fi, o), f"a macro is looked up as {show(v)[:60]}")
            elif v[0] == "call" and v[1][0] == "attr" and v[1][2] == "get":
                c.require("C08:isbound:table", v[1][1] == table and argof(v, 0) == P("name"), at(c, fi, o), f"a macro is looked up as {show(v)[:60]}")
            else:
                c.require("C08:isbound:unbound", truth(v, o.state.facts) is False, at(c, fi, o), f"a name that is not bound gives {show(v)[:60]}")

    # -- acceptance
    with c.section("C08:accept"):
        fi = ix.find_method(X, "ismacrocall")
        n = {"name": 0, "noargs": 0, "args": 0}
        NM, AR, SY = P("macroname"), P("macroargs"), P("syntax")
        for o in returns(c.paths(fi)):
            f = o.state.facts
            v = o.value
            w = at(c, fi, o)
            t = truth(v, f)
            named = truth(NM, f)
            bound = next((b for k, b in f.items() if is_call(k, "isbound") and argof(k, "name", 0) == NM), None)
            if t is False:
                # may refuse only if unbound, or not declared
                isname = next((b for k, b in f.items() if k[0] == "cmp" and k[1] == "Eq" and SY in k[2:] and const("name") in k[2:]), None)
                decl = [k for k, b in f.items() if b is False and is_call(k, "isnamemacro", "isparametricmacro")]
                okr = named is False or bound is False or bool(decl)
                c.require("C08:accept:refuses", okr, w, "a bound name is refused as a macro use although its declaration was not asked")
                continue
            if named is False or bound is False:
                c.bad("C08:accept:unbound", w, f"a name that is not bound to a macro is accepted as a macro use ({show(v)[:60]})")
                continue
            if bound is None:
                c.require("C08:accept:bound", False if t else None, w, "a macro use is accepted without looking whether the name is bound")
                continue
            isname = next((b for k, b in f.items() if k[0] == "cmp" and k[1] == "Eq" and SY in k[2:] and const("name") in k[2:]), None)
            args = truth(AR, f)
            asked = [x for x in [v] + [k for k, b in f.items() if b is True] if is_call(x, "isnamemacro", "isparametricmacro")]
            ofbound = [x for x in asked if is_call(argof(x, "function", 0), "isbound") and argof(argof(x, "function", 0), "name", 0) == NM]
            if isname:
                n["name"] += 1
                c.require("C08:accept:name", any(is_call(x, "isnamemacro") for x in ofbound), w, f"a bare name is accepted by {show(v)[:60]}, not by its name-macro declaration")
            elif isname is None:
                c.require("C08:accept:kind", False if t else None, w, "a macro use is accepted without looking at the kind of invocation")
            elif args is False:
                n["noargs"] += 1
                c.require("C08:accept:noargs", t is True, w, f"an invocation without arguments is decided by {show(v)[:60]}")
            else:
                n["args"] += 1
                c.require("C08:accept:parametric", any(is_call(x, "isparametricmacro") for x in ofbound), w, f"an invocation with arguments is accepted by {show(v)[:60]}, not by its declaration as parametric")
        c.require("C08:accept:exercised", True if all(n.values()) else None, c.where(fi), f"{n}")

    # -- shape of candidates
    with c.section("C08:shape"):
        fi = ix.func("mcpyrate.expander.destructure_candidate")
        T = P("tree")
        n = {"Name": 0, "Subscript": 0, "Call": 0, "none": 0, "empty": 0, "starred": 0}

        def ty(f, t, cls):
            for k in (("typeis", t, frozenset([cls])), ("isinst", t, frozenset([cls]))):
                if k in f:
                    return f[k]
            return None
        STAR = "ast.Starred"

        def starred(f):
            for k, b in f.items():
                if any(x[0] in ("typeis", "isinst") and x[2] == frozenset([STAR]) and x[1][0] == "elem" for x in subterms(k)) and not (k[0] in ("typeis", "isinst")):
                    neg = any(x[0] == "not" and x[1][0] in ("typeis", "isinst") and x[1][2] == frozenset([STAR]) for x in subterms(k))
                    if is_call(k, "builtins.all"):
                        return not b if neg else True if b else "some"
                    if is_call(k, "builtins.any") and neg:
                        return True if not b else "some"
                    return b
            for k, b in f.items():
                if k[0] in ("typeis", "isinst") and k[2] == frozenset([STAR]) and k[1][0] == "elem" and strip_list(k[1][1]) == attr(T, "args"):
                    return b
            return None
        for o in c.paths(fi):
            f = o.state.facts
            w = at(c, fi, o)
            isN, isS, isC = ty(f, T, "ast.Name"), ty(f, T, "ast.Subscript"), ty(f, T, "ast.Call")
            if o.kind == "raise":
                c.require("C08:shape:raise", isC and truth(P("_validate_call_syntax"), f) is not False and o.value[0] == "call" and o.value[1][0] == "ref" and ix.is_subclass(o.value[1][1], "builtins.SyntaxError") or o.value[1] == ref("builtins.SyntaxError"),
                          w, f"taking apart a possible macro use raises {show(o.value)[:60]}")
                if truth(attr(T, "args"), f) is False:
                    n["empty"] += 1
                elif starred(f) is True:
                    n["starred"] += 1
                continue
            v = o.value
            if v[0] != "tuple" or len(v[1]) != 2:
                c.unknown("C08:shape:value", w, f"unrecognised answer {show(v)[:80]}")
                continue
            name, args = v[1]
            if name == NONE:
                n["none"] += 1
                accepted = isN or (isS and ty(f, attr(T, "value"), "ast.Name")) or (isC and ty(f, attr(T, "func"), "ast.Name") and truth(attr(T, "keywords"), f) is False)
                c.require("C08:shape:refuses", not accepted and args == NONE, w, "a well-formed macro use is not recognised as a candidate")
            elif name == attr(T, "id"):
                n["Name"] += 1
                c.require("C08:shape:name", bool(isN) and truth(args, f) is False, w, f"a name is taken apart with arguments {show(args)[:60]}")
            elif name == attr(attr(T, "value"), "id"):
                n["Subscript"] += 1
                sl = attr(T, "slice")
                if ty(f, sl, "ast.Tuple"):
                    want = strip_list(args) == attr(sl, "elts")
                else:
                    want = args == ("list", (sl,)) and ty(f, sl, "ast.Tuple") is False
                c.require("C08:shape:subscript", bool(isS) and bool(ty(f, attr(T, "value"), "ast.Name")) and want, w, f"bracketed macro arguments are taken as {show(args)[:60]}")
            elif name == attr(attr(T, "func"), "id"):
                n["Call"] += 1
                c.require("C08:shape:call", bool(isC) and bool(ty(f, attr(T, "func"), "ast.Name")) and strip_list(args) == attr(T, "args"), w, f"parenthesised macro arguments are taken as {show(args)[:60]}")
                c.require("C08:shape:keywords", truth(attr(T, "keywords"), f) is False, w, "a call with keyword arguments is taken for a macro use with arguments")
                val = truth(P("_validate_call_syntax"), f)
                if val is not False:
                    c.require("C08:shape:nonempty", truth(attr(T, "args"), f) is True, w, "empty parentheses are accepted as macro arguments")
                    c.require("C08:shape:nonstarred", starred(f) is False, w, "starred macro arguments are accepted")
            else:
                c.require("C08:shape:value", None, w, f"unrecognised name {show(name)[:60]}")
        c.require("C08:shape:exercised", True if all(n.values()) else None, c.where(fi), f"{n}")
        for k in ("Name", "Subscript", "Call"):
            c.require(f"C08:shape:has:{k}", n[k] > 0 or None, c.where(fi), f"{k} candidates not seen")
        c.require("C08:shape:rejects-empty", n["empty"] > 0 or None, c.where(fi), "")
        c.require("C08:shape:rejects-starred", n["starred"] > 0 or None, c.where(fi), "")

    # -- which of several items are macros
    with c.section("C08:items"):
        fi = ix.find_method(X, "_detect_macro_items")
        n = {"block": 0, "decorator": 0}
        for syn in ("block", "decorator"):
            for o in returns(c.paths(fi, bind={"syntax": const(syn)})):
                f = o.state.facts
                v = o.value
                if v[0] != "tuple" or len(v[1]) != 2:
                    c.unknown("C08:items:value", at(c, fi, o), show(v)[:80])
                    continue
                if v[1][0][0] == "list" and v[1][0][1] and not any(is_call(k, "ismacrocall") for k in f) and not any(is_call(x, "ismacrocall") for x in subterms(v)):
                    c.bad(f"C08:items:{syn}:asked", at(c, fi, o), "an item is listed as a macro use without asking whether its declaration allows this use")
                for k, b in f.items():
                    if not is_call(k, "ismacrocall"):
                        continue
                    n[syn] += 1
                    nm, ar = argof(k, "macroname", 0), argof(k, "macroargs", 1)
                    cand = argof(nm[1], "tree", 0) if nm and nm[0] == "sub" and is_call(nm[1], "destructure_candidate") else None
                    el = cand[1] if cand is not None and cand[0] == "attr" and syn == "block" else cand
                    ok = cand is not None and nm[2] == const(0) and ar == ("sub", nm[1], const(1)) and el[0] == "elem" and el[1] == P("items") and (syn == "decorator" or cand == attr(el, "context_expr"))
                    c.require(f"C08:items:{syn}:candidate", ok if cand is not None else None, at(c, fi, o), f"{syn} candidates are taken from {show(cand)[:80] if cand else '?'}")
                    c.require(f"C08:items:{syn}:syntax", argof(k, "syntax", 2) == const(syn), at(c, fi, o), f"{syn} invocations are checked as {show(argof(k, 'syntax', 2))}")
                    if el is not None and v[1][0][0] == "list" and v[1][1][0] == "list":
                        inm = [x for x in v[1][0][1] if x[0] == "rep" and x[2] == el]
                        ino = [x for x in v[1][1][1] if x[0] == "rep" and x[2] == el]
                        c.require(f"C08:items:{syn}:sorted", bool(inm) == b and bool(ino) == (not b) and len(v[1][0][1]) <= 1 and len(v[1][1][1]) <= 1, at(c, fi, o),
                                  f"an item that {'is' if b else 'is not'} a macro use is listed as {'macro' if inm else ''}{' other' if ino else ''}")
        c.require("C08:items:exercised", True if all(n.values()) else None, c.where(fi), f"{n}")

    # -- what the macro gets
    INL = ["expand", "_apply_macro", "_visit_Decorated"]
    kinds = [("Subscript", "expr"), ("With", "block"), ("ClassDef", "decorator"), ("FunctionDef", "decorator"), ("AsyncFunctionDef", "decorator"), ("Name", "name")]
    for node_kind, syn in kinds:
        key = f"C08:gets:{node_kind}"
        fi = visitor(ix, X, node_kind)
        if fi is None:
            c.bad(key, c.where(ix.find_method(X, "visit_Subscript")) if ix.find_method(X, "visit_Subscript") else "mcpyrate/expander.py", f"{node_kind} nodes are not looked at for {syn} macro invocations")
            continue
        with c.section(key):
            N = P(fi.params()[1])
            n = 0
            # any path that applies no macro leaves the node to the ordinary traversal
            for o in returns(c.paths(fi, inline=INL, selfcls=X, max_paths=60000)):
                tr, f = o.state.trace, o.state.facts
                w = at(c, fi, o)
                ms = [(i, e) for i, e in enumerate(tr) if e.kind == "call" and macro_call(e.c)]
                if not ms:
                    if syn == "name":
                        c.require(key + ":untouched", o.value == N, w, f"a name that is not a macro use becomes {show(o.value)[:60]}")
                    else:
                        c.require(key + ":untouched", is_call(o.value, "generic_visit") and argof(o.value, "node", "tree", 0) == N, w, f"a {node_kind} that is not a macro use becomes {show(o.value)[:60]} instead of being traversed")
                    continue
                n += 1
                if not c.require(key + ":once", len(ms) == 1, w, "a macro is applied more than once"):
                    continue
                i, e = ms[0]
                w = where_of(e)
                kw = {k: v for k, v in e.b if isinstance(k, str)}
                name = argof(e.c[1], "name", 0) if is_call(e.c[1], "isbound") else e.c[1][2]
                # the candidate that was accepted
                D = None
                if syn == "name":
                    c.require(key + ":name", name == attr(N, "id"), w, f"the macro applied is {show(name)[:60]}")
                    okm = any(is_call(k, "ismacrocall") and b and argof(k, "macroname", 0) == name and argof(k, "syntax", 2) == const("name") for k, b in f.items())
                    c.require(key + ":accepted", okm, w, "a name macro is applied without checking that this use is allowed by its declaration")
                    c.require(key + ":args", kw.get("args") in (NONE, ("list", ())), w, f"a name macro gets arguments {show(kw['args'])[:60] if 'args' in kw else '(missing)'}")
                    want_trees, inv = [N], N
                    item = None
                else:
                    if name[0] != "sub" or not is_call(name[1], "destructure_candidate") or name[2] != const(0):
                        c.unknown(key + ":name", w, f"macro name is {show(name)[:80]}")
                        continue
                    D = name[1]
                    c.require(key + ":validated", argof(D, "_validate_call_syntax") in (None, TRUE), w, "malformed parenthesised macro arguments are not rejected")
                    c.require(key + ":args", kw.get("args") == ("sub", D, const(1)), w, f"the macro gets arguments {show(kw['args'])[:60] if 'args' in kw else '(missing)'} instead of those of its invocation")
                    cand = argof(D, "tree", 0)
                    if syn == "expr":
                        c.require(key + ":candidate", cand == attr(N, "value"), w, f"the macro is taken from {show(cand)[:60]}")
                        acc = [k for k, b in f.items() if is_call(k, "ismacrocall") and b]
                        okm = any(argof(k, "syntax", 2) == const("expr") and argof(k, "macroname", 0)[0] == "sub" and is_call(argof(k, "macroname", 0)[1], "destructure_candidate") and argof(argof(k, "macroname", 0)[1], "tree", 0) == cand
                                  and argof(k, "macroargs", 1) == ("sub", argof(k, "macroname", 0)[1], const(1)) for k in acc)
                        c.require(key + ":accepted", okm, w, "an expression macro is applied without checking that this use is allowed by its declaration")
                        want_trees, inv, item = [attr(N, "slice")], N, None
                    else:
                        lst = attr(N, "items" if syn == "block" else "decorator_list")
                        item = cand[1] if syn == "block" and cand[0] == "attr" and cand[2] == "context_expr" else cand
                        found = item[1] if item[0] == "sub" else None
                        src = found is not None and found[0] == "sub" and is_call(found[1], "_detect_macro_items") and found[2] == const(0)
                        if not src:
                            c.unknown(key + ":item", w, f"applied item is {show(item)[:80]}")
                            continue
                        c.require(key + ":detect", argof(found[1], "items", 0) == lst and argof(found[1], "syntax", 1) == const(syn), w, f"macro items are looked for in {show(argof(found[1], 'items', 0))[:60]} as {show(argof(found[1], 'syntax', 1))}")
                        want = const(0) if syn == "block" else const(-1)
                        c.require(key + ":order", item[2] == want, w, f"of several {syn} macros, number {show(item[2])} is applied first instead of the {'leftmost' if syn == 'block' else 'innermost'}")
                        # removal
                        rem = [j for j, x in enumerate(tr[:i]) if x.kind == "call" and x.a == attr(lst, "remove") and argof(x, 0) == item]
                        other = [j for j, x in enumerate(tr[:i]) if x.kind in ("setattr", "delitem", "setitem") and (x.a == N and x.b == lst[2] or x.a == lst) or x.kind == "call" and x.a[0] == "attr" and x.a[1] == lst and x.a[2] in ("remove", "pop", "clear") and j not in rem]
                        if not rem:
                            c.require(key + ":removed", None if other else False, w, "the macro is applied while its own item is still on the statement")
                        else:
                            c.require(key + ":removed", not other, w, "more than the applied macro's own item is removed from the statement")
                        # invocation copy
                        iv = kw.get("invocation")
                        if iv == N:
                            c.bad(key + ":invocation", w, "the macro is told the stripped statement as its invocation")
                        elif is_call(iv, "copy.copy") and argof(iv, 0) == N:
                            h = o.state.heap.get((iv, lst[2]))
                            born = next((j for j, x in enumerate(tr) if x.kind == "call" and x.c == h), None)
                            if h is None or h == lst:
                                c.bad(key + ":invocation", w, "the copy of the invocation shares the list from which the macro's item is removed")
                            else:
                                c.require(key + ":invocation", (strip_list(h) == lst and (not rem or born is None or born < rem[0])) or None, w, f"copied items are {show(h)[:60]}")
                        elif is_call(iv, "copy.deepcopy") and argof(iv, 0) == N:
                            born = next((j for j, x in enumerate(tr) if x.kind == "call" and x.c == iv), None)
                            c.require(key + ":invocation", not rem or born is not None and born < rem[0], w, "the invocation is copied after the macro's item has been removed")
                        else:
                            c.unknown(key + ":invocation", w, f"invocation is {show(iv)[:60] if iv else '(missing)'}")
                        inv = None
                        if syn == "block":
                            more = truth(lst, f)
                            seen = [j for j, x in enumerate(tr) if x.kind == "assume" and x.a == lst]
                            late = not rem or (seen and seen[-1] > rem[-1])
                            if more is None or not late:
                                never = rem and more is None and not any(mentions(k, lst) for k in f)
                                c.require(key + ":tree", False if never else None, w, "what the macro gets does not depend on whether other context managers are left")
                                # asked of the items that are not macros only
                                asked = [k for k in f if mentions(k, lst)]
                                rest = ("sub", found[1], const(1))
                                counts = any(contains(k, found) and not (k == found or contains(k, item) or is_call(k, "ismacrocall")) for k in f)
                                if asked and all(k == rest for k in asked) and not counts and rem:
                                    c.bad(key + ":tree-macros", w, "what the macro gets depends on the other context managers only, not on further macros that are left")
                                want_trees = None
                            else:
                                want_trees = [("list", (N,))] if more else [attr(N, "body")]
                            c.require(key + ":as-part", kw.get("optional_vars") == attr(item, "optional_vars"), w, f"the as-part given is {show(kw['optional_vars'])[:60] if 'optional_vars' in kw else 'missing'}")
                        else:
                            want_trees = [N]
                if want_trees is not None:
                    c.require(key + ":tree", argof(e, 0) in want_trees or argof(e, "tree") in want_trees, w, f"the macro gets {show(argof(e, 0))[:80] if argof(e, 0) else '?'}, documented is {show(want_trees[0])[:60]}")
                if inv is not None:
                    iv = kw.get("invocation")
                    ok = iv == inv or is_call(iv, "copy.copy", "copy.deepcopy") and argof(iv, 0) == inv
                    c.require(key + ":invocation", ok, w, f"the invocation given is {show(iv)[:60] if iv else 'missing'}")
                if "**" in kw:
                    continue
                c.require(key + ":syntax", kw.get("syntax") == const(syn), w, f"the macro is told that its syntax is {show(kw['syntax']) if 'syntax' in kw else 'missing'}")
                c.require(key + ":expander", kw.get("expander") == S, w, "the macro does not get the expander")
            c.require(key + ":exercised", True if n else None, c.where(fi), "no application found")
    c.floor(60)
