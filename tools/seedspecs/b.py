EXP = '''
import ast
from mcpyrate.core import *
from mcpyrate.expander import *
from mcpyrate.core import global_bindings
'''
bug("C04-phase", "C04", [("importer.py", "                elif iswithphase(stmt, filename=path):", "                elif iswithphase(stmt, filename=path) == 1:")], "a macro-import inside a phase higher than 1", "Dependencies of higher phases are not tracked.",
 '''
from mcpyrate.importer import path_stats
sys.path.insert(0, T)
a = put("dep4.py", "def m(tree, **kw): return tree\\n")
p = put("mod4.py", "from mcpyrate.multiphase import macros, phase\\nwith phase[2]:\\n    from dep4 import macros, m\\n")
os.utime(p, (1000, 1000))
import time
f = time.time() + 100000
os.utime(a, (f, f))
assert path_stats(p)["mtime"] >= f - 1e-3
''')
bug("C06-locs", "C06", [("core.py", "            expansion = fix_locations(expansion, target, mode=\"reference\")", "            if self.recursive:\n                expansion = fix_locations(expansion, target, mode=\"reference\")")], "a macro output without locations in expand-once mode", "Missing locations are not filled in from the invocation in once mode.",
 EXP + '''
def m(tree, **kw): return ast.Tuple(elts=[ast.Constant(value=1), ast.Name(id="x")])
e = MacroExpander({"m": m}, "x.py")
t = e.visit_once(ast.parse("m[1]", mode="eval").body)
for n in ast.walk(t.body):
    if isinstance(n, (ast.expr, ast.stmt)):
        assert n.lineno == 1
''')
bug("C07-namerec", "C07", [("expander.py", "            elif self.recursive:\n", "            elif self.recursive or not isinstance(new_tree, Done):\n")], "a name macro that expands to another macro invocation, under expand-once", "Expanding once expands the output of name macros recursively.",
 EXP + '''
@namemacro
def n(tree, **kw): return ast.parse("m[2]", mode="eval").body
def m(tree, **kw): return ast.Constant(value=42)
e = MacroExpander({"m": m, "n": n}, "x.py")
t = e.visit_once(ast.parse("[n]", mode="eval").body)
assert "m[2]" in ast.unparse(t.body), ast.unparse(t.body)
''')
bug("C09-kind", "C09", [("expander.py", "                key = (macroname, \"decorator\")\n", "                key = (macroname, \"decorator\" if (macroname, \"expr\") not in self._seen else \"expr\")\n")], "one macro used as an expression and as a decorator", "A macro is not reported for its second invocation kind.",
 EXP + '''
def m(tree, **kw): return tree
c = MacroCollector(MacroExpander({"m": m}, "x.py"))
c.visit(ast.parse("m[1]\\n@m\\ndef f(): pass"))
assert set(c.collected) == {("m", "decorator"), ("m", "expr")}, c.collected
''')
bug("C10-with", "C10", [("astfixers.py", "        elif tt is Subscript:\n            self.withstate(tree.value, ctxclass=Load)\n", "        elif tt is Subscript:\n            if type(tree.value) is not Subscript:\n                self.withstate(tree.value, ctxclass=Load)\n")], "an assignment to a doubly subscripted target", "The value part of a nested subscript target gets the store context.",
 '''
import ast
from mcpyrate.astfixers import fix_ctx
t = fix_ctx(ast.parse("a[1][2] = x"), copy_seen_nodes=False)
tgt = t.body[0].targets[0]
assert type(tgt.ctx) is ast.Store and type(tgt.value.ctx) is ast.Load and type(tgt.value.value.ctx) is ast.Load
''')
bug("C10-shared", "C10", [("astfixers.py", "            if id(tree) in self._seen:\n", "            if id(tree) in self._seen and type(tree).__name__ != \"Starred\":\n")], "the same starred node at a load and at a store position", "A node at several positions gets a conflicting context.",
 '''
import ast
from mcpyrate.astfixers import fix_ctx
s = ast.Starred(value=ast.Name(id="x"))
t = ast.parse("[a] = [b]")
t.body[0].targets[0].elts = [s]
t.body[0].value.elts = [s]
t = fix_ctx(t, copy_seen_nodes=True)
a, b = t.body[0].targets[0].elts[0], t.body[0].value.elts[0]
assert type(a.ctx) is ast.Store and type(b.ctx) is ast.Load
''')
bug("C11-end", "C11", [("astfixers.py", "            elif mode == \"update\":\n                col_offset = tree.col_offset\n", "            elif mode == \"update\" and tree.col_offset:\n                col_offset = tree.col_offset\n")], "parent mode and a located node at column 0", "Descendants of a node at column 0 get the column of an outer ancestor.",
 '''
import ast
from mcpyrate.astfixers import fix_locations
ref = ast.Constant(value=1, lineno=1, col_offset=7, end_lineno=1, end_col_offset=8)
t = ast.parse("x + y").body[0]
del t.value.left.lineno, t.value.left.col_offset, t.value.left.end_lineno, t.value.left.end_col_offset
fix_locations(t, ref, mode="update")
assert t.value.left.col_offset == 0, t.value.left.col_offset
''')
bug("C11-lists", "C11", [("astfixers.py", "        if isinstance(tree, list):\n            for elt in tree:\n                _fix(elt,", "        if isinstance(tree, list):\n            for elt in tree[:1] if mode == \"reference\" and len(tree) > 2 else tree:\n                _fix(elt,")], "a macro that returns more than two statements", "Only the first of several statements gets a location.",
 '''
import ast
from mcpyrate.astfixers import fix_locations
ref = ast.Constant(value=1, lineno=5, col_offset=7, end_lineno=5, end_col_offset=8)
l = [ast.Pass(), ast.Pass(), ast.Pass()]
fix_locations(l, ref, mode="reference")
assert all(x.lineno == 5 for x in l)
''')
bug("C14-kwdefs", "C14", [("utils.py", "                for j in range(len(tree.names)):", "                for j in range(len(tree.names) - 1):")], "the last of several global names", "The last name of a global/nonlocal list is not renamed.",
 '''
import ast
from mcpyrate.utils import rename
t = rename("a", "b", ast.parse("def f():\\n    global x, a"))
assert t.body[0].body[0].names == ["x", "b"]
''')
bug("C14-alias", "C14", [("utils.py", "                if tree.asname == oldname:\n                    tree.asname = newname\n", "                elif tree.asname == oldname:\n                    tree.asname = newname\n")], "an import of a name as itself", "`import a as a` is renamed only half.",
 '''
import ast
from mcpyrate.utils import rename
t = rename("a", "b", ast.parse("import a as a"))
n = t.body[0].names[0]
assert (n.name, n.asname) == ("b", "b")
''')
bug("C16-n", "C16", [("quotes.py", "        if _quotelevel.value > 0:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        return LiftSourcecode(tree, expander.filename)", "        if _quotelevel.value > 1:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        return LiftSourcecode(tree, expander.filename)")], "an n[] unquote at quote depth 2", "A name-unquote of an outer quote is carried out at the inner depth.",
 '''
put("app16.py", """
from mcpyrate.quotes import macros, q, n, u
from mcpyrate import unparse
def f():
    return q[q[n["x"]]]
text = unparse(f())
""")
sys.path.insert(0, T)
import mcpyrate.activate
import app16
assert "n['x']" in app16.text.replace('"', "'"), app16.text
''')
bug("C16-misuse", "C16", [("quotes.py", "    if syntax == \"block\" and kw[\"optional_vars\"] is not None:\n        raise SyntaxError(\"`a` (block mode) does not take an asname\")", "    if syntax == \"block\" and kw[\"optional_vars\"] is not None and _quotelevel.value < 2:\n        raise SyntaxError(\"`a` (block mode) does not take an asname\")")], "a misused block unquote at depth 2", "An as-part on the block unquote is accepted at inner depths.",
 '''
import ast
from mcpyrate.expander import MacroExpander
import mcpyrate.quotes as Q
e = MacroExpander({"q": Q.q, "a": Q.a}, "x.py")
t = ast.parse("with q as x:\\n    with q as y:\\n        with a as z:\\n            foo\\n")
try:
    e.visit(t)
except Exception:
    pass
else:
    raise SystemExit("accepted")
''')
bug("C17-gc", "C17", [("quotes.py", "        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))\n    return _lookup_cache[cachekey][1]", "        _lookup_cache[cachekey] = (name, pickle.loads(frozen_value))\n    return _lookup_cache[cachekey][1]")], "captures whose pickled bytes were garbage-collected", "A cached value of a collected capture is served for another capture.",
 '''
import pickle
from mcpyrate.quotes import lookup_value
for i in range(2000):
    v = pickle.dumps(["value", i])
    assert lookup_value(("x", v)) == ["value", i], i
    del v
''')
bug("C17-macro", "C17", [("quotes.py", "ast.Constant(value=gensym(name)), ast.Constant(value=frozen_macro)", "ast.Constant(value=gensym(name) if name not in global_bindings else name), ast.Constant(value=frozen_macro)")], "a captured macro whose name is already globally bound", "A captured macro gets the name of another globally bound macro.",
 '''
import ast
from mcpyrate.core import global_bindings
from mcpyrate.quotes import capture_macro
def mymacro(tree, **kw): return tree
import builtins
global_bindings["mymacro"] = lambda tree, **kw: None
t = capture_macro(print, "mymacro")
assert t.args[0].elts[1].value != "mymacro"
''')
bug("C19-asname", "C19", [("coreutils.py", "        bindings[name.asname or name.name] = macro", "        bindings[name.asname if name.asname and name.asname not in bindings else name.name] = macro")], "two macros imported under one as-name", "the later of two imports under one name does not win",
 '''
import ast
from mcpyrate.coreutils import get_macros
sys.path.insert(0, T)
put("mac19.py", "def a(tree, **kw): return tree\\ndef b(tree, **kw): return tree\\n")
_, bs = get_macros(ast.parse("from mac19 import macros, a as m, b as m").body[0], filename="x.py")
import mac19
assert bs == {"m": mac19.b}, bs
''')
bug("C20-prefix", "C20", [("coreutils.py", "        if root_path == path or root_path in path.parents:", "        if root_path == path or str(path).startswith(str(root_path)):")], "a search path entry that is a textual prefix of the file's directory", "A sibling directory is taken for an ancestor.",
 '''
from mcpyrate.coreutils import match_syspath
os.makedirs(T + "/lib"); os.makedirs(T + "/libfoo/pkg")
sys.path[:] = [T + "/lib", T]
assert str(match_syspath(T + "/libfoo/pkg")) == os.path.realpath(T), match_syspath(T + "/libfoo/pkg")
''')
bug("C20-order", "C20", [("coreutils.py", "        return (-len(root_path.parts), str(root_path))", "        return (-len(root_path.name), str(root_path))")], "nested search path entries with names of different length", "Not the deepest matching entry is chosen.",
 '''
from mcpyrate.coreutils import match_syspath
os.makedirs(T + "/averylongname/x/pkg")
sys.path[:] = [T + "/averylongname", T + "/averylongname/x"]
assert os.path.basename(str(match_syspath(T + "/averylongname/x/pkg"))) == "x"
''')
