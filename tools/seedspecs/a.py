EXP = '''
import ast
from mcpyrate.core import *
from mcpyrate.expander import *
from mcpyrate.core import global_bindings
'''
bug("C01-hook", "C01", [("core.py", "            oldhook = self._debughook\n            try:\n                self._debughook = hook\n                yield\n            finally:\n                self._debughook = oldhook",
 "            oldhook = self._debughook\n            try:\n                self._debughook = hook\n                yield\n            finally:\n                if self._debughook is hook:\n                    self._debughook = None\n                else:\n                    self._debughook = oldhook")],
 "two nested extents of debug hooks on one expander", "After an inner debug hook's extent, the outer hook is not in force again.",
 EXP + '''
seen = []
def m(tree, **kw): return tree
e = MacroExpander({"m": m}, "x.py")
h1 = lambda *a: seen.append(1)
h2 = lambda *a: seen.append(2)
def go(): e.visit(ast.parse("m[1]").body[0])
with e.debughook(h1):
    with e.debughook(h2):
        go()
    go()
go()
assert seen == [2, 1], seen
''')
bug("C02-phase", "C02", [("multiphase.py", "    if self_module in sys.modules:\n        original_module = sys.modules[self_module]", "    if self_module in sys.modules and n > 0:\n        original_module = sys.modules[self_module]")],
 "a module with a self-macro-import but no phases, compiled by name while a module of that name is in the table", "The original module is dropped from the module table after the compilation.",
 '''
import sys, types
import mcpyrate.compiler as C
from mcpyrate.multiphase import multiphase_expand
import ast
m = sys.modules["victim"] = types.ModuleType("victim")
multiphase_expand(ast.parse("x = 1"), filename="victim.py", self_module="victim")
assert sys.modules.get("victim") is m
''')
bug("C04-selfmtime", "C04", [("importer.py", "    result = {\"mtime\": max(mtimes), \"size\": None}", "    result = {\"mtime\": mtimes[0] if len(mtimes) == 1 else max(mtimes[:-1]), \"size\": None}")], "a module with macro-imports that is newer than all its dependencies", "The module's own modification time does not count.",
 '''
import os
from mcpyrate.importer import path_stats
sys.path.insert(0, T)
put("dep4.py", "def m(tree, **kw): return tree\\n")
p = put("mod4.py", "from dep4 import macros, m\\n")
os.utime(os.path.join(T, "dep4.py"), (1000, 1000))
os.utime(p, (2000, 2000))
assert path_stats(p)["mtime"] >= 2000 - 1e-3, path_stats(p)
''')
bug("C04-dialectcache", "C04", [("importer.py", "        macro_and_dialect_imports = data[\"macroimports\"] + data[\"dialectimports\"]", "        macro_and_dialect_imports = data[\"macroimports\"] or data[\"dialectimports\"]")], "a module with both macro- and dialect-imports, a valid dependency record, and a newer dialect module", "With a cached record, dialect imports are ignored when there are macro-imports.",
 '''
import os
from mcpyrate.importer import path_stats
sys.path.insert(0, T)
a = put("dep4.py", "def m(tree, **kw): return tree\\n")
b = put("dia4.py", "class D: pass\\n")
p = put("mod4.py", "from dia4 import dialects, D\\nfrom dep4 import macros, m\\n")
for x in (a, b, p):
    os.utime(x, (1000, 1000))
import importlib.util
os.makedirs(os.path.dirname(importlib.util.cache_from_source(p)), exist_ok=True)
path_stats(p)
os.utime(b, (5000, 5000))
assert path_stats(p)["mtime"] >= 5000 - 1e-3
''')
bug("C04-phase", "C04", [("importer.py", "                elif iswithphase(stmt, filename=path):\n                    scan(stmt)", "                elif iswithphase(stmt, filename=path) == 1:\n                    scan(stmt)")], "a macro-import inside a phase higher than 1", "Dependencies of higher phases are not tracked.",
 '''
import os
from mcpyrate.importer import path_stats
sys.path.insert(0, T)
a = put("dep4.py", "def m(tree, **kw): return tree\\n")
p = put("mod4.py", "from mcpyrate.multiphase import macros, phase\\nwith phase[2]:\\n    from dep4 import macros, m\\n")
os.utime(p, (1000, 1000))
import time
f = time.time() + 100000
os.utime(a, (f, f))
assert path_stats(p)["mtime"] >= f - 1e-3
''')
bug("C05-baseargs", "C05", [("core.py", "            if isinstance(err, MacroApplicationError) and err.__cause__:", "            if isinstance(err, MacroExpansionError) and err.__cause__:")], "a macro that raises a MacroExpansionError of its own which has a cause", "The error raised by the macro is not the cause of the report.",
 EXP + '''
from mcpyrate.core import MacroExpansionError
class Mine(MacroExpansionError): pass
def m(tree, **kw):
    try:
        1/0
    except ZeroDivisionError as e:
        raise Mine("mine") from e
try:
    MacroExpander({"m": m}, "x.py").visit(ast.parse("m[1]").body[0])
except Exception as err:
    assert isinstance(err.__cause__, Mine), repr(err.__cause__)
else:
    raise SystemExit(1)
''')
bug("C05-order", "C05", [("core.py", "                msg = f\"{hint}\\n{msg}\\n{oldmsg}\"", "                msg = f\"{hint}\\n{oldmsg}\\n{msg}\"")], "a failing macro inside another macro's expansion", "The outer use site is reported after the inner one.",
 EXP + '''
def bad(tree, **kw): 1/0
def outer(tree, *, expander, **kw): return expander.visit(tree)
try:
    MacroExpander({"bad": bad, "outer": outer}, "x.py").visit(ast.parse("outer[\\n bad[1]]").body[0])
except Exception as err:
    s = str(err)
    assert 0 <= s.index("'outer'") < s.index("'bad'"), s
    assert isinstance(err.__cause__, ZeroDivisionError)
else:
    raise SystemExit(1)
''')
bug("C06-locs", "C06", [("core.py", "            expansion = fix_locations(expansion, target, mode=\"reference\")", "            expansion = fix_locations(expansion, target, mode=\"reference\" if self.recursive else \"parent\")")], "a macro output without locations in expand-once mode", "Missing locations are not filled in from the invocation in once mode.",
 EXP + '''
def m(tree, **kw): return ast.Tuple(elts=[ast.Constant(value=1), ast.Name(id="x")])
e = MacroExpander({"m": m}, "x.py")
t = e.visit_once(ast.parse("m[1]", mode="eval").body)
for n in ast.walk(t.body):
    if isinstance(n, (ast.expr, ast.stmt)):
        assert n.lineno == 1
''')
bug("C06-readd", "C06", [("core.py", "    if function not in global_postprocessors:\n        global_postprocessors.append(function)", "    if function in global_postprocessors:\n        global_postprocessors.remove(function)\n    global_postprocessors.append(function)")], "a postprocessor registered twice, with another one registered between", "Postprocessors no longer run in registration order.",
 '''
import ast
from mcpyrate.core import add_postprocessor, global_postprocess
seen = []
def f(t): seen.append("f"); return t
def g(t): seen.append("g"); return t
add_postprocessor(f); add_postprocessor(g); add_postprocessor(f)
global_postprocess(ast.parse("1"))
assert seen == ["f", "g"], seen
''')
bug("C07-namerec", "C07", [("expander.py", "            elif self.recursive:\n                new_tree = self.visit(new_tree)", "            else:\n                new_tree = self.visit_recursively(new_tree)")], "a name macro that expands to another macro invocation, under expand-once", "Expanding once expands the output of name macros recursively.",
 EXP + '''
@namemacro
def n(tree, **kw): return ast.parse("m[2]", mode="eval").body
def m(tree, **kw): return ast.Constant(value=42)
e = MacroExpander({"m": m, "n": n}, "x.py")
t = e.visit_once(ast.parse("[n]", mode="eval").body)
assert "m[2]" in ast.unparse(t.body), ast.unparse(t.body)
''')
bug("C07-nested", "C07", [("core.py", "        with self._recursive_mode(True):\n            return self.visit(tree)", "        if self.recursive:\n            return self.visit(tree)\n        with self._recursive_mode(not isinstance(tree, list)):\n            return self.visit(tree)")], "a block macro that recursively expands a list inside an outer expand-once", "Recursive expansion of statement lists inside expand-once only makes one pass.",
 EXP + '''
def m(tree, **kw): return ast.parse("k[1]", mode="eval").body
def k(tree, **kw): return ast.Constant(value=42)
def b(tree, *, expander, **kw): return expander.visit_recursively(tree)
e = MacroExpander({"m": m, "k": k, "b": b}, "x.py")
t = e.visit_once(ast.parse("with b:\\n    m[1]").body)
s = "".join(ast.unparse(x.body if hasattr(x, "body") and not isinstance(x, ast.stmt) else x) for x in t.body)
assert "k[1]" not in s and "42" in s, s
''')
bug("C08-order", "C08", [("expander.py", "        innermost_macro = macros[-1]", "        innermost_macro = macros[-1] if not others or len(macros) < 3 else macros[1]")], "three decorator macros and an ordinary decorator on one definition", "Decorator macros are not applied innermost first.",
 EXP + '''
seen = []
def mk(n):
    def f(tree, **kw):
        seen.append(n); return tree
    return f
e = MacroExpander({n: mk(n) for n in "abc"}, "x.py")
e.visit(ast.parse("@a\\n@b\\n@c\\n@other\\ndef f(): pass"))
assert seen == ["c", "b", "a"], seen
''')
bug("C08-optvars", "C08", [("expander.py", "        original_withstmt = copy(withstmt)\n        original_withstmt.items = copy(withstmt.items)", "        original_withstmt = copy(withstmt)")], "a block macro that inspects its whole invocation", "The invocation given to block macros lacks the macro item.",
 EXP + '''
got = []
def b(tree, *, invocation, **kw):
    got.append(len(invocation.items)); return tree
MacroExpander({"b": b}, "x.py").visit(ast.parse("with b, open('x') as f:\\n    pass"))
assert got == [2], got
''')
bug("C09-remaining", "C09", [("expander.py", "            for with_item in others:\n                self.visit(with_item)\n            self.visit(withstmt.body)", "            if len(others) == 1:\n                self.visit(others[0])\n            self.visit(withstmt.body)")], "a with statement with a block macro and two ordinary context managers that contain macro uses", "Macros in the remaining context managers are not reported.",
 EXP + '''
def m(tree, **kw): return tree
e = MacroExpander({"m": m, "b": m}, "x.py")
c = MacroCollector(e)
c.visit(ast.parse("with b, f(m[1]), g(m[2]):\\n    pass"))
assert set(c.collected) == {("b", "block"), ("m", "expr")}, c.collected
''')
bug("C09-kind", "C09", [("expander.py", "                key = (macroname, 'decorator')\n                if key not in self._seen:", "                key = (macroname, 'decorator')\n                if not any(name == macroname for name, _ in self._seen):")], "one macro used as an expression and as a decorator", "A macro is not reported for its second invocation kind.",
 EXP + '''
def m(tree, **kw): return tree
c = MacroCollector(MacroExpander({"m": m}, "x.py"))
c.visit(ast.parse("m[1]\\n@m\\ndef f(): pass"))
assert set(c.collected) == {("m", "decorator"), ("m", "expr")}, c.collected
''')
