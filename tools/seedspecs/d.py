bug("C10-asname", "C10", [("astfixers.py", "            self.withstate(tree.optional_vars, ctxclass=Store)\n", "            if hasattr(tree.optional_vars, \"id\"):\n                self.withstate(tree.optional_vars, ctxclass=Store)\n")], "a with statement whose as-part is a tuple, an attribute or a subscript", "The as-part gets the load context.",
 '''
import ast
from mcpyrate.astfixers import fix_ctx
for s in ("with a as b: pass", "with a as (b, c): pass", "with a as b.c: pass", "with a as b[c]: pass"):
    want = ast.parse(s)
    t = ast.parse(s)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    assert ast.dump(fix_ctx(t, copy_seen_nodes=True)) == ast.dump(want), s
''')
bug("C13-kwonly", "C13", [("unparser.py", "        if t.vararg or t.kwonlyargs:\n", "        if t.vararg or (t.kwonlyargs and not (t.kwarg and first)):\n")], "a function that has nothing but keyword-only arguments and a collector of further keyword arguments", "The marker of keyword-only arguments is lost.",
 '''
import ast
from mcpyrate import unparse
for s in ("def f(*, a): pass", "def f(*, a, **k): pass", "def f(x, *, a, **k): pass", "lambda *, a=1, **k: a", "def f(**k): pass"):
    t = ast.parse(s)
    assert ast.dump(ast.parse(unparse(t))) == ast.dump(t), s
''')
bug("C18-capture", "C18", [("quotes.py", "    return lookup_macro((name, gensym(name), frozen_macro))\n", "    return lookup_macro((name, f\"{name}_captured\", frozen_macro))\n")], "two macros of the same name captured by different quasiquotes", "The second captured macro replaces the first.",
 '''
import ast
from mcpyrate.core import global_bindings
from mcpyrate import quotes
from mcpyrate.debug import step_expansion
from mcpyrate.metatools import stepr
import mcpyrate.quotes as Q, mcpyrate.debug as D
a = quotes.capture_as_macro(Q.q)
b = quotes.capture_as_macro(Q.q)
assert a.id != b.id
assert global_bindings[a.id] is Q.q
''')
bug("C24-seen", "C24", [("dialects.py", "                if statement not in self._seen:  # apply each unique dialect-import once\n                    self._seen.add(statement)\n", "                if match.group(1) not in self._seen:  # apply each unique dialect-import once\n                    self._seen.add(match.group(1))\n")], "two dialect-imports of different dialects from one module", "The second dialect-import from a module is not found in the text.",
 '''
from mcpyrate.dialects import DialectExpander
sys.path.insert(0, T)
put("dial24.py", """
from mcpyrate.dialects import Dialect
class A(Dialect):
    def transform_source(self, text): return text.replace("aaa", "1")
class B(Dialect):
    def transform_source(self, text): return text.replace("bbb", "2")
""")
e = DialectExpander("user24.py")
t = e.transform_source("from dial24 import dialects, A\\nfrom dial24 import dialects, B\\naaa bbb\\n")
assert t.endswith("1 2\\n"), t
''')
bug("C25-second", "C25", [("multiphase.py", "            if isfutureimport(stmt):\n                thisphase.append(stmt)\n", "            if isfutureimport(stmt) and not any(isfutureimport(x) for x in thisphase):\n                thisphase.append(stmt)\n")], "a module compiled in phases that has several future-imports", "Only the first future-import is part of the higher phases.",
 '''
import ast
from mcpyrate.multiphase import extract_phase
t = ast.parse("from __future__ import annotations\\nfrom __future__ import generator_stop\\nfrom mcpyrate.multiphase import macros, phase\\nwith phase[1]:\\n    x = 1\\n")
p = extract_phase(t, filename="f.py", phase=1)
assert len(p.body) == 3, len(p.body)
''')
bug("C27-runopt", "C27", [("compiler.py", "        code, docstring = _compile(source, filename=filename, self_module=self_module, optimize=optimize)\n", "        code, docstring = _compile(source, filename=filename, self_module=self_module, optimize=min(optimize, 1))\n")], "running source with optimization level 2", "The optimization level is not what the caller gave.",
 '''
from mcpyrate.compiler import run
m = run("def f():\\n    'doc'\\n", optimize=2)
assert m.f.__doc__ is None
m = run("def f():\\n    'doc'\\n    assert 0\\n", optimize=1)
assert m.f.__doc__ == "doc"
m.f()
''')
bug("C30-front", "C30", [("repl/macropython.py", "        if sys.path[0] != containing_directory:\n", "        if containing_directory not in sys.path:\n")], "a script whose directory is on the search path already, after another directory that has a module of the same name", "The directory of the script is not at the front of the search path.",
 '''
import subprocess
a, b = os.path.join(T, "a"), os.path.join(T, "b")
os.mkdir(a); os.mkdir(b)
open(os.path.join(a, "helper30.py"), "w").write("x = 'wrong'\\n")
open(os.path.join(b, "helper30.py"), "w").write("x = 'right'\\n")
open(os.path.join(b, "prog30.py"), "w").write("import helper30\\nassert helper30.x == 'right', helper30.x\\n")
env = dict(os.environ, PYTHONPATH=os.pathsep.join([os.environ["PYTHONPATH"], a, b]), PYTHONDONTWRITEBYTECODE="1")
subprocess.run([sys.executable, "-m", "mcpyrate.repl.macropython", os.path.join(b, "prog30.py")], env=env, check=True)
''')
bug("C31-twice", "C31", [("activate.py", "    SourceFileLoader.source_to_code = source_to_xcode\n", "    global stdlib_source_to_code\n    stdlib_source_to_code = SourceFileLoader.source_to_code\n    SourceFileLoader.source_to_code = source_to_xcode\n")], "enabling twice in a row, then disabling", "Disabling leaves the source-compilation hook in place.",
 '''
from importlib.machinery import SourceFileLoader
orig = SourceFileLoader.source_to_code
from mcpyrate import activate
activate.activate()
activate.deactivate()
assert SourceFileLoader.source_to_code is orig
''')
bug("C32-links", "C32", [("pycachecleaner.py", "    for root, dirs, files in os.walk(path):\n", "    for root, dirs, files in os.walk(path, followlinks=True):\n")], "a link to a directory outside of the given one", "Caches outside of the given directory are found, and deleted, through a link.",
 '''
from mcpyrate.pycachecleaner import getpycachedirs
a, b = os.path.join(T, "a"), os.path.join(T, "b")
os.makedirs(os.path.join(a, "sub", "__pycache__")); os.makedirs(os.path.join(b, "__pycache__"))
os.symlink(b, os.path.join(a, "link"))
assert getpycachedirs(a) == [os.path.join(a, "sub", "__pycache__")], getpycachedirs(a)
''')
bug("C36-color", "C36", [("debug.py", "                                        ColorScheme.GREYEDOUT))\n", "                                        ColorScheme.GRAYEDOUT))\n")], "listing the bindings of an expander that has none", "The listing fails because there is no such color.",
 '''
from mcpyrate.debug import format_bindings
from mcpyrate.expander import MacroExpander
assert "no bindings" in format_bindings(MacroExpander({}, "f.py"), globals_too=False, color=False)
''')
bug("C40-alias", "C40", [("utils.py", "    return {name: function for name, function in bindings.items() if function in functions}\n", "    found = {function: name for name, function in bindings.items() if function in functions}\n    return {name: function for function, name in found.items()}\n")], "a macro bound under two names in the expander", "Only one of the names is extracted.",
 '''
from mcpyrate.utils import extract_bindings
def m(tree, **kw): return tree
def n(tree, **kw): return tree
assert extract_bindings({"a": m, "b": m, "c": n}, m) == {"a": m, "b": m}
''')
bug("C41-share", "C41", [("bunch.py", "        self._data = other.copy()._data\n", "        self._data = other._data\n")], "changing a bundle after another one was replaced by it", "Both bundles share one store.",
 '''
from mcpyrate.bunch import Bunch
a, b = Bunch(x=1), Bunch(x=2)
a.replace(b)
b.x = 3
assert a.x == 2
''')
