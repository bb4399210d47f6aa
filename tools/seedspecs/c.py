EXP = '''
import ast
from mcpyrate.core import *
from mcpyrate.expander import *
'''
bug("C03-repl", "C03", [("repl/console.py", "            tree = self.expander.visit(tree)\n            tree = global_postprocess(tree)\n", "            tree = self.expander.visit(tree)\n            if bindings:\n                tree = global_postprocess(tree)\n")], "an input of a console session that uses a macro imported by an earlier input, with a postprocessor registered", "Inputs without a macro-import are not postprocessed in the console.",
 '''
import ast
from mcpyrate.repl.console import MacroConsole
from mcpyrate import core
c = MacroConsole()
c.write = lambda s: None
seen = []
core.add_postprocessor(lambda tree: (seen.append(1), tree)[1])
c.push("x = 1")
assert seen, "not postprocessed"
''')
bug("C12-posonly", "C12", [("unparser.py", "        defaults = [None] * (nposargs - len(t.defaults)) + t.defaults\n", "        defaults = [None] * (max(nposargs, 2) - max(len(t.defaults), 1)) + t.defaults\n")], "a function that has more than one argument and no default, or exactly one argument with a default", "Defaults are lost or shifted.",
 '''
import ast
from mcpyrate import unparse
for s in ("def f(a, b, c): pass", "def f(a, /, b, *, c=1): pass", "def f(a=1): pass", "def f(a, b=1, c=2): pass", "lambda x=3: x"):
    t = ast.parse(s)
    assert ast.dump(ast.parse(unparse(t))) == ast.dump(t), s
''')
bug("C15-unset", "C15", [("quotes.py", "    elif T is ast.Tuple:\n        return tuple(unastify(elt) for elt in tree.elts)\n", "    elif T is ast.Tuple:\n        return [unastify(elt) for elt in tree.elts]\n")], "unquoting back a quoted tree that has a tuple-valued field", "The inverse of quoting gives a list for a tuple.",
 '''
import ast
from mcpyrate.quotes import astify, unastify
t = astify((1, 2))
assert unastify(t) == (1, 2)
''')
bug("C20-rel", "C20", [("coreutils.py", "    if relative_path.startswith(os.path.sep):\n        relative_path = relative_path[len(os.path.sep):]\n    return root_path, relative_path", "    relative_path = relative_path.lstrip(os.path.sep + \"_\")\n    return root_path, relative_path")], "a package directory whose name begins with an underscore", "A leading underscore of the top-level package is lost.",
 '''
from mcpyrate.coreutils import relativize
os.makedirs(os.path.join(T, "_pkg"))
sys.path.insert(0, T)
p = put("_pkg/mod.py", "")
assert relativize(p)[1] == os.path.join("_pkg", "mod.py"), relativize(p)
''')
bug("C21-second", "C21", [("splicing.py", "                if not self.first:\n                    return deepcopy(body)\n", "                if not self.first:\n                    return deepcopy(body) if len(body) > 1 else list(body)\n")], "a template with two paste indicators and a single statement to paste", "The same statement node is pasted at two places.",
 '''
import ast
from mcpyrate.splicing import splice_statements
t = ast.parse("__paste_here__\\nif 1:\\n    __paste_here__\\n").body
r = splice_statements(ast.parse("x = 1").body, t)
assert r[0] is not r[1].body[0]
assert ast.unparse(r[1].body[0]) == "x = 1"
''')
bug("C22-all", "C22", [("splicing.py", "            return type(target) is ast.Name and target.id == \"__all__\"", "            return type(target) is ast.Name and target.id.startswith(\"__\") and target.id.endswith(\"l__\")")], "a template that assigns a dunder name ending in l", "Assignments of the template are dropped as if they were the magic all.",
 '''
import ast
from mcpyrate.splicing import splice_dialect
t = ast.parse("__shell__ = 1\\n__paste_here__\\n").body
r = splice_dialect(ast.parse("x = 1").body, t)
assert "__shell__ = 1" in ast.unparse(ast.Module(body=r, type_ignores=[]))
''')
bug("C23-order", "C23", [("dialects.py", "            for dialectname, cls in bindings.items():\n                if not", "            for dialectname, cls in sorted(bindings.items()):\n                if not")], "one dialect-import that names several dialects in non-alphabetical order", "The dialects of one import are applied in alphabetical order.",
 '''
import ast
from mcpyrate.compiler import expand
sys.path.insert(0, T)
put("dd.py", """
from mcpyrate.dialects import Dialect
log = []
class B(Dialect):
    def transform_ast(self, tree):
        log.append("B"); return NotImplemented
class A(Dialect):
    def transform_ast(self, tree):
        log.append("A"); return NotImplemented
""")
expand("from dd import dialects, B, A\\nx = 1\\n", filename="x.py")
import dd
assert dd.log == ["B", "A"], dd.log
''')
bug("C26-shared", "C26", [("multiphase.py", "            remaining.extend(deepcopy(withphase.body))\n", "            remaining.extend(copy(stmt) for stmt in withphase.body)\n")], "a phase whose expansion alters its own nodes in place", "The code of phase 1 is lifted to phase 0 without an own copy.",
 '''
import ast
from mcpyrate.multiphase import extract_phase
t = ast.parse("from mcpyrate.multiphase import macros, phase\\nwith phase[1]:\\n    def f():\\n        return 1\\n")
one = extract_phase(t, filename="x.py", phase=1)
one.body[0].body[0] = ast.Pass()
assert "return 1" in ast.unparse(t)
''')
bug("C28-doc", "C28", [("utils.py", "    if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):\n", "    if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str) and len(body) > 1:\n")], "a module or function that has nothing but a docstring", "A docstring that is the only statement is not found.",
 '''
import ast
from mcpyrate.utils import getdocstring
assert getdocstring(ast.parse("'doc'").body) == "doc"
assert getdocstring(ast.parse("'doc'\\nx = 1").body) == "doc"
''')
bug("C29-reload", "C29", [("repl/console.py", "                self.expander.bindings.update(bindings)\n", "                for name, function in bindings.items():\n                    self.expander.bindings.setdefault(name, function)\n")], "importing another macro under the name of one imported earlier in the session", "The earlier binding of a name stays in force.",
 '''
from mcpyrate.repl.console import MacroConsole
sys.path.insert(0, T)
put("m1.py", "import ast\\ndef m(tree, **kw): return ast.Constant(value=1)\\n")
put("m2.py", "import ast\\ndef m(tree, **kw): return ast.Constant(value=2)\\n")
c = MacroConsole()
c.write = lambda s: None
c.push("from m1 import macros, m")
c.push("x = m[0]")
c.push("from m2 import macros, m")
c.push("y = m[0]")
assert (c.locals["x"], c.locals["y"]) == (1, 2), (c.locals["x"], c.locals["y"])
''')
bug("C33-leak", "C33", [("walkers.py", "        newstate = self.state.copy()\n        newstate.update(**bindings)\n        # Due", "        newstate = self.state.copy() if bindings else self.state\n        newstate.update(**bindings)\n        # Due")], "a subtree state set up without bindings, and changed inside the subtree", "Changes of the state inside a subtree reach its siblings.",
 '''
import ast
from mcpyrate.walkers import ASTVisitor
class V(ASTVisitor):
    def examine(self, tree):
        if type(tree) is ast.BinOp:
            self.withstate(tree.left)
            self.visit(tree.left)
            self.visit(tree.right)
        elif type(tree) is ast.Constant:
            self.collect(self.state.get("n", 0))
            self.state.n = self.state.get("n", 0) + 1
        else:
            self.generic_visit(tree)
v = V(n=0)
v.visit(ast.parse("1 + 2", mode="eval"))
assert v.collected == [0, 0], v.collected
''')
bug("C34-nested", "C34", [("markers.py", "            if isinstance(tree, cls):\n                self.collect(tree)\n            self.generic_visit(tree)\n", "            if isinstance(tree, cls):\n                self.collect(tree)\n            else:\n                self.generic_visit(tree)\n")], "a marker inside a marker", "Markers inside markers are not found.",
 '''
import ast
from mcpyrate.markers import ASTMarker, get_markers
t = ASTMarker(body=ast.Expr(value=ASTMarker(body=ast.Name(id="x"))))
assert len(get_markers(t)) == 2
''')
bug("C35-done", "C35", [("expander.py", "    tree.insert(0, Done(dummy))  # mark", "    tree.insert(0, Done(dummy) if len(tree) != 1 else dummy)  # mark")], "a block macro whose expansion is one statement", "The coverage statement is not protected from later macros.",
 EXP + '''
def m(tree, **kw): return ast.Pass()
e = MacroExpander({"m": m}, "x.py")
t = e.visit_once(ast.parse("with m:\\n    x")).body
assert type(t.body[0]).__name__ == "Done", t.body
''')
bug("C37-hook", "C37", [("core.py", "            oldtree = deepcopy(target)  # including the macro invocation itself", "            oldtree = deepcopy(target) if not isinstance(target, list) else target  # including the macro invocation itself"), ("core.py", "        if self._debughook:\n            oldid = id(target)\n", "        if self._debughook and self.recursive:\n            oldid = id(target)\n            oldtree = target\n        elif self._debughook:\n            oldid = id(target)\n")], "a debug hook under recursive expansion and a macro that edits its input in place", "The hook gets the invocation as it is after the macro ran.",
 EXP + '''
def m(tree, **kw):
    tree.id = "changed"
    return tree
e = MacroExpander({"m": m}, "x.py")
seen = []
with e.debughook(lambda *args: seen.append(args)):
    e.visit(ast.parse("m[a]", mode="eval").body)
old = [x for x in seen[0] if isinstance(x, ast.AST)][0]
assert "changed" not in ast.unparse(old), ast.unparse(old)
''')
bug("C38-lineno", "C38", [("utils.py", "        for fieldname, node in ast.iter_fields(tree):\n            lineno = get_lineno(node)\n            if lineno:\n                return lineno\n", "        for node in ast.iter_child_nodes(tree):\n            lineno = get_lineno(node)\n            if lineno:\n                return lineno\n            break\n")], "a node without location whose first child has none either", "The line of an invocation without a location is not found.",
 '''
import ast
from mcpyrate.utils import get_lineno
b = ast.parse("\\n\\nx", mode="eval").body
n = ast.BinOp(left=ast.Name(id="a"), op=ast.Add(), right=b)
assert get_lineno(n) == 3
''')
bug("C39-none", "C39", [("astdumper.py", "for k, v in iter_fields(tree)]", "for k, v in iter_fields(tree) if v is not None or multiline]")], "a node with an absent optional field, on one line", "Absent fields are left out of one-line dumps.",
 '''
import ast
from mcpyrate import dump
t = ast.Return(value=None)
assert dump(t, multiline=False) == "Return(value=None)", dump(t, multiline=False)
''')
