bug("C42-some", "C42", [("debug.py", "            if not all(present):\n", "            if not any(present):\n")], "a node that has a line number but no column", "Nodes that lack only some of the location fields are not reported.",
 '''
import ast
from mcpyrate.debug import SourceLocationInfoValidator
t = ast.Tuple(elts=[ast.Name(id="x", lineno=1), ast.Name(id="y", lineno=1, col_offset=0)], lineno=1, col_offset=0)
v = SourceLocationInfoValidator()
v.visit(t)
assert [(n.id, f) for n, _, f in v.collected if isinstance(n, ast.Name)] == [("x", ["col_offset"])], v.collected
''')
bug("C42-stream", "C42", [("repl/utils.py", "    print(inspect.cleandoc(obj.__doc__), file=file)\n", "    print(inspect.cleandoc(obj.__doc__), file=sys.stderr)\n")], "asking for help with a stream of one's own", "The documentation goes to another stream than the rest.",
 '''
import io
from mcpyrate.repl.utils import doc
def f():
    "hello there"
s = io.StringIO()
doc(f, file=s)
assert "hello there" in s.getvalue()
''')
