"""mut.py FILE: applies mutant/refactor number (m12 / r3) into /tmp/mut and prints the directory"""
import importlib, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "selftest"))
k, i = sys.argv[1][0], int(sys.argv[1][1:])
x = importlib.import_module("mutants").M[i][1:] if k == "m" else importlib.import_module("refactors").R[i]
edits = x[1] if isinstance(x[1], list) else [(x[1], x[2])]
d = "/tmp/mut"
shutil.rmtree(d, ignore_errors=True)
shutil.copytree("/repo/mcpyrate", d + "/mcpyrate")
p = os.path.join(d, "mcpyrate", x[0])
s = open(p).read()
for old, new in edits:
    assert old in s, old
    s = s.replace(old, new, 1)
open(p, "w").write(s)
print(d, x[0])
