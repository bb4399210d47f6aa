"""Runs the checks against textual variants of the repository.

selftest/mutants.py: M = [(property, file, old, new[, note])]   must be reported for that property
selftest/refactors.py: R = [(file, old, new[, note])]           every check must stay quiet
usage: selftest.py [mutants|refactors] [property ...]
"""
import ast, importlib, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from concurrent.futures import ProcessPoolExecutor
REPO = os.environ.get("MCPYRATE_REPO", "/repo")


def plain(s):
    t = ast.parse(s)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and ast.get_docstring(n, clean=False) is not None:
            n.body = n.body[1:] or [ast.Pass()]
    return ast.unparse(t)


def variant(file, edits):
    d = tempfile.mkdtemp(prefix="st_")
    shutil.copytree(os.path.join(REPO, "mcpyrate"), os.path.join(d, "mcpyrate"), ignore=shutil.ignore_patterns("__pycache__"))
    for old, new in edits:
        p = os.path.join(d, "mcpyrate", file)
        s = open(p).read()
        if s.count(old) < 1:
            s = plain(s)    # the edit is of the text without comments and docstrings
        if s.count(old) < 1:
            return d, f"text not found: {old[:60]!r}"
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
        try:
            compile(s, p, "exec")
        except SyntaxError as e:
            return d, f"does not compile: {e}"
    return d, None


def one(job):
    kind, i, pid, file, edits, note = job
    from lib.check import run
    from lib.index import AnalysisBroken
    d, err = variant(file, edits)
    try:
        if err:
            return kind, i, pid, note, "BROKEN-SPEC " + err, None
        try:
            rc, viol, _ = run(pid, "quick", root=d, quiet=True, write=False)
            return kind, i, pid, note, rc, {k: v[0] for k, v in list(viol.items())[:3]}
        except AnalysisBroken as e:
            return kind, i, pid, note, "ANALYSIS-BROKEN", str(e)
        except Exception as e:
            import traceback
            return kind, i, pid, note, "ERROR", traceback.format_exc()[-600:]
    finally:
        shutil.rmtree(d)


def main():
    which = sys.argv[1] if len(sys.argv) > 1 else "all"
    pids = set(sys.argv[2:])
    jobs = []
    allp = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "rules")) if f.startswith("c"))
    sys.path.insert(0, os.path.join(V, "selftest"))
    if which in ("all", "mutants"):
        for i, m in enumerate(importlib.import_module("mutants").M):
            edits = m[2] if isinstance(m[2], list) else [(m[2], m[3])]
            note = m[-1] if len(m) > (3 if isinstance(m[2], list) else 4) else edits[0][1][:60]
            if not pids or m[0] in pids:
                jobs.append(("mutant", i, m[0], m[1], edits, note))
    if which in ("all", "refactors"):
        for i, r in enumerate(importlib.import_module("refactors").R):
            edits = r[1] if isinstance(r[1], list) else [(r[1], r[2])]
            note = r[-1] if len(r) > (2 if isinstance(r[1], list) else 3) else edits[0][1][:60]
            for p in allp:
                if not pids or p in pids:
                    jobs.append(("refactor", i, p, r[0], edits, note))
    bad = 0
    with ProcessPoolExecutor(8) as ex:
        for kind, i, pid, note, rc, info in ex.map(one, jobs):
            good = rc == (1 if kind == "mutant" else 0)
            if not good:
                bad += 1
                print(f"{'MISSED' if kind == 'mutant' else 'ALARM'} {kind} {i} {pid} [{note!r}] -> {rc} {info}")
            elif os.environ.get("V"):
                print(f"ok {kind} {i} {pid} [{note!r}] {info}")
    print(len(jobs), "runs,", bad, "unexpected")


if __name__ == "__main__":
    main()
