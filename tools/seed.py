"""Makes planted bugs from specs: seed.py SPECFILE [ID ...]
A spec file is Python that calls bug(id, property, edits=[(file, old, new), ...], needs=, breaks=, demo=text of demo.py).
Each is tried in the scratch copy /tmp/wt: build, tests, demo with and without the change, and which checks report it."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
PY = "/opt/venv/bin/python"
BUGS = []
HEAD = '''import os, sys, textwrap
T = os.path.dirname(os.path.abspath(__file__))
def put(name, text):
    p = os.path.join(T, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(textwrap.dedent(text))
    return p
'''
SH = '''#!/bin/bash
# run in the repository: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$here"/*.py "$T"/
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
export PYTHONPATH="$PWD:$T" PYTHONPYCACHEPREFIX="$T/pyc" HOME="$T" PYTHONHASHSEED=0
unset PYTHONDONTWRITEBYTECODE
cd "$T" && timeout 200 "$PY" demo.py
'''


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


def sh(cmd, cwd=WT, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=env)


def demo(d):
    r = sh(["bash", d + "/demo.sh"])
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def main():
    if not os.path.isdir(WT):
        subprocess.run(["cp", "-a", "/repo", WT], check=True)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd")
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), {"bug": bug})
    want = set(sys.argv[2:])
    resf = os.path.join(V, "tools", "seed_results.json")
    res = json.load(open(resf)) if os.path.exists(resf) else {}
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -- .")
        d = os.path.join("/tmp/seedout", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(SH)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc0, out0 = demo(d)
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(WT, "mcpyrate", f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"{s.count(old)} occurrences of {old[:50]!r}"
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(b["id"], "SPEC", bad)
            continue
        open(d + "/patch.diff", "w").write(sh("git diff").stdout)
        rc1, out1 = demo(d)
        bld = sh([PY, "/tmp/vp/build_check.py"], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=WT))
        t = sh("bash /tmp/vp/test.sh /tmp/o_seed.json")
        tests = [l for l in (t.stdout + t.stderr).splitlines() if "passed" in l][:1]
        failed = json.load(open("/tmp/o_seed.json")).get("failed", "?") if os.path.exists("/tmp/o_seed.json") else "?"
        pids = sorted(f[:-3].upper() for f in os.listdir(V + "/rules") if f.startswith("c"))

        def chk(p):
            r = subprocess.run(["python3", V + "/check.py", p], cwd=V, capture_output=True, text=True, env=dict(os.environ, MCPYRATE_REPO=WT, VERIF_NOWRITE="1"))
            return p, r.returncode, [l for l in r.stdout.splitlines() if "[" in l][:2]

        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(chk, pids))
        caught = [p for p, rc, _ in rs if rc == 1]
        err = [p for p, rc, _ in rs if rc not in (0, 1)]
        ok = rc0 == 0 and rc1 not in (0, 124) and bld.returncode == 0 and not failed
        print(b["id"], "OK" if ok else f"NOT-VALID demo {rc0}->{rc1} build {bld.returncode} failed {failed}", "caught-by-own" if b["property"] in caught else "MISSED", caught, "ERR " + str(err) if err else "")
        if rc0:
            print("   unchanged:", out0)
        if rc1 == 0 or "-v" in sys.argv:
            print("   changed:", out1)
        for p, rc, l in rs:
            if p == b["property"] and l:
                print("   ", l[0][:200])
        res[b["id"]] = dict(property=b["property"], ok=ok, caught=caught, err=err, breaks=b["breaks"])
        if ok:
            dd = os.path.join(V, "seeded", b["id"])
            shutil.rmtree(dd, ignore_errors=True)
            shutil.copytree(d, dd)
        sh("git checkout -q -- .")
        json.dump(res, open(resf, "w"), indent=1, sort_keys=True)


main()
