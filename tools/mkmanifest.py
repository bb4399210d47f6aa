"""Regenerates /verif/MANIFEST.json from the rules present and the property list."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "N01": "equality of parse(unparse(t)) and t depends on the token-level concrete syntax and literal formatting of every tree; the statically decidable parts (every child rendered, in order, with its own tokens, delimited) are claimed as C12 and C13",
    "N02": "termination and meaning of expansion are determined by arbitrary user macros run at compile time; no static argument over this repository bounds them",
    "N03": "depends on the interleavings of the import system's locks and on user macro code; the package itself has no synchronisation to analyse",
    "N04": "relates two executions of the same program through the interpreter's bytecode cache; the statically decidable part (when bytecode is rebuilt) is claimed as C04",
}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "rules", i.lower() + ".py")
    if os.path.exists(f):
        mod = ast.parse(open(f).read())
        meta = {}
        for st in mod.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id in ("TECHNIQUE", "LEVEL_NOTE"):
                meta[st.targets[0].id] = ast.literal_eval(st.value)
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                       "technique": meta.get("TECHNIQUE", "static path-sensitive dataflow analysis of the source (abstract interpretation without a solver)"),
                       "level": "other",
                       "level_note": meta.get("LEVEL_NOTE", "Static rule decided on all abstract paths of the functions concerned, in the current source; "
                                              "assumes names are not rebound dynamically and treats user callbacks as opaque.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
