"""Freeze the vocabulary: qualified names of functions and module-level names confirmed by reading (base commit)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.index import Index
ix = Index(sys.argv[1] if len(sys.argv) > 1 else None)
names = sorted(q for q, f in ix.funcs.items() if f.parent is None) + sorted(f"{m.name}.{n}" for m in ix.modules.values() for n in m.assigns)
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "baseline.json")
params = {q: f.all_params() for q, f in sorted(ix.funcs.items()) if f.parent is None and f.outer is None and f.name.startswith("_") and not f.name.startswith("__")}
json.dump({"names": names, "params": params}, open(p, "w"), indent=0)
print(len(names))
