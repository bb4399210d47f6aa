"""Regenerates /verif/properties.jsonl (hand-maintained source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Temporary expander settings end with their dynamic extent",
     "Whenever the system changes a shared setting for a dynamic extent - an expander's recursive/once mode, its debug hook, the quasiquote nesting level, the nesting level of expansion stepping, a nesting-level tracker, a tree walker's state - the setting has its previous value again when that extent is left, whether it is left normally or by an exception raised by a macro, a hook or a visitor. The temporary value is in force for the whole extent, so that what is expanded, quoted or walked inside sees it.",
     ["programs", "fault_sequences"],
     "for every nesting of visits/quotes/debug extents and every point inside them at which user code (macro function, hook, walker) may raise",
     "Tests leave each extent normally; the number of places where an exception can leave an extent is unbounded and none is sampled.",
     ["mcpyrate/core.py", "mcpyrate/quotes.py", "mcpyrate/debug.py", "mcpyrate/metatools.py", "mcpyrate/utils.py", "mcpyrate/walkers.py"],
     [("context managers that save, set and restore in a finally", "core.BaseMacroExpander._recursive_mode, debughook; utils.NestingLevelTracker"),
      ("push/pop of walker state", "walkers.BaseASTWalker/ASTVisitor/ASTTransformer.visit")],
     [("recursive", "whether output of macros is expanded again", "BaseMacroExpander"),
      ("_debughook", "hook called at each expansion", "BaseMacroExpander")],
     ["BaseMacroExpander.visit_once", "BaseMacroExpander.visit_recursively", "BaseMacroExpander.debughook", "quotes.q", "debug.step_expansion", "walkers"])

prop("C02", "Temporary modules never outlive the compilation that needed them",
     "While a module is compiled in several phases a temporary module stands in for it in the interpreter's module table, and when the compilation ends - successfully or because any phase raises - the table again holds exactly what it held before for that name: the original module if there was one, no entry otherwise. A temporary module created as a context manager is likewise removed from the table and, if it was published there, from its parent package, under its actual name (auto-generated names included), on every way out; if creating it fails, nothing is removed.",
     ["programs", "fault_sequences"],
     "for every module using phases, every phase count, and every point at which compiling or running a phase raises; for every use of the temporary module context",
     "Tests only exercise successful multi-phase compiles and explicitly named temporary modules.",
     ["mcpyrate/multiphase.py", "mcpyrate/compiler.py"],
     [("record original entry, inject, reinstate/delete", "multiphase.multiphase_expand"), ("create/destroy", "compiler.temporary_module")],
     [("sys.modules", "the interpreter's module table", "multiphase_expand, temporary_module")])

prop("C03", "Every compile route runs the full transform pipeline in order",
     "Whichever way macro-enabled code enters the system (import, run-time compile/run, plain console, IPython), the code that reaches Python's compiler has gone, in this order and as far as the route supports dialects, through dialect source transforms, parsing, dialect AST transforms, macro-import collection, macro expansion with the collected bindings, global postprocessing, dialect postprocessing, and, for files and run-time compiled code, a check that no AST marker is left. The output of each stage is what the next stage consumes.",
     ["programs", "inputs"],
     "for every program and every entry point; on every path through the pipeline functions",
     "Tests use inputs that exercise one or two stages; a stage skipped or fed a stale tree on some path is invisible unless that stage matters for the sample.",
     ["mcpyrate/compiler.py", "mcpyrate/multiphase.py", "mcpyrate/repl/console.py", "mcpyrate/repl/iconsole.py", "mcpyrate/expander.py", "mcpyrate/core.py"],
     [("expand/_compile/singlephase_expand", "compiler"), ("runsource/ast_transform", "repl consoles"), ("global_postprocess", "core")])

prop("C04", "Bytecode is rebuilt when any macro or dialect dependency changes",
     "The freshness timestamp computed for a source file is never older than the modification time of the file itself or of any source file it obtains macros or dialects from, followed transitively, including imports that appear inside top-level compile-time phases. A stored dependency record is used only if it was made for exactly the current modification time of that same file, relative imports are resolved against the file's own package, and an unreadable record is treated as absent.",
     ["histories", "programs"],
     "for every dependency graph between macro modules and every history of edits to its files",
     "Needs arbitrary dependency graphs and edit histories; tests never edit files between imports.",
     ["mcpyrate/importer.py"],
     [("path_stats: scan, recurse, max", "importer.path_stats"), ("delegation for non-.py and stdlib", "importer.path_xstats")],
     [("<pyc>.mcpyrate.pickle", "cached macro-import statements of one file", "importer.path_stats")])

prop("C05", "Every failing macro application is reported with its use site",
     "Any exception raised while a macro is looked up, runs, or returns something that is not an AST node, an iterable of AST nodes or nothing, leaves the expander as one error that names the file and line of the use site and the macro, and is chained to the original exception. When macro applications nest, the reports of the outer use sites are added before the inner ones and the root cause stays the direct cause.",
     ["programs", "fault_sequences"],
     "for every macro, every invocation kind, every exception type derived from Exception and every nesting depth",
     "The tests trigger no failing nested expansions and never inspect the report.",
     ["mcpyrate/core.py", "mcpyrate/utils.py"],
     [("try/except around application and type check; telescoping", "core.BaseMacroExpander.expand")])

prop("C06", "Macro output is completed before it is used",
     "Whatever a macro returns, the nodes that the expander puts in place of the invocation have had missing source locations filled from the invocation and missing name contexts filled in before they are expanded again or handed on, and they are expanded again exactly when the expander is in recursive mode. At the end of a whole-module expansion, the expander's own markers are removed, contexts are fixed once more with shared nodes copied, and the registered custom postprocessors run in registration order; removing one of them removes that one only.",
     ["programs"],
     "for every macro output and every expansion mode",
     "Depends on every shape of macro output; tests sample a few well-formed ones.",
     ["mcpyrate/core.py"],
     [("_visit_expansion", "core.BaseMacroExpander"), ("global_postprocess, add_postprocessor, remove_postprocessor", "core")])

prop("C07", "Expand-once, expand-recursively and 'done' are honoured everywhere",
     "Expanding once makes one pass with recursion off and shields its result from all later passes; expanding recursively iterates with recursion on even inside an outer expand-once; the public expansion operators for quoted code and for macro bodies choose the same modes as their names say. A subtree marked as done is never looked into by the expander or by the macro collector, and a name macro that answers with the same name stops expanding while any other answer follows the surrounding mode.",
     ["programs"],
     "for every tree, macro set and nesting of expansion modes",
     "Modes nest arbitrarily; tests cover single-level use.",
     ["mcpyrate/core.py", "mcpyrate/expander.py", "mcpyrate/metatools.py"],
     [("visit, visit_once, visit_recursively", "core.BaseMacroExpander"), ("visit_Name", "expander.MacroExpander"), ("expand family", "metatools")])

prop("C08", "Macros are invoked only as declared and receive what is documented",
     "A name is treated as a macro invocation only if it is bound to a macro and the invocation fits the declaration: bare names only for macros declared as name macros, bracketed (or parenthesised, non-empty, non-starred) arguments only for macros declared parametric. For each invocation kind the macro gets the documented tree (subscript contents; block body, or the remaining with statement while other context managers are left; decorated definition with its own decorator removed; the name), its arguments, for blocks the as-part, plus syntax kind, expander and an unmodified copy of the whole invocation. Several block macros in one with are applied left to right and several decorator macros innermost first, on classes, functions and async functions alike.",
     ["programs"],
     "for every macro, declaration and invocation form in any program",
     "Combinations of declaration, syntax form and position are unbounded; tests use few.",
     ["mcpyrate/expander.py"],
     [("destructure_candidate, ismacrocall, visit_*", "expander.MacroExpander")])

prop("C09", "Finding macros and expanding macros agree on what a macro use is",
     "The collector that reports which macros a tree still invokes recognises exactly the same invocation forms, in the same node types and with the same acceptance rules, as the expander that expands them, never raises on a tree that the expander accepts, and reports each macro once per invocation kind. It also looks into macro arguments, bodies and the remaining decorators and context managers.",
     ["programs"],
     "for every tree and every set of bindings",
     "Agreement of two traversals over all trees; tests compare none.",
     ["mcpyrate/expander.py"],
     [("MacroCollector.visit_* vs MacroExpander.visit_*", "expander")])

prop("C10", "Name contexts are right for every assignment, deletion and load position",
     "After context fixing, every name, attribute, subscript, starred, list and tuple node has the store context exactly where Python's grammar makes it an assignment target, the delete context exactly where it is deleted, and the load context elsewhere, for all statement and expression forms of the language; value parts of attribute and subscript targets and the indices are loads. With copying enabled a node that appears at several positions is copied rather than given a conflicting context.",
     ["programs"],
     "for every syntax tree over the full Python grammar",
     "The grammar has dozens of target positions and arbitrary nesting; tests cover a handful.",
     ["mcpyrate/astfixers.py"],
     [("_CtxFixer", "astfixers.fix_ctx")])

prop("C11", "Source locations are filled without gaps or clobbering",
     "Filling locations gives every node of a tree that lacks one the location of its reference (or, in parent mode, of the nearest located ancestor), leaves already located nodes alone unless overwriting was asked for, never changes the reference node, and reaches every descendant including those in lists and markers. Nodes made by the expander itself for coverage, import rewriting, and deleted macros carry the location of the invocation they replace.",
     ["programs"],
     "for every tree with any pattern of missing locations, and each mode",
     "Missing-location patterns are unbounded; tests do not check locations.",
     ["mcpyrate/astfixers.py", "mcpyrate/expander.py", "mcpyrate/core.py", "mcpyrate/metatools.py"],
     [("fix_locations", "astfixers"), ("_insert_coverage_dummy_stmt, _make_coverage_dummy_expr", "expander")])

prop("C12", "Unparsing renders every part of every kind of node",
     "For every node kind that occurs in code of the running Python's syntax there is a rendering, and for every child that the node carries (bodies, else/finally parts, decorators, type parameters, annotations, defaults, star parts, keys, guards, patterns, aliases, relative-import level and so on) the rendering includes it whenever it is present, at most once on any path, and never fails because an optional child is absent or a list is empty.",
     ["programs"],
     "for every syntax tree of the running Python version",
     "The tree space is the whole grammar; the tests unparse a few hand-written trees.",
     ["mcpyrate/unparser.py"],
     [("Unparser._X methods dispatched by class name", "unparser.Unparser")])

prop("C13", "Unparsed code keeps the order, operators and keywords of the source",
     "Every operator renders as its own Python token, every statement and clause carries its own keyword and punctuation, and children are rendered in the order in which the grammar puts them (for instance body before condition before alternative in a conditional expression, key before value, positional-only marker before keyword-only marker). Compound expressions and patterns are delimited so that the result groups as the tree does.",
     ["programs"],
     "for every syntax tree of the running Python version",
     "Order and token per node kind times context; tests sample a few.",
     ["mcpyrate/unparser.py"],
     [("operator tables and writer methods", "unparser.Unparser")])

prop("C14", "Renaming reaches every place an identifier can occur",
     "Renaming an identifier in a tree replaces it in every position of the grammar that holds an identifier - names, attributes, parameters, keywords, definitions, aliases, import modules, exception names, global/nonlocal lists, match captures, mapping rests and class-pattern keywords, type parameters - replaces only exact occurrences, and leaves everything else untouched.",
     ["programs"],
     "for every tree and every pair of names",
     "Identifier positions times nesting; there are no tests for it.",
     ["mcpyrate/utils.py"], [("rename", "utils.rename")])

prop("C15", "The quasiquote compiler, its inverse and its runtime agree",
     "Quoting a tree produces code that calls only run-time helpers that exist, with the arguments those helpers take and in the order they take them; every construct the quote compiler emits is recognised, with the same argument positions, by the inverse transformation and by the detectors of captured values, macros and nested quotes. Every constant the language can contain, every node, list and marker can be quoted, and the fields of every node are preserved.",
     ["programs"],
     "for every quoted tree at every quote depth",
     "Emitter, inverse and runtime are three encodings of one table; tests only round-trip a few snippets.",
     ["mcpyrate/quotes.py", "mcpyrate/coreutils.py", "mcpyrate/debug.py", "mcpyrate/metatools.py"],
     [("astify/unastify, capture_*/lookup_*, is_captured_*", "quotes"), ("_mcpyrate_attr", "coreutils")])

prop("C16", "Quote and unquote operators reject misuse and track nesting",
     "Each quote and unquote operator rejects any invocation kind it does not support before it changes anything, unquotes outside a quote are an error, and the quote depth is one higher inside a quote and one lower inside an unquote for exactly the extent of the operator. An unquote belonging to an outer quote is not carried out at an inner depth but kept for later.",
     ["programs"],
     "for every nesting of quotes and unquotes and every invocation kind",
     "Nesting depth is unbounded and misuse has many forms; tests use depth one or two and correct forms.",
     ["mcpyrate/quotes.py"], [("q,u,n,a,s,t,h", "quotes"), ("_quotelevel", "quotes")])

prop("C17", "Hygienic captures keep denoting what was captured",
     "A hygienically captured value is stored by value at capture time and looked up under a key that cannot collide with another capture, and repeated look-ups of the same capture yield the same object for as long as the process lives; a captured macro stays callable under a unique name in every expander. Cached results are never served for a different capture, even after the original objects have been garbage-collected.",
     ["programs", "histories"],
     "for every sequence of captures and look-ups in one process",
     "Depends on garbage-collection history and on arbitrary numbers of captures.",
     ["mcpyrate/quotes.py", "mcpyrate/utils.py"],
     [("capture_value/lookup_value", "quotes"), ("gensym", "utils")],
     [("_lookup_cache", "thawed values by capture", "quotes"), ("global_bindings", "captured macros", "core")])

prop("C18", "Generated names are unique",
     "A generated symbol differs from every other generated symbol of the process and practically from every user name, and is a valid identifier for every base name that is one itself; wherever the system itself invents a module, macro or variable name that user code could collide with, it uses a generated symbol.",
     ["histories", "programs"],
     "for every number of generated symbols and every basename",
     "Uniqueness over all histories cannot be sampled.",
     ["mcpyrate/utils.py", "mcpyrate/quotes.py", "mcpyrate/compiler.py"],
     [("gensym", "utils"), ("callers", "quotes, compiler")])

prop("C19", "Macro-imports bind the named macros and become plain absolute imports",
     "Every macro-import at the top level binds exactly the listed names (or their as-names) to the functions of the resolved module, and then becomes an import of that module by absolute name without any of the macro names (or, for imports from the module itself, disappears leaving a coverage dummy), at the same position and location, except where transformation was declined. A missing module or a name that does not exist is reported as an error with the use site; in reload mode the module is reloaded before binding.",
     ["programs"],
     "for every module and every macro-import statement in it",
     "Form and error combinations; tests import a few macros successfully.",
     ["mcpyrate/expander.py", "mcpyrate/coreutils.py"],
     [("find_macros", "expander"), ("get_macros, ismacroimport", "coreutils")])

prop("C20", "File-to-package resolution respects directory boundaries",
     "Mapping a source file to its package, for relative macro-imports, picks an entry of the module search path that is truly an ancestor directory of the file - never one that is merely a textual prefix of it - and the deepest such entry when several match; files outside the search path are an error. The resulting dotted name consists of the path components between that entry and the file.",
     ["inputs", "configurations"],
     "for every search path and every file path",
     "Paths and search-path configurations are unbounded; tests use the checkout only.",
     ["mcpyrate/coreutils.py"], [("resolve_package, relativize, match_syspath", "coreutils")])

prop("C21", "Splicing templates yields fresh, complete trees",
     "Splicing into a template replaces every occurrence of the placeholder, gives each occurrence its own copy, accepts the same single-node and list forms in every argument, leaves placeholders of other names and non-placeholder uses of names alone, and returns a tree in which no placeholder of the template is left. Statement splices replace whole expression statements and expression splices replace only the name.",
     ["programs"],
     "for every template and replacement",
     "Number and position of placeholders are unbounded; tests use one occurrence.",
     ["mcpyrate/splicing.py"], [("splice_expression, splice_statements", "splicing")])

prop("C22", "Dialect templates keep module structure valid",
     "Splicing a module body into a dialect template yields a module in which the docstring comes first as an ordinary docstring statement, then future-imports, then the user's magic exports and the macro- and dialect-imports of both sources in the documented order, then the template with the user code spliced in; nothing of either source is lost or duplicated. The location given for the dialect is given to the nodes of the template and not to those of the user, and invalid arguments are rejected.",
     ["programs"],
     "for every template and every user module body",
     "Combinations of docstring/future/magic parts in both bodies; tests cover a few.",
     ["mcpyrate/splicing.py", "mcpyrate/coreutils.py"], [("splice_dialect", "splicing"), ("split_futureimports, inject_after_futureimports", "coreutils")])

prop("C23", "Each requested dialect is applied exactly once per stage",
     "For every dialect-import the dialect is instantiated and its source transform, AST transform and postprocessing are each applied in order of appearance, once, to the output of the previous dialect; a dialect may decline a stage, and also then takes part in the later ones. A dialect-import inside transformed text or trees that appears as a result of a transform is honoured too, the dialect-import statement itself is turned into a plain import of the module, and failures are reported with the dialect's name.",
     ["programs"],
     "for every list of dialects and every transform behaviour",
     "Chains of dialects are unbounded; tests use at most two.",
     ["mcpyrate/dialects.py"], [("DialectExpander.transform_source/transform_ast/postprocess_ast", "dialects")])

prop("C24", "Finding dialect-imports in text never harms the rest of the text",
     "In source-transform mode a dialect-import line (in its documented form: one line, no parentheses, no continuation) is recognised only at the start of a line, is confined to that single line, and its processing changes nothing but that line; every dialect-import line in the text is found, each as its own statement, including several in a row.",
     ["inputs"],
     "for every source text",
     "Quantifies over all texts; tests have isolated dialect-import lines.",
     ["mcpyrate/dialects.py"], [("_dialectimport pattern and its use", "dialects.DialectExpander.transform_source")])

prop("C25", "Future-imports take effect in every phase and stay first",
     "Future-imports of a module that is compiled in phases are part of every phase, and whatever the system injects into a module body goes after the docstring and after all future-imports, for any number of future-imports, for bodies that have nothing else, and with or without a docstring.",
     ["programs"],
     "for every module body",
     "Boundary shapes of module bodies; tests have one future-import in the usual place.",
     ["mcpyrate/coreutils.py", "mcpyrate/multiphase.py", "mcpyrate/splicing.py"],
     [("split_futureimports/inject_after_futureimports", "coreutils"), ("extract_phase", "multiphase")])

prop("C26", "Higher phases are lifted completely, in order and independently",
     "A module with compile-time phases is compiled from the highest declared phase down to zero with no phase skipped; the code of phase k runs in phase k and is also present at the same place in all lower phases, as an independent copy. Each phase sees a phase number constant, one and the same temporary module carries definitions from phase to phase, and phase statements are only accepted with a positive integer literal, no as-part, alone in their statement.",
     ["programs"],
     "for every arrangement of phases in a module",
     "Number and arrangement of phases are unbounded; tests use up to two phases.",
     ["mcpyrate/multiphase.py"], [("iswithphase, extract_phase, detect_highest_phase, multiphase_expand", "multiphase")])

prop("C27", "Compile parameters reach every stage unchanged",
     "The file name, the name of the module being compiled and the optimization level that a caller gives to an entry point reach every parse, expansion, macro-import resolution and call of Python's compiler made on its behalf, for single- and multi-phase modules and when called by the import system. Code without a source file is given locations by unparsing first; code with one is never unparsed.",
     ["configurations", "programs"],
     "for every entry point and every combination of parameters",
     "Tests never use non-default optimization or check file names.",
     ["mcpyrate/compiler.py", "mcpyrate/multiphase.py", "mcpyrate/importer.py", "mcpyrate/expander.py"],
     [("expand, compile, run, singlephase_expand, multiphase_expand, source_to_xcode", "compiler, multiphase, importer")])

prop("C28", "Run-time modules behave like imported modules",
     "A module created at run time is registered in the module table under its name, has name, file and package set, is attached to its parent package unless declined, and requires that the parent exists; running code uses the namespace of exactly the module given (or a new one), sets its docstring from the code when it is source (none otherwise), and returns that module. Invalid names and modules are rejected before anything is registered, and an invalid source before anything is run.",
     ["inputs", "programs"],
     "for every name, source form and module argument",
     "Argument combinations; tests use the common ones.",
     ["mcpyrate/compiler.py", "mcpyrate/utils.py"], [("create_module, run, getdocstring", "compiler, utils")])

prop("C29", "Both interactive consoles treat macro input alike",
     "In both consoles, each input that contains macro-imports reloads the macro modules, merges the found bindings into the session's bindings, makes the macros (also those defined in the session itself) available as run-time objects under their bound names, and expands with all bindings made so far in the session; an input that fails to compile or expand is reported and leaves the session usable with its earlier bindings.",
     ["histories", "inputs"],
     "for every history of console inputs",
     "Histories of interactive input are unbounded; there are no console tests.",
     ["mcpyrate/repl/console.py", "mcpyrate/repl/iconsole.py"], [("MacroConsole.runsource", "repl.console"), ("MacroTransformer/IMcpyrateExtension", "repl.iconsole")])

prop("C30", "The command-line runner imports the program as the main module",
     "Running a script or module through the wrapper makes it the main module with the right name and search path, activates the macro expander first, and on failure puts back the main module that was there; script paths are made relative to the directory that is put at the front of the search path, and a package's main submodule is imported under its own name.",
     ["configurations", "fault_sequences"],
     "for every way of starting a program and every failure in it",
     "The runner is exercised by none of the tests.",
     ["mcpyrate/repl/macropython.py"], [("import_module_as_main, main", "repl.macropython")])

prop("C31", "Enabling and disabling the import hooks are exact inverses",
     "Enabling replaces exactly the source-compilation and timestamp hooks of the import system and disabling puts back exactly the originals that were there before the system was first enabled, for any sequence of enabling and disabling. Files of the standard library and non-Python files, and only these, keep the standard timestamp behaviour.",
     ["histories"],
     "for every sequence of enable/disable calls",
     "Sequences are unbounded; tests enable once.",
     ["mcpyrate/activate.py", "mcpyrate/importer.py"], [("activate/deactivate", "activate"), ("path_xstats", "importer")])

prop("C32", "Cache cleaning deletes nothing but bytecode caches",
     "The cache cleaner removes only bytecode cache directories found under the given directory and what lies inside them, follows no link out of them, and in dry-run mode removes nothing; what it lists is what it deletes.",
     ["inputs", "configurations"],
     "for every directory tree including symbolic links",
     "File-system shapes are unbounded; there are no tests.",
     ["mcpyrate/pycachecleaner.py"], [("getpycachedirs, deletepycachedirs", "pycachecleaner")])

prop("C33", "Walkers visit everything once and scope their state to subtrees",
     "A walker started on a tree returns the tree its visitor methods produce and visits each child that it is told to visit; state set for given children applies exactly to those children and their descendants, the state of siblings and parents is unaffected, including when the state that was in force is empty. Collected items are kept in visit order across the whole walk, and a new walker, or one that was reset, starts empty; children that are given a state together share it.",
     ["programs"],
     "for every walker and every tree",
     "State/child combinations are unbounded; there are few walker tests.",
     ["mcpyrate/walkers.py", "mcpyrate/bunch.py"], [("BaseASTWalker, ASTVisitor, ASTTransformer", "walkers"), ("Bunch", "bunch")])

prop("C34", "Markers are found and removed at any depth",
     "Looking for, removing, or checking for markers considers the whole tree, markers inside markers and markers in lists and in any field included; removal leaves the marked contents in place, removes only the requested marker class and its descendants, and the final check reports any marker left with the file name instead of passing it on.",
     ["programs"],
     "for every tree containing any arrangement of markers",
     "Arrangements of nested markers are unbounded; tests have none nested.",
     ["mcpyrate/markers.py"], [("get_markers, delete_markers, check_no_markers_remaining", "markers")])

prop("C35", "Macro deletions and expansions keep coverage and valid structure",
     "When a macro deletes its invocation an expression position gets something that evaluates to nothing, and the statement position of a located invocation gets at least a dummy statement, so the tree stays valid; every statement-level expansion of a located invocation leaves, before the output, a dummy statement at the location of the invocation (for a decorated definition, at the macro's decorator) that no later macro alters and the compiler does not drop.",
     ["programs"],
     "for every macro that returns nothing, one node or several",
     "Deletion at every invocation kind and position; tests delete nothing.",
     ["mcpyrate/expander.py"], [("_insert_coverage_dummy_stmt, _make_coverage_dummy_expr", "expander")])

prop("C36", "Code generated by the system refers only to things that exist",
     "Every attribute path that the system writes into generated code, every color name, and every name it uses from its own modules exists where it is looked up, is callable with the arguments that are generated, and every name each module advertises as public is defined by it.",
     ["programs"],
     "for every path through the code generators and reporters, including error and debug paths",
     "A missing attribute only shows when that error/debug path runs; most are not covered by tests.",
     ["mcpyrate/"], [("_mcpyrate_attr and template generators", "coreutils, quotes, debug, metatools"), ("ColorScheme", "colorizer")])

prop("C37", "Debug output shows each expansion step without changing the result",
     "Stepping through an expansion, showing bindings or dumping source has no effect on the tree that results and does not fail on any macro output: the tree finally returned is the fully expanded one, the debug hook gets the invocation as it was before the macro ran and the macro's output, and hooks are removed afterwards.",
     ["programs"],
     "for every macro program and nesting of debug macros",
     "Equality of results over all programs; tests do not use the stepper.",
     ["mcpyrate/debug.py", "mcpyrate/core.py", "mcpyrate/metatools.py"], [("step_expansion, StepExpansion hook", "debug")])

prop("C38", "Reporting a problem never raises another one",
     "Showing code in an error message, warning or listing works for any tree, also one that is malformed, has no location or was made by a macro, and for any value that is bound as a macro: what cannot be shown is replaced by a description of it. The location reported is the file and the first line number found in the construct itself, depth first, and shown code is cut after the requested number of lines, with a mark exactly when something was cut.",
     ["programs"],
     "for every tree, well-formed or not, and every bound value",
     "Malformed trees are what broken macros make; tests only report on well-formed ones, and hardly any error path is covered.",
     ["mcpyrate/utils.py", "mcpyrate/unparser.py", "mcpyrate/quotes.py"], [("format_location, get_lineno, format_macrofunction, format_context", "utils"), ("unparse_with_fallbacks", "unparser")])

prop("C39", "AST dumps show every field of every node",
     "Dumping a tree shows, for every node of every kind, the name of the kind and every one of its fields in order, the absent and the empty ones and the empty lists included, and every element of every list; attributes such as line numbers are shown all when asked for and never otherwise. The dump has the same content on one line and on several, coloured and plain, and bare values are shown in a form that tells a string from a name or a number.",
     ["programs"],
     "for every syntax tree and every combination of options",
     "The dump is what macro authors compare trees by; no test covers all node kinds or options.",
     ["mcpyrate/astdumper.py"], [("dump", "astdumper")])

prop("C40", "Operators on quoted code use the bindings of the place that asked for them",
     "The operators that expand quoted code when macros are expanded do so with the expander of their use site, and those that expand at run time with a snapshot of all of its bindings, every name with its macro, and of its file name; in block form it is the assigned code that is expanded, and the assignment stays. Expanding given macros first expands the block with the macros named by the arguments, plain or hygienically unquoted, under every name that they have there. Unsupported uses (another kind of invocation, an as-part where none is taken, missing, malformed or unbound arguments) are rejected before anything is expanded.",
     ["programs"],
     "for every set of bindings, every kind of use and every quoted code",
     "Tests use a handful of macros under their own names; they cannot cover all bindings, renames and kinds of use of each operator.",
     ["mcpyrate/metatools.py", "mcpyrate/utils.py"], [("macro_bindings, expand*, stepr, expand_first", "metatools"), ("extract_bindings", "utils")])

prop("C41", "Attribute bundles are faithful views of the mapping they hold",
     "Reading, writing, deleting, testing, counting, iterating over, comparing and emptying a bundle of named values acts on exactly the mapping it holds, by attribute and by subscript alike; reading a missing attribute raises the error of attributes, a given default is used where a name is missing, and the names of the bundle's own methods cannot be overwritten by attribute. A copy, and a bundle whose data was replaced by those of another, have all the values but a store of their own. Converting a mapping makes a bundle that shares it, returns a bundle as it is, and rejects what is no mutable mapping or has keys that are no identifiers.",
     ["inputs", "histories"],
     "for every content and every history of operations",
     "Tests run each operation on one or two contents; the guarantee is about all contents, names and sequences of operations.",
     ["mcpyrate/bunch.py"], [("Bunch, bunchify", "bunch")])

prop("C42", "Reports list what is there, and go where they were asked to",
     "The listing of macro bindings shows every binding in scope (the local ones, or all of them if asked) by its name and with the full name of its macro, says so if there is none, and has color codes only on request; colored text has the colors asked for and always ends with a reset, and an excerpt of code has no more lines than asked for and is marked as cut exactly when it is. The check for missing source locations reports exactly the nodes that are not ignored and lack a checked field, each with the fields that it lacks, at any depth. In the consoles, help on an object goes to the stream that was given, or else to the standard error stream, shows where the object or its class is defined and all of its documentation or source, never fails for want of a source, and the session's own way to define a macro binds exactly the named function given, under its name, and gives it back.",
     ["inputs", "programs"],
     "for every set of bindings, every tree and every object",
     "Tests do not look at reports; the guarantee is about all bindings, trees, objects and options.",
     ["mcpyrate/debug.py", "mcpyrate/colorizer.py", "mcpyrate/utils.py", "mcpyrate/repl/utils.py"], [("format_bindings, show_bindings, SourceLocationInfoValidator", "debug"), ("setcolor, colorize", "colorizer"), ("doc, sourcecode, get_makemacro_sourcecode", "repl.utils")])


prop("N01", "Unparsing and re-parsing gives an equal tree",
     "For every valid tree, parsing the unparsed text gives back an equal tree.",
     ["programs"], "for every syntax tree", "The grammar is infinite.",
     ["mcpyrate/unparser.py"], [("Unparser", "unparser")])
prop("N02", "Macro expansion terminates with the intended meaning",
     "For every macro library and program, expansion ends and the expanded program means what the macros specify.",
     ["programs"], "for every macro library and program", "Quantifies over user macros.",
     ["mcpyrate/core.py", "mcpyrate/expander.py"], [("expand", "core")])
prop("N03", "Concurrent imports expand macros correctly",
     "Modules that are imported concurrently from several threads are expanded as if imported one after another.",
     ["schedules"], "for every interleaving of importing threads", "Interleavings.",
     ["mcpyrate/importer.py", "mcpyrate/compiler.py"], [("import hooks", "importer")])
prop("N04", "Cached bytecode equals freshly expanded bytecode",
     "Running a program from cached bytecode behaves like running it freshly expanded.",
     ["histories"], "for every program and cache history", "Histories of caches and runs.",
     ["mcpyrate/importer.py"], [("source_to_xcode", "importer")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
