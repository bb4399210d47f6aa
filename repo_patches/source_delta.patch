From d22534c21010b819d94681cc0fbf70ede3fd3969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 01/49] fix: temporary_module: clean up auto-named modules, and
 nothing if creation fails

---
 mcpyrate/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index 47b027e..bc99663 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -569,8 +569,9 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
     temporary modules will not pollute `sys.modules` beyond their
     useful lifetime.
     """
+    module = create_module(dotted_name, filename, update_parent=update_parent)
+    dotted_name = module.__name__  # may have been auto-generated
     try:
-        module = create_module(dotted_name, filename, update_parent=update_parent)
         yield module
     finally:
         try:
-- 
2.43.0


From 670618615b221be09156d0d464c8b1be5f962fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 02/49] fix: multiphase_expand: restore sys.modules also when a
 phase fails

---
 mcpyrate/multiphase.py | 72 ++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index a68ab5e..0f0d1a8 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -374,41 +374,43 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
     # (This matters when there are at least 3 phases, see `demo/let.py`.)
     module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)
 
-    for k in range(n, -1, -1):  # phase 0 is what a regular compile would do
-        if debug:
-            print(f"{c(CS.HEADING1)}**AST for {c(CS.ATTENTION)}PHASE {k}{c(CS.HEADING1)} of module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
-
-        phase_k_tree = extract_phase(tree, filename=filename, phase=k)
-        if phase_k_tree.body:
-            # inject `__phase__ = k` for introspection (at run time of the phase being compiled now)
-            tgt = ast.Name(id="__phase__", ctx=ast.Store(), lineno=1, col_offset=1)
-            val = ast.Constant(value=k, lineno=1, col_offset=13)
-            assignment = ast.Assign(targets=[tgt], value=val, lineno=1, col_offset=1)
-
-            # Issue #28: `__future__` imports.
-            # They must be the first statements after the module docstring, if any. So we inject after them.
-            phase_k_tree.body = inject_after_futureimports(assignment, phase_k_tree.body)
-
+    try:
+        for k in range(n, -1, -1):  # phase 0 is what a regular compile would do
             if debug:
-                print(unparse_with_fallbacks(phase_k_tree, debug=True, color=True), file=sys.stderr)
-
-            # Once we hit the final phase, no more temporary modules - let the import system take over.
-            if k == 0:
-                expansion = compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)
-                break
-
-            # Compile the current tree, and run it in the namespace of the temporary module. This
-            # gives us the temporary higher-phase module, which allows us to compile the next phase.
-            # At intermediate phases, some definitions overwrite previous ones - this is ok.
-            compiler.run(phase_k_tree, module)
-
-    # restore `sys.modules` to how it was before we began the multi-phase compile for this module
-    if original_module:
-        sys.modules[self_module] = original_module
-    else:
-        try:
-            del sys.modules[self_module]
-        except KeyError:
-            pass
+                print(f"{c(CS.HEADING1)}**AST for {c(CS.ATTENTION)}PHASE {k}{c(CS.HEADING1)} of module {c(CS.HEADING2)}'{self_module}' ({c(CS.SOURCEFILENAME)}{filename}{c(CS.HEADING2)}){c()}", file=sys.stderr)
+
+            phase_k_tree = extract_phase(tree, filename=filename, phase=k)
+            if phase_k_tree.body:
+                # inject `__phase__ = k` for introspection (at run time of the phase being compiled now)
+                tgt = ast.Name(id="__phase__", ctx=ast.Store(), lineno=1, col_offset=1)
+                val = ast.Constant(value=k, lineno=1, col_offset=13)
+                assignment = ast.Assign(targets=[tgt], value=val, lineno=1, col_offset=1)
+
+                # Issue #28: `__future__` imports.
+                # They must be the first statements after the module docstring, if any. So we inject after them.
+                phase_k_tree.body = inject_after_futureimports(assignment, phase_k_tree.body)
+
+                if debug:
+                    print(unparse_with_fallbacks(phase_k_tree, debug=True, color=True), file=sys.stderr)
+
+                # Once we hit the final phase, no more temporary modules - let the import system take over.
+                if k == 0:
+                    expansion = compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)
+                    break
+
+                # Compile the current tree, and run it in the namespace of the temporary module. This
+                # gives us the temporary higher-phase module, which allows us to compile the next phase.
+                # At intermediate phases, some definitions overwrite previous ones - this is ok.
+                compiler.run(phase_k_tree, module)
+
+    finally:
+        # restore `sys.modules` to how it was before we began the multi-phase compile for this module
+        if original_module:
+            sys.modules[self_module] = original_module
+        else:
+            try:
+                del sys.modules[self_module]
+            except KeyError:
+                pass
 
     return expansion
-- 
2.43.0


From 414167cc6b11948aa7f523b2b85208119e431b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 03/49] fix: multiphase_expand: honor _optimize when compiling
 higher phases

---
 mcpyrate/multiphase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/multiphase.py b/mcpyrate/multiphase.py
index 0f0d1a8..e04a4f0 100644
--- a/mcpyrate/multiphase.py
+++ b/mcpyrate/multiphase.py
@@ -401,7 +401,7 @@ def multiphase_expand(tree, *, filename, self_module, dexpander=None, _optimize=
                 # Compile the current tree, and run it in the namespace of the temporary module. This
                 # gives us the temporary higher-phase module, which allows us to compile the next phase.
                 # At intermediate phases, some definitions overwrite previous ones - this is ok.
-                compiler.run(phase_k_tree, module)
+                compiler.run(phase_k_tree, module, optimize=_optimize)
 
     finally:
         # restore `sys.modules` to how it was before we began the multi-phase compile for this module
-- 
2.43.0


From b1d4f35abecbc0895b7505a229ceaf61a91a999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 04/49] fix: source_to_xcode: pass the optimization level on to
 the compiler

---
 mcpyrate/importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b0db38c..2c860d7 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -24,7 +24,7 @@ def source_to_xcode(self, data, path, *, _optimize=-1):
     This function is monkey-patched into `importlib.machinery.SourceFileLoader`.
     """
     # `self.name` is absolute dotted module name, see `importlib.machinery.FileLoader`.
-    return compiler.compile(data, filename=path, self_module=self.name)
+    return compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)
 
 
 # TODO: Support PEP552 (Deterministic pycs). Need to intercept source file hashing, too.
-- 
2.43.0


From 8dd73fa4b2dc331253c519dc5247c0078bce4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 05/49] fix: expand decorator macros also on async function
 definitions, as documented

---
 mcpyrate/expander.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 31b1727..e2ee64c 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -273,6 +273,9 @@ class MacroExpander(BaseMacroExpander):
     def visit_FunctionDef(self, functiondef):
         return self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, functiondef):
+        return self._visit_Decorated(functiondef)
+
     def _visit_Decorated(self, decorated):
         """Detect a decorator macro invocation.
 
@@ -479,6 +482,9 @@ class MacroCollector(NodeVisitor):
     def visit_FunctionDef(self, functiondef):
         self._visit_Decorated(functiondef)
 
+    def visit_AsyncFunctionDef(self, functiondef):
+        self._visit_Decorated(functiondef)
+
     def _visit_Decorated(self, decorated):
         macros, others = self.expander._detect_macro_items(decorated.decorator_list, "decorator")
         if macros:
-- 
2.43.0


From ee0821cb0a5d981ca256db70667026ddd2b5393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 06/49] fix: MacroCollector: do not validate macro argument
 syntax of regular calls

---
 mcpyrate/expander.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index e2ee64c..38f1005 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -443,7 +443,8 @@ class MacroCollector(NodeVisitor):
 
     def visit_Subscript(self, subscript):
         candidate = subscript.value
-        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename)
+        macroname, macroargs = destructure_candidate(candidate, filename=self.expander.filename,
+                                                     _validate_call_syntax=False)
         if self.expander.ismacrocall(macroname, macroargs, "expr"):
             key = (macroname, "expr")
             if key not in self._seen:
-- 
2.43.0


From 534f3522571733d8fe77c0c5f40dd9039318328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 07/49] fix: warn, don't crash, when a captured macro in a with
 header or decorator has arguments it does not accept

---
 mcpyrate/expander.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index 38f1005..a3ff33b 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -343,8 +343,8 @@ class MacroExpander(BaseMacroExpander):
 
             # warn about likely mistake
             if (macroname and self.isbound(macroname) and
-                    (macroargs and not isparametricmacro(self.bindings[macroname]))):
-                msg = f"expr macro `{macroname}` invoked {context}; `{format_macrofunction(self.bindings[macroname])}` maybe missing `@parametricmacro` declaration?"
+                    (macroargs and not isparametricmacro(self.isbound(macroname)))):
+                msg = f"expr macro `{macroname}` invoked {context}; `{format_macrofunction(self.isbound(macroname))}` maybe missing `@parametricmacro` declaration?"
                 lineno = item.lineno if hasattr(item, "lineno") else 0
                 warn_explicit(msg, SyntaxWarning, filename=self.filename, lineno=lineno)
 
-- 
2.43.0


From 0b70df967f7be7b5f6183cbdd3969f026a0197e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 08/49] fix: split_futureimports: handle a body that has
 nothing after its future-imports

---
 mcpyrate/coreutils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 248abf8..1ba1175 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -272,13 +272,10 @@ def split_futureimports(body):
     else:
         docstring = []
 
-    k = -1  # ensure `k` gets defined even if `body` is empty
-    for k, bstmt in enumerate(body):
-        if not isfutureimport(bstmt):
-            break
-    if k >= 0:
-        return docstring, body[:k], body[k:]
-    return docstring, [], body
+    k = 0
+    while k < len(body) and isfutureimport(body[k]):
+        k += 1
+    return docstring, body[:k], body[k:]
 
 def inject_after_futureimports(stmts, body):
     """Inject one or more statements into `body` after its `__future__` imports.
-- 
2.43.0


From cae3803346464ff9961467acbd9520807ada8bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 09/49] fix: split_futureimports: recognize also an empty
 docstring

---
 mcpyrate/coreutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 1ba1175..88646bb 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -266,7 +266,7 @@ def split_futureimports(body):
     Return value is `[docstring, future_imports, the_rest]`, where each item
     is a list of `ast.stmt` (possibly empty).
     """
-    if getdocstring(body):
+    if getdocstring(body) is not None:
         docstring, *body = body
         docstring = [docstring]
     else:
-- 
2.43.0


From 565bfb864434ac81a3603f0432861c790e355cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 10/49] fix: getdocstring: only a string constant is a
 docstring

---
 mcpyrate/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index b734f7e..f71749c 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -189,7 +189,7 @@ def getdocstring(body):
     if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):
         docstring_node = body[0].value  # Expr -> Expr.value
         if type(docstring_node) is ast.Constant:
-            return docstring_node.value
+            return docstring_node.value if isinstance(docstring_node.value, str) else None
         # TODO: remove ast.Str once we bump minimum language version to Python 3.8
         else:  # ast.Str
             return docstring_node.s
-- 
2.43.0


From 740c5dae7f63300cefb17cc2b4886f62a256e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 11/49] fix: match_syspath: match whole path components, and
 sort by resolved depth

---
 mcpyrate/coreutils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mcpyrate/coreutils.py b/mcpyrate/coreutils.py
index 88646bb..ee22317 100644
--- a/mcpyrate/coreutils.py
+++ b/mcpyrate/coreutils.py
@@ -61,11 +61,11 @@ def match_syspath(filename):
     # Match deeper paths first; for readability, break ties lexicographically.
     # This allows the matching to work also if e.g. both `/home/user/.local/`
     # and `/home/user/.local/lib/python3.8/site-packages/` end up on `sys.path`.
-    def sortkey(s):
-        return -s.count(os.path.sep), s
-    for root_path in sorted(sys.path, key=sortkey):
-        root_path = pathlib.Path(root_path).expanduser().resolve()
-        if absolute_filename.startswith(str(root_path)):
+    def sortkey(root_path):
+        return -len(root_path.parts), str(root_path)
+    path = pathlib.Path(absolute_filename)
+    for root_path in sorted((pathlib.Path(s).expanduser().resolve() for s in sys.path), key=sortkey):
+        if root_path == path or root_path in path.parents:
             return root_path
     resolved = f" (resolved to {absolute_filename})" if absolute_filename != str(filename) else ""
     raise ValueError(f"{filename}{resolved} not under any directory in `sys.path`")
-- 
2.43.0


From baecbc489f70d222d1874d39f49055f8d9a18e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 12/49] fix: splice_statements: accept a single statement as
 template

---
 mcpyrate/splicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 7ff3e19..691c93c 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -132,7 +132,7 @@ def splice_statements(body, template, tag="__paste_here__"):
     if isinstance(body, ast.AST):
         body = [body]
     if isinstance(template, ast.AST):
-        body = [template]
+        template = [template]
     if not body:
         raise ValueError("expected at least one statement in `body`")
     if not template:
-- 
2.43.0


From 9d75408b6be5d523100634266c1e3fecae2e9560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 13/49] fix: splice_dialect: combined docstring must be a
 statement

---
 mcpyrate/splicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index 691c93c..b7c45ef 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -266,8 +266,9 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
         template_doc = getdocstring(template_docstring)
         sep = "\n" + ("-" * 79) + "\n"
         new_doc = user_doc + sep + template_doc
-        new_docstring = ast.copy_location(ast.Constant(value=new_doc),
+        new_docstring = ast.copy_location(ast.Expr(value=ast.Constant(value=new_doc)),
                                           user_docstring[0])
+        fix_locations(new_docstring, user_docstring[0], mode="reference")
         docstring = [new_docstring]
     else:
         docstring = user_docstring or template_docstring
-- 
2.43.0


From 7995fa74c96f94a71c54782ce8f2ed51c0bd6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 14/49] fix: rename: rename also in mapping and class patterns
 and in type parameters

---
 mcpyrate/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/utils.py b/mcpyrate/utils.py
index f71749c..eab0b1e 100644
--- a/mcpyrate/utils.py
+++ b/mcpyrate/utils.py
@@ -9,7 +9,7 @@ import ast
 from contextlib import contextmanager
 import uuid
 
-from .astcompat import MatchAs, MatchStar
+from .astcompat import MatchAs, MatchStar, MatchMapping, MatchClass, TypeVar, ParamSpec, TypeVarTuple
 from .colorizer import colorize, ColorScheme
 from . import markers
 from . import unparser
@@ -142,6 +142,16 @@ def rename(oldname, newname, tree):
             elif T in (MatchAs, MatchStar):  # Python 3.10+: `match`/`case` (pattern matching)
                 if tree.name == oldname:
                     tree.name = newname
+            elif T is MatchMapping:
+                if tree.rest == oldname:
+                    tree.rest = newname
+            elif T is MatchClass:
+                for j in range(len(tree.kwd_attrs)):
+                    if tree.kwd_attrs[j] == oldname:
+                        tree.kwd_attrs[j] = newname
+            elif T in (TypeVar, ParamSpec, TypeVarTuple):  # Python 3.12+: type parameters
+                if tree.name == oldname:
+                    tree.name = newname
             # Python 3.12+: `type` statement needs no special-casing here, as it uses a `Name` node for its LHS.
             return self.generic_visit(tree)
     return Renamer().visit(tree)
-- 
2.43.0


From 5d61c97760adac13924d3a67fa07d24651465f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 15/49] fix: astify: support complex constants

---
 mcpyrate/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 893e7b5..0c3bec7 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -714,7 +714,7 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
 
         # Builtin types. Mainly support for `u[]`, but also used by the
         # general case for AST node fields that contain bare values.
-        elif T in (int, float, str, bytes, bool, type(None), type(...)):
+        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):
             return ast.Constant(value=x)
 
         elif T is list:
-- 
2.43.0


From b992e97e59ef3c7196bb65cecc412f24686b6116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:49 +0000
Subject: [PATCH 16/49] fix: q: splice list-valued ast-unquotes at any depth,
 and accept nodes with None or str items in a list field

---
 mcpyrate/quotes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 0c3bec7..2fa3831 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -229,8 +229,10 @@ def splice_ast_literals(tree, filename):
             pass
         elif isinstance(thing, ast.AST):
             for fieldname, value in ast.iter_fields(thing):
-                if isinstance(value, list):
+                if isinstance(value, (list, ast.AST)):
                     doit(value)
+        elif thing is None or isinstance(thing, str):
+            pass  # e.g. `ast.Dict.keys`, `ast.MatchClass.kwd_attrs`
         else:
             raise TypeError(f"Expected `list` or AST node, got {type(thing)} with value {repr(thing)}")
     doit(tree)
-- 
2.43.0


From 9735319ac0ed2e65388fea6220c77ee214fcdfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:07 +0000
Subject: [PATCH 17/49] fix: lookup_value: never serve a cached value for
 another capture

---
 mcpyrate/quotes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index 2fa3831..bc6b86b 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -337,8 +337,9 @@ def lookup_value(key):
 
     cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently
     if cachekey not in _lookup_cache:
-        _lookup_cache[cachekey] = pickle.loads(frozen_value)
-    return _lookup_cache[cachekey]
+        # Keep `frozen_value` alive, so that its `id` will not be reused while the entry exists.
+        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))
+    return _lookup_cache[cachekey][1]
 
 
 def capture_macro(macro, name):
-- 
2.43.0


From 789c37d545c9eb0c1f19630ae5ac4d94337e0d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 18/49] fix: walkers: honor withstate also when the new state
 is empty

---
 mcpyrate/walkers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/walkers.py b/mcpyrate/walkers.py
index 248653f..1eb4cd9 100644
--- a/mcpyrate/walkers.py
+++ b/mcpyrate/walkers.py
@@ -137,8 +137,8 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start visiting `tree`. **Do not override this method; see `examine` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        newstate = self._subtree_overrides.pop(id(tree), None)
+        if newstate is not None:  # note an empty `Bunch` is falsy
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -147,7 +147,7 @@ class ASTVisitor(BaseASTWalker, NodeVisitor, metaclass=ABCMeta):
                 return
             return self.examine(tree)
         finally:
-            if newstate:
+            if newstate is not None:
                 self._stack.pop()
 
     @abstractmethod
@@ -178,8 +178,8 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
 
     def visit(self, tree):
         """Start transforming `tree`. **Do not override this method; see `transform` instead.**"""
-        newstate = self._subtree_overrides.pop(id(tree), False)
-        if newstate:
+        newstate = self._subtree_overrides.pop(id(tree), None)
+        if newstate is not None:  # note an empty `Bunch` is falsy
             self._stack.append(newstate)
         try:
             if isinstance(tree, list):
@@ -190,7 +190,7 @@ class ASTTransformer(BaseASTWalker, NodeTransformer, metaclass=ABCMeta):
                 return tree
             return self.transform(tree)
         finally:
-            if newstate:
+            if newstate is not None:
                 self._stack.pop()
 
     @abstractmethod
-- 
2.43.0


From 5c96cdb34b4cfb8b0367e21a1d82e91f9bcd3284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 19/49] fix: dialect-import detection: confine the match to a
 single line

---
 mcpyrate/dialects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/dialects.py b/mcpyrate/dialects.py
index 0f53c46..9032318 100644
--- a/mcpyrate/dialects.py
+++ b/mcpyrate/dialects.py
@@ -164,7 +164,7 @@ class StepExpansion(Dialect):  # actually part of public API of mcpyrate.debug,
 
 # --------------------------------------------------------------------------------
 
-_dialectimport = re.compile(r"^from\s+([.0-9a-zA-z_]+)\s+import dialects,\s+([^(\\]+)\s*$",
+_dialectimport = re.compile(r"^from[ \t]+([.0-9a-zA-Z_]+)[ \t]+import dialects,[ \t]+([^(\\\n]+)$",
                             flags=re.MULTILINE)
 class DialectExpander:
     """The dialect expander.
-- 
2.43.0


From f53a64fb01861d523411bef1a55a77c6f13a915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 20/49] fix: pycachecleaner: do not delete through a symlink
 named __pycache__

---
 mcpyrate/pycachecleaner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index 15cf21b..85e0d5f 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -17,7 +17,7 @@ def getpycachedirs(path):
 
     paths = []
     for root, dirs, files in os.walk(path):
-        if "__pycache__" in dirs:
+        if "__pycache__" in dirs and not os.path.islink(os.path.join(root, "__pycache__")):
             paths.append(os.path.join(root, "__pycache__"))
     return paths
 
-- 
2.43.0


From b349eda0269c155415b80af83bad1cdf724650ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 21/49] fix: pycachecleaner: remove symlinks to directories
 instead of failing on them

---
 mcpyrate/pycachecleaner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/pycachecleaner.py b/mcpyrate/pycachecleaner.py
index 85e0d5f..4f5389f 100644
--- a/mcpyrate/pycachecleaner.py
+++ b/mcpyrate/pycachecleaner.py
@@ -47,6 +47,9 @@ def _delete_directory_recursively(path):
 
         for x in dirs:
             try:
+                if os.path.islink(os.path.join(root, x)):  # a symlink to a directory
+                    os.unlink(os.path.join(root, x))
+                    continue
                 os.rmdir(os.path.join(root, x))
             except FileNotFoundError:
                 pass
-- 
2.43.0


From 0475d004517f0a93e0cd652c98294fc2d20ad759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:54 +0000
Subject: [PATCH 22/49] fix: Bunch: raise AttributeError, not KeyError, for a
 missing attribute

---
 mcpyrate/bunch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/bunch.py b/mcpyrate/bunch.py
index 9277e4a..ed635a6 100644
--- a/mcpyrate/bunch.py
+++ b/mcpyrate/bunch.py
@@ -32,7 +32,12 @@ class Bunch:
         self._data = other.copy()._data
 
     def __getattr__(self, name):
-        return self._data[name]
+        if name == "_data":  # not initialized yet, e.g. while being copied
+            raise AttributeError(name)
+        try:
+            return self._data[name]
+        except KeyError as err:
+            raise AttributeError(f"{type(self).__name__} object has no attribute '{name}'") from err
     def __setattr__(self, name, value):
         if name in ("_data", "_reserved_names"):
             return super().__setattr__(name, value)
-- 
2.43.0


From 51d97a42a76645c5a4b7c1fc6be9319e011dcd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 23/49] fix: macropython: on failure, reinstate the original
 main module also when run as a console script

---
 mcpyrate/repl/macropython.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/repl/macropython.py b/mcpyrate/repl/macropython.py
index 169def1..ccd4614 100644
--- a/mcpyrate/repl/macropython.py
+++ b/mcpyrate/repl/macropython.py
@@ -102,11 +102,12 @@ def import_module_as_main(name, script_mode):
         assert not script_mode
         parent_module = import_module(absolute_name)
     elif spec.loader:
+        original_main = sys.modules["__main__"]
         sys.modules["__main__"] = module  # replace this bootstrapper with the new __main__
         try:
             spec.loader.exec_module(module)
         except Exception as err:
-            sys.modules["__main__"] = _macropython_module
+            sys.modules["__main__"] = original_main
             if isinstance(err, MacroApplicationError):
                 # To avoid noise, discard most of the traceback of the chained
                 # macro-expansion errors emitted by the expander core. The
-- 
2.43.0


From f909462545101aabf06ae94476907c10293f2120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 24/49] fix: MacroConsole: report any error raised while
 compiling an input, instead of crashing the session

---
 mcpyrate/repl/console.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index e3c5cc7..1b85034 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -183,6 +183,9 @@ class MacroConsole(code.InteractiveConsole):
         except ImportError as err:  # during macro lookup in a successfully imported module
             self.write(f"{err.__class__.__name__}: {str(err)}\n")
             return False  # erroneous input
+        except Exception:  # e.g. any error raised by the module-level code of a macro module
+            self.showtraceback()
+            return False  # erroneous input
 
         self.runcode(code)
         self._refresh_macro_functions()
-- 
2.43.0


From c861340194c075144dcafd4d7ce2fd182d63862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 25/49] fix: path_xstats: do not treat third-party packages as
 part of the standard library

---
 mcpyrate/importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index 2c860d7..b9407d5 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -87,6 +87,8 @@ def _detect_stdlib_sourcefile_paths():
     stdlib_dir = os.path.dirname(os.__file__)
     paths = set()
     for root, dirs, files in os.walk(stdlib_dir):
+        # Third-party packages may live under the stdlib directory, but they may use macros.
+        dirs[:] = [x for x in dirs if x not in ("site-packages", "dist-packages")]
         for filename in files:
             if filename[-3:] == ".py":
                 paths.add(os.path.join(root, filename))
-- 
2.43.0


From edf32eeddd6e7c9f9f5d3ae758b9a52d4bc2a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 26/49] fix: path_stats: handle cyclic macro-dependencies

---
 mcpyrate/importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/importer.py b/mcpyrate/importer.py
index b9407d5..f52b042 100644
--- a/mcpyrate/importer.py
+++ b/mcpyrate/importer.py
@@ -115,6 +115,8 @@ def path_stats(path, _stats_cache=None):
         return _stats_cache[path]
 
     stat_result = os.stat(path)
+    # In case of a dependency cycle, `path` itself contributes its own mtime only.
+    _stats_cache[path] = {"mtime": stat_result.st_mtime_ns * 1e-9, "size": None}
 
     # Try for cached macro-import statements for `path` to avoid the parse cost.
     #
-- 
2.43.0


From 125ff01672fc5811a364c827d63966fee13df4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 27/49] fix: unparser: support dict unpacking in a dict display

---
 mcpyrate/unparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 07ccdad..cdbf478 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -733,8 +733,11 @@ class Unparser:
         self.write("{")
         def write_pair(pair):
             (k, v) = pair
-            self.dispatch(k)
-            self.write(": ")
+            if k is None:  # dictionary unpacking, `{**d}`
+                self.write("**")
+            else:
+                self.dispatch(k)
+                self.write(": ")
             self.dispatch(v)
         interleave(lambda: self.write(", "), write_pair, zip(t.keys, t.values))
         self.write("}")
-- 
2.43.0


From 300d7de2d8aa313f57c1bdd2f3f3708b98ec02be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 28/49] fix: unparser: render the type parameters of generic
 classes and functions

---
 mcpyrate/unparser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index cdbf478..63355db 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -489,6 +489,7 @@ class Unparser:
         class_str = (self.maybe_colorize_python_keyword("class ") +
                      self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(class_str, lineno_node=t)
+        self.__type_params_helper(t)
         if t.bases or t.keywords:
             self.write("(")
         comma = False
@@ -533,8 +534,10 @@ class Unparser:
                     self.write(setcolor())
 
         def_str = (self.maybe_colorize_python_keyword(fill_suffix) +
-                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME) + "(")
+                   " " + self.maybe_colorize(t.name, ColorScheme.DEFNAME))
         self.fill(def_str, lineno_node=t)
+        self.__type_params_helper(t)
+        self.write("(")
         self.dispatch(t.args)
         self.write(")")
         if t.returns:
@@ -1147,12 +1150,15 @@ class Unparser:
         self.fill(lineno_node=t)
         self.write(self.maybe_colorize_python_keyword("type "))  # `type` is a soft keyword; only acts like a keyword in the `type` statement
         self.dispatch(t.name)
-        if t.type_params:
+        self.__type_params_helper(t)
+        self.write(" = ")
+        self.dispatch(t.value)
+
+    def __type_params_helper(self, t):  # also for generic classes and functions
+        if getattr(t, "type_params", None):  # macro-generated nodes might not have it
             self.write("[")
             interleave(lambda: self.write(", "), self.dispatch, t.type_params)
             self.write("]")
-        self.write(" = ")
-        self.dispatch(t.value)
 
     def _TypeVar(self, t):
         # https://docs.python.org/3/library/typing.html#typing.TypeVar
-- 
2.43.0


From 56bd159e499daa8b6bd81be85af96b170a0a34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 29/49] fix: unparser: escape braces and backslashes in the
 literal parts of an f-string

---
 mcpyrate/unparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 63355db..3157725 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -849,6 +849,11 @@ class Unparser:
         def c(text):
             return self.maybe_colorize(text, ColorScheme.STRING)
         self.write(c("{"))
+        leftmost = t.value
+        while isinstance(leftmost, (ast.Attribute, ast.Call, ast.Subscript)):
+            leftmost = leftmost.func if isinstance(leftmost, ast.Call) else leftmost.value
+        if isinstance(leftmost, (ast.Dict, ast.DictComp, ast.Set, ast.SetComp)):
+            self.write(" ")  # "{{" would be an escaped brace
         self.dispatch(t.value)
         if t.conversion == 115:
             self.write(c("!s"))
@@ -872,7 +877,8 @@ class Unparser:
 
     def _JoinedStr_helper(self, t):
         def escape(s):
-            return s.replace("'", r"\'").replace("\n", r"\n")
+            s = s.replace("\\", r"\\").replace("'", r"\'").replace("\n", r"\n").replace("\r", r"\r")
+            return s.replace("{", "{{").replace("}", "}}")
         for v in t.values:
             # Omit the surrounding quotes in string snippets
             if type(v) is ast.Constant:
-- 
2.43.0


From 79bc1337f19933896f5acaa305f18bb6086ff0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 30/49] fix: unparser: keep the parentheses of an empty tuple
 in a subscript

---
 mcpyrate/unparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 3157725..9e1a3a4 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -895,7 +895,7 @@ class Unparser:
         self.write("[")
         # Python 3.9+: Omit parentheses for a tuple directly inside a Subscript slice.
         # See https://bugs.python.org/issue34822
-        if type(t.slice) is ast.Tuple:
+        if type(t.slice) is ast.Tuple and t.slice.elts:
             self.__Tuple_helper(t.slice)
         else:
             self.dispatch(t.slice)
-- 
2.43.0


From 7a132c3809c5814beb602ba064224fff744b221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 31/49] fix: unparser: support the Expression top-level node

---
 mcpyrate/unparser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 9e1a3a4..b99ce68 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -297,12 +297,10 @@ class Unparser:
             self.fill(self.maybe_colorize(label, ColorScheme.INVISIBLENODE),
                       lineno_node=t)
             self.enter()
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)  # in an `Expression`, a single expression
             self.leave()
         else:
-            for stmt in t.body:
-                self.dispatch(stmt)
+            self.dispatch(t.body)
 
     # stmt
     def _Expr(self, t):
-- 
2.43.0


From 1c6c5d3dc00ef4ba2eed66ab4611e2e4521915b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 32/49] fix: unparser: parenthesize or-patterns and as-patterns
 nested in each other

---
 mcpyrate/unparser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index b99ce68..e9caf8c 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1133,16 +1133,20 @@ class Unparser:
                 self.write(t.name)
             else:
                 # The or-pattern usually doesn't use parentheses, but when named, they are useful.
-                if type(t.pattern) is ast.MatchOr:
-                    self.write("(")
-                self.dispatch(t.pattern)
-                if type(t.pattern) is ast.MatchOr:
-                    self.write(")")
+                self.__subpattern_helper(t.pattern)
                 self.write(" as ")
                 self.write(t.name)
 
     def _MatchOr(self, t):
-        interleave(lambda: self.write(" | "), self.dispatch, t.patterns)
+        interleave(lambda: self.write(" | "), self.__subpattern_helper, t.patterns)
+
+    def __subpattern_helper(self, t):  # operand of an or-pattern or of an as-pattern
+        needs_parens = type(t) is ast.MatchOr or (type(t) is ast.MatchAs and t.pattern is not None)
+        if needs_parens:
+            self.write("(")
+        self.dispatch(t)
+        if needs_parens:
+            self.write(")")
 
     # Python 3.12+: `type` statement (type aliases)
     #     https://docs.python.org/3/library/ast.html#type-parameters
-- 
2.43.0


From bc3319a101b3e37a895beb924e7f75cf9863b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 33/49] fix: unparser: support an exception handler outside its
 try statement

---
 mcpyrate/unparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index e9caf8c..4d2c28a 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -452,7 +452,7 @@ class Unparser:
         self.__Try_helper(t, mode="TryStar")
 
     def _ExceptHandler(self, t):
-        mode = self._except_handler_mode_stack[-1]
+        mode = self._except_handler_mode_stack[-1] if self._except_handler_mode_stack else "Try"
         if mode == "Try":
             self.fill(self.maybe_colorize_python_keyword("except"), lineno_node=t)
         elif mode == "TryStar":  # Python 3.11+
-- 
2.43.0


From 732c2bc9937bbaba78a8ae354575c6481ff8a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 34/49] fix: unparser: parenthesize negative number constants

---
 mcpyrate/unparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 4d2c28a..4f2451e 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -633,6 +633,8 @@ class Unparser:
             # Represent AST infinity as an overflowing decimal literal.
             v = repr(t.value).replace("inf", INFSTR)
             v = self.maybe_colorize(v, ColorScheme.NUMBER)
+            if repr(t.value).startswith("-"):  # not produced by Python's parser, but by e.g. the unquote operator `u`
+                v = f"({v})"
         elif t.value is Ellipsis:
             v = "..."
         else:
-- 
2.43.0


From e94770e87ce90f415fa2b8a117ef51e5655dd13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 35/49] fix: unparser: render an empty Set as an expression
 that evaluates to one

---
 mcpyrate/unparser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 4f2451e..bb1e099 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -727,9 +727,11 @@ class Unparser:
         self.write(")")
 
     def _Set(self, t):
-        assert t.elts  # should be at least one element
         self.write("{")
-        interleave(lambda: self.write(", "), self.dispatch, t.elts)
+        if t.elts:
+            interleave(lambda: self.write(", "), self.dispatch, t.elts)
+        else:  # not produced by Python's parser; "{}" would be a dict
+            self.write("*()")
         self.write("}")
 
     def _Dict(self, t):
-- 
2.43.0


From 1297dd958539e24049b3904f4d65f2934cfd7c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 36/49] fix: unparser: treat a missing level in a from-import
 as zero

---
 mcpyrate/unparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index bb1e099..9d6243e 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -321,7 +321,7 @@ class Unparser:
 
     def _ImportFrom(self, t):
         self.fill(self.maybe_colorize_python_keyword("from "), lineno_node=t)
-        self.write("." * t.level)
+        self.write("." * (t.level or 0))
         if t.module:
             self.write(t.module)
         self.write(self.maybe_colorize_python_keyword(" import "))
-- 
2.43.0


From 529bc40fa47a2c01f84e18d135e6cb2dcf004a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:37 +0000
Subject: [PATCH 37/49] fix: MacroCollector: do not look for macros in a type
 comment string

---
 mcpyrate/expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/expander.py b/mcpyrate/expander.py
index a3ff33b..ac83296 100644
--- a/mcpyrate/expander.py
+++ b/mcpyrate/expander.py
@@ -499,7 +499,7 @@ class MacroCollector(NodeVisitor):
             for decorator in others:
                 self.visit(decorator)
             for k, v in iter_fields(decorated):
-                if k in ("decorator_list", "name"):
+                if k in ("decorator_list", "name", "type_comment"):
                     continue
                 self.visit(v)
         else:
-- 
2.43.0


From 9737360c896c78eca1423ace5cb7e1c7daae65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 38/49] fix: fix_ctx: give every position of a shared node its
 own context

---
 mcpyrate/astfixers.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/mcpyrate/astfixers.py b/mcpyrate/astfixers.py
index 78545f8..b9e3677 100644
--- a/mcpyrate/astfixers.py
+++ b/mcpyrate/astfixers.py
@@ -5,21 +5,38 @@ __all__ = ["fix_ctx", "fix_locations"]
 
 from ast import (AnnAssign, Assign, AsyncFor, Attribute, AugAssign, Del,
                  Delete, For, Load, Store, Subscript, comprehension,
-                 iter_child_nodes, withitem)
+                 iter_child_nodes, iter_fields, withitem)
 from copy import copy
 
 from .astcompat import NamedExpr, TypeAlias
 from . import walkers
 
-class _CtxFixer(walkers.ASTTransformer):
-    def __init__(self, *, copy_seen_nodes):
-        super().__init__(ctxclass=Load)
-        self.copy_seen_nodes = copy_seen_nodes
+class _SeenNodeCopier(walkers.ASTTransformer):
+    """Make each node that has a `ctx` appear at only one position in the tree.
 
+    This must be done before fixing any `ctx`, because the contexts for the
+    subtrees of a node are set up by node identity.
+    """
     def reset(self, **bindings):
         super().reset(**bindings)
         self._seen = set()
 
+    def transform(self, tree):
+        if "ctx" in type(tree)._fields:
+            if id(tree) in self._seen:
+                # The lists (of a `Tuple` or a `List`) must not be shared
+                # with the original, because transformers edit them in-place.
+                tree = copy(tree)
+                for fieldname, value in iter_fields(tree):
+                    if isinstance(value, list):
+                        setattr(tree, fieldname, copy(value))
+            self._seen.add(id(tree))
+        return self.generic_visit(tree)
+
+class _CtxFixer(walkers.ASTTransformer):
+    def __init__(self):
+        super().__init__(ctxclass=Load)
+
     def transform(self, tree):
         tree = self._fix_one(tree)
         self._setup_subtree_contexts(tree)
@@ -28,14 +45,7 @@ class _CtxFixer(walkers.ASTTransformer):
     def _fix_one(self, tree):
         """Fix one `ctx` attribute, using the currently active ctx class."""
         if "ctx" in type(tree)._fields:
-            if self.copy_seen_nodes:
-                # Shallow-copy `tree` if already seen. This mode is used in the
-                # global postprocess pass. Note only nodes whose `ctx` we have
-                # already updated are considered seen.
-                if id(tree) in self._seen:
-                    tree = copy(tree)
             tree.ctx = self.state.ctxclass()
-            self._seen.add(id(tree))
         return tree
 
     def _setup_subtree_contexts(self, tree):
@@ -101,7 +111,10 @@ def fix_ctx(tree, *, copy_seen_nodes):
 
     Modifies `tree` in-place. For convenience, returns the modified `tree`.
     """
-    return _CtxFixer(copy_seen_nodes=copy_seen_nodes).visit(tree)
+    # This mode is used in the global postprocess pass.
+    if copy_seen_nodes:
+        tree = _SeenNodeCopier().visit(tree)
+    return _CtxFixer().visit(tree)
 
 
 def fix_locations(tree, reference_node, *, mode):
-- 
2.43.0


From b2fb6df6eaeaf938c29e54723beb2a8b98955e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 39/49] fix: unparser: escape every non-printable character in
 the text of an f-string

---
 mcpyrate/unparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 9d6243e..6e29f8e 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -879,7 +879,8 @@ class Unparser:
 
     def _JoinedStr_helper(self, t):
         def escape(s):
-            s = s.replace("\\", r"\\").replace("'", r"\'").replace("\n", r"\n").replace("\r", r"\r")
+            # The extra `"` makes `repr` delimit the result with `'`; drop both and the opening delimiter.
+            s = repr('"' + s)[2:-1]
             return s.replace("{", "{{").replace("}", "}}")
         for v in t.values:
             # Omit the surrounding quotes in string snippets
-- 
2.43.0


From fe091f947d315285d7274788cb382e219a4cbfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 40/49] fix: splice_dialect: accept user code that has nothing
 but a docstring and imports

---
 mcpyrate/splicing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mcpyrate/splicing.py b/mcpyrate/splicing.py
index b7c45ef..e434cf2 100644
--- a/mcpyrate/splicing.py
+++ b/mcpyrate/splicing.py
@@ -309,6 +309,10 @@ def splice_dialect(body, template, tag="__paste_here__", lineno=None, col_offset
     body, user_dialect_imports = extract_macroimports(body, magicname="dialects")
     body, user_macro_imports = extract_macroimports(body)
 
+    # The user code may consist of just a docstring and the imports extracted above.
+    if not body:
+        body = [ast.copy_location(ast.Pass(), srcloc_dummynode)]
+
     finalbody = splice_statements(body, template, tag)
     return (docstring +
             futureimports +
-- 
2.43.0


From 7c1eda679f20fc766a299a1875bfcc7a4473b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 41/49] fix: REPLs: make macros available as run-time objects
 also when their qualified name is not importable

---
 mcpyrate/repl/console.py  | 7 ++-----
 mcpyrate/repl/iconsole.py | 9 ++-------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/mcpyrate/repl/console.py b/mcpyrate/repl/console.py
index 1b85034..31d1c9e 100644
--- a/mcpyrate/repl/console.py
+++ b/mcpyrate/repl/console.py
@@ -208,8 +208,5 @@ class MacroConsole(code.InteractiveConsole):
                 continue
             if not function.__module__:    # Macros defined in the REPL have `__module__=None`.
                 continue
-            try:
-                source = f"from {function.__module__} import {function.__qualname__} as {asname}"
-                self._internal_execute(source)
-            except (ModuleNotFoundError, ImportError):
-                pass
+            # The qualified name is not always importable (e.g. a macro function created by a factory function).
+            self.locals[asname] = function
diff --git a/mcpyrate/repl/iconsole.py b/mcpyrate/repl/iconsole.py
index b744c36..a0ce13b 100644
--- a/mcpyrate/repl/iconsole.py
+++ b/mcpyrate/repl/iconsole.py
@@ -23,7 +23,6 @@ line magic.
 
 import ast
 import copy
-from functools import partial
 import sys
 
 from IPython.core import magic_arguments
@@ -206,9 +205,6 @@ class IMcpyrateExtension:
         if not self._macro_bindings_changed:
             return
         self._macro_bindings_changed = False
-        internal_execute = partial(self.shell.run_cell,
-                                   store_history=False,
-                                   silent=True)
 
         for asname, function in self.macro_transformer.expander.bindings.items():
             # Catch broken bindings due to erroneous imports in user code
@@ -217,6 +213,5 @@ class IMcpyrateExtension:
                 continue
             if not function.__module__:  # Macros defined in the REPL have `__module__=None`.
                 continue
-            commands = ["%%ignore_importerror",
-                        f"from {function.__module__} import {function.__qualname__} as {asname}"]
-            internal_execute("\n".join(commands))
+            # The qualified name is not always importable (e.g. a macro function created by a factory function).
+            self.shell.user_ns[asname] = function
-- 
2.43.0


From d0932a74ca0c616aa0f0eecce3a57cf9612aa66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 42/49] fix: withstate, generic_withstate: each node of a suite
 or each child gets a state of its own

---
 mcpyrate/walkers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/walkers.py b/mcpyrate/walkers.py
index 1eb4cd9..12a823c 100644
--- a/mcpyrate/walkers.py
+++ b/mcpyrate/walkers.py
@@ -89,7 +89,7 @@ class BaseASTWalker:
         # suite, do it for each statement in it.
         if isinstance(tree, list):
             for elt in tree:
-                self._subtree_overrides[id(elt)] = newstate
+                self._subtree_overrides[id(elt)] = newstate.copy()
         else:
             self._subtree_overrides[id(tree)] = newstate
 
@@ -118,7 +118,7 @@ class BaseASTWalker:
         newstate.update(**bindings)
 
         for node in iter_child_nodes(tree):
-            self._subtree_overrides[id(node)] = newstate
+            self._subtree_overrides[id(node)] = newstate.copy()
 
     def collect(self, value):
         """Collect a value. The values are placed in the list `self.collected`."""
-- 
2.43.0


From 405ffae01ecbcadf708d87d6e17ae60eb5f4ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 43/49] fix: delete_markers: an empty marker is removed like
 any other

---
 mcpyrate/markers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mcpyrate/markers.py b/mcpyrate/markers.py
index 6f073d8..b604938 100644
--- a/mcpyrate/markers.py
+++ b/mcpyrate/markers.py
@@ -63,6 +63,8 @@ def delete_markers(tree, cls=ASTMarker):
     class ASTMarkerDeleter(walkers.ASTTransformer):
         def transform(self, tree):
             if isinstance(tree, cls):
+                if tree.body is None:  # an empty marker
+                    return None
                 return self.visit(tree.body)
             return self.generic_visit(tree)
     return ASTMarkerDeleter().visit(tree)
-- 
2.43.0


From c7115d9291439d4284b2d43afdbcdbd452e1376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 44/49] fix: step_expansion: dump mode must not fail on macros
 that give no AST node

---
 mcpyrate/debug.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/debug.py b/mcpyrate/debug.py
index 1c55fed..2582773 100644
--- a/mcpyrate/debug.py
+++ b/mcpyrate/debug.py
@@ -91,7 +91,11 @@ def step_expansion(tree, *, args, syntax, expander, **kw):
             raise ValueError(f"unknown argument {repr(v)}")
 
         if v == "dump":
-            formatter = functools.partial(dump, include_attributes=True, color=True)
+            def formatter(tree):
+                # A macro may return also `None` or an iterable; `dump` accepts only AST nodes and lists.
+                if not isinstance(tree, (ast.AST, list)):
+                    return repr(tree)
+                return dump(tree, include_attributes=True, color=True)
         elif v == "detailed":
             print_details = True
 
-- 
2.43.0


From d964d0836787155dfd9075146c994dc094161ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 45/49] fix: temporary_module: leave the parent package also if
 the module left sys.modules early

---
 mcpyrate/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcpyrate/compiler.py b/mcpyrate/compiler.py
index bc99663..5d1f2b7 100644
--- a/mcpyrate/compiler.py
+++ b/mcpyrate/compiler.py
@@ -575,7 +575,7 @@ def temporary_module(dotted_name=None, filename=None, *, update_parent=True):
         yield module
     finally:
         try:
-            del sys.modules[dotted_name]
+            sys.modules.pop(dotted_name, None)  # may have been removed already
 
             # The standard importer doesn't do this, but it seems nice for symmetry,
             # considering the use case.
-- 
2.43.0


From b467e36a5ee813471203608f19218e176b568bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 46/49] fix: unparse numeric literal keys of mapping patterns
 without parentheses

---
 mcpyrate/unparser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mcpyrate/unparser.py b/mcpyrate/unparser.py
index 6e29f8e..0895fb8 100644
--- a/mcpyrate/unparser.py
+++ b/mcpyrate/unparser.py
@@ -1099,9 +1099,20 @@ class Unparser:
 
     def _MatchMapping(self, t):
         self.write("{")
+        # A numeric literal key, such as `-1` or `1 + 2j`, must not be parenthesized here.
+        def write_key(k):
+            if type(k) is ast.UnaryOp:
+                self.write(self.unop[k.op.__class__.__name__])
+                write_key(k.operand)
+            elif type(k) is ast.BinOp:
+                write_key(k.left)
+                self.write(" " + self.binop[k.op.__class__.__name__] + " ")
+                write_key(k.right)
+            else:
+                self.dispatch(k)
         def write_kp(item):
             k, p = item
-            self.dispatch(k)
+            write_key(k)
             self.write(": ")
             self.dispatch(p)
         interleave(lambda: self.write(", "), write_kp, zip(t.keys, t.patterns))
-- 
2.43.0


From 7fcbb295f805d695de294b2302aef336bfc90db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:31 +0000
Subject: [PATCH 47/49] fix: withstate, generic_withstate: nodes given a state
 together share it, as documented

This takes back d0932a7, which had changed documented behaviour.
---
 mcpyrate/walkers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/walkers.py b/mcpyrate/walkers.py
index 12a823c..1eb4cd9 100644
--- a/mcpyrate/walkers.py
+++ b/mcpyrate/walkers.py
@@ -89,7 +89,7 @@ class BaseASTWalker:
         # suite, do it for each statement in it.
         if isinstance(tree, list):
             for elt in tree:
-                self._subtree_overrides[id(elt)] = newstate.copy()
+                self._subtree_overrides[id(elt)] = newstate
         else:
             self._subtree_overrides[id(tree)] = newstate
 
@@ -118,7 +118,7 @@ class BaseASTWalker:
         newstate.update(**bindings)
 
         for node in iter_child_nodes(tree):
-            self._subtree_overrides[id(node)] = newstate.copy()
+            self._subtree_overrides[id(node)] = newstate
 
     def collect(self, value):
         """Collect a value. The values are placed in the list `self.collected`."""
-- 
2.43.0


From 4a17e492138e355a30a69cf78fe3241311a1dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 48/49] fix: quotes: rejecting a marker or a target does not
 fail if the thing rejected cannot be unparsed

---
 mcpyrate/quotes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mcpyrate/quotes.py b/mcpyrate/quotes.py
index bc6b86b..ef4e730 100644
--- a/mcpyrate/quotes.py
+++ b/mcpyrate/quotes.py
@@ -747,7 +747,7 @@ def astify(x, expander=None):  # like `macropy`'s `ast_repr`
             # Otherwise the same as regular AST node, but need to refer to the
             # module it is defined in, and we don't have everything in scope here.
             if isinstance(x, ASTMarker):
-                raise TypeError(f"Cannot astify internal AST markers, got {unparse(x)}")
+                raise TypeError(f"Cannot astify internal AST markers, got {unparse_with_fallbacks(x)}")
 
             # The magic is in the Call. Take apart the input AST, and construct a
             # new AST, that (when compiled and run) will re-generate the input AST.
@@ -1013,7 +1013,7 @@ def q(tree, *, syntax, expander, invocation, **kw):
             if target is None:
                 raise SyntaxError("`q` (block mode) requires an asname to receive the quoted code")
             if type(target) is not ast.Name:
-                raise SyntaxError(f"`q` (block mode) expected a single asname, got {unparse(target)}")
+                raise SyntaxError(f"`q` (block mode) expected a single asname, got {unparse_with_fallbacks(target)}")
             # This `Assign` runs at the use site of `q`, it's not part of the
             # quoted code block. The statement nodes are packed into a `List` node,
             # because the original `tree` was a `list` of AST nodes (because block mode),
-- 
2.43.0


From 380e9f86fbd4f965e21a01bf2713fb92a2e0265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:01 +0000
Subject: [PATCH 49/49] fix: expandsq, expand1sq: the block form expands the
 code that it assigns, instead of always failing

---
 mcpyrate/metatools.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mcpyrate/metatools.py b/mcpyrate/metatools.py
index 1eddfce..4609ecf 100644
--- a/mcpyrate/metatools.py
+++ b/mcpyrate/metatools.py
@@ -184,10 +184,14 @@ def expand1sq(tree, *, syntax, **kw):
     if syntax not in ("expr", "block"):
         raise SyntaxError("`expand1sq` is an expr and block macro only")
     tree = q(tree, syntax=syntax, **kw)
-    kw = dict(kw)
-    if "optional_vars" in kw:  # the asname was meant for `q`, `expand1s` doesn't take it.
-        kw["optional_vars"] = None
-    return expand1s(tree, syntax=syntax, **kw)
+    if syntax == "expr":
+        return expand1s(tree, syntax=syntax, **kw)
+    else:
+        assert syntax == "block"
+        assert type(tree) is ast.Assign
+        # The asname was meant for `q`. The quoted code is the RHS, which is an expression.
+        tree.value = expand1s(tree.value, syntax="expr", **kw)
+        return tree
 
 
 def expandsq(tree, *, syntax, **kw):
@@ -212,10 +216,14 @@ def expandsq(tree, *, syntax, **kw):
     if syntax not in ("expr", "block"):
         raise SyntaxError("`expandsq` is an expr and block macro only")
     tree = q(tree, syntax=syntax, **kw)
-    kw = dict(kw)
-    if "optional_vars" in kw:
-        kw["optional_vars"] = None
-    return expands(tree, syntax=syntax, **kw)
+    if syntax == "expr":
+        return expands(tree, syntax=syntax, **kw)
+    else:
+        assert syntax == "block"
+        assert type(tree) is ast.Assign
+        # The asname was meant for `q`. The quoted code is the RHS, which is an expression.
+        tree.value = expands(tree.value, syntax="expr", **kw)
+        return tree
 
 
 def expand1s(tree, *, syntax, expander, **kw):
-- 
2.43.0

