"""Behaviour-breaking variants: (property, file, old, new)."""
M = [
    ("C03", "compiler.py", "    check_no_markers_remaining(expansion, filename=filename)\n", "", "no marker check"),
    ("C03", "compiler.py", "expansion = dexpander.postprocess_ast(expansion, dialect_instances)", "dexpander.postprocess_ast(expansion, dialect_instances)", "postprocess result dropped"),
    ("C03", "compiler.py", "text = dexpander.transform_source(text)", "dexpander.transform_source(text)", "source transform dropped"),
    ("C03", "repl/iconsole.py", "            new_tree = global_postprocess(new_tree)\n", "", "iconsole no postprocess"),
    ("C03", "repl/console.py", "            tree = global_postprocess(tree)\n", "", "console no postprocess"),
    ("C03", "expander.py", "    expansion = global_postprocess(expansion)\n", ""),
    ("C03", "compiler.py", "            text = importlib.util.decode_source(source)", "            text = source"),
    ("C04", "importer.py", "    mtimes.append(mtime)\n", "", "own mtime not counted"),
    ("C04", "importer.py", "max(mtimes)", "min(mtimes)"),
    ("C04", "importer.py", "elif iswithphase(stmt, filename=path):", "elif False and iswithphase(stmt, filename=path):", "phases not scanned"),
    ("C04", "importer.py", "macro_and_dialect_imports = macroimports + dialectimports", "macro_and_dialect_imports = macroimports", "dialects not followed (fresh)"),
    ("C04", "importer.py", 'data["macroimports"] + data["dialectimports"]', 'data["macroimports"]', "dialects not followed (cached)"),
    ("C04", "importer.py", 'if data["st_mtime_ns"] == stat_result.st_mtime_ns:', 'if data["st_mtime_ns"] <= stat_result.st_mtime_ns:', "record not exact"),
    ("C04", "importer.py", "stats = path_stats(origin, _stats_cache)", "stats = path_stats(origin)", "no memo"),
    ("C04", "importer.py", "package_absname = resolve_package(path)", "package_absname = resolve_package(os.path.dirname(path))"),
    ("C04", "importer.py", "            macroimport_cache_valid = True\n    except Exception:", "            macroimport_cache_valid = True\n    except OSError:"),
    ("C04", "importer.py", '"st_mtime_ns": stat_result.st_mtime_ns,', '"st_mtime_ns": int(stat_result.st_mtime),'),
    ("C04", "importer.py", "if not sys.dont_write_bytecode:\n            data = {", "if not sys.dont_write_bytecode:\n            macroimports, dialectimports = macroimports, []\n            data = {"),
    ("C05", "core.py", "raise MacroApplicationError(msg).with_traceback(err.__traceback__) from err.__cause__", "raise MacroApplicationError(msg).with_traceback(err.__traceback__) from err"),
    ("C05", "core.py", 'msg = f"{hint}\\n{msg}\\n{oldmsg}"', 'msg = f"{hint}\\n{oldmsg}\\n{msg}"'),
    ("C05", "core.py", "                raise MacroApplicationError(msg) from err", "                raise MacroApplicationError(msg)"),
    ("C05", "core.py", "        except Exception as err:\n            msg", "        except (TypeError, ValueError) as err:\n            msg", "narrow"),
    ("C05", "core.py", "all(isinstance(elt, AST) for elt in expansion)", "all(isinstance(elt, AST) for elt in expansion[:1])"),
    ("C05", "core.py", "                if expansion is not None and not isinstance(expansion, AST):\n", "                if False:\n"),
    ("C05", "expander.py", 'self.expand("decorator", original_decorated', 'self.expand("decorator", innermost_macro'),
    ("C06", "core.py", "expansion = fix_locations(expansion, target, mode=\"reference\")", "expansion = fix_locations(expansion, target, mode=\"overwrite\")"),
    ("C06", "core.py", "            expansion = fix_ctx(expansion, copy_seen_nodes=False)\n            if self.recursive:\n                expansion = self.visit(expansion)", "            if self.recursive:\n                expansion = self.visit(expansion)\n            expansion = fix_ctx(expansion, copy_seen_nodes=False)"),
    ("C06", "core.py", "tree = fix_ctx(tree, copy_seen_nodes=True)", "tree = fix_ctx(tree, copy_seen_nodes=False)"),
    ("C06", "core.py", "        tree = custom_postprocessor(tree)", "        custom_postprocessor(tree)"),
    ("C06", "core.py", "for custom_postprocessor in global_postprocessors:", "for custom_postprocessor in reversed(global_postprocessors):"),
    ("C06", "core.py", "global_postprocessors.append(function)", "global_postprocessors.insert(0, function)"),
    ("C06", "core.py", "delete_markers(tree, cls=MacroExpanderMarker)", "delete_markers(tree)"),
    ("C07", "expander.py", "            with self._recursive_mode(False):\n", "            with self._recursive_mode(self.recursive):\n"),
    ("C07", "expander.py", "                    new_tree = Done(new_tree)\n", "                    pass\n"),
    ("C07", "expander.py", "                elif self.recursive:  # and modified", "                else:  # and modified"),
    ("C07", "core.py", "            return Done(self.visit(tree))", "            return self.visit(tree)"),
    ("C07", "core.py", "if not self.bindings or isinstance(tree, Done):", "if not self.bindings:"),
    ("C07", "expander.py", "if not self.expander.bindings or isinstance(tree, Done):", "if not self.expander.bindings:"),
    ("C07", "metatools.py", "    tree = expander.visit_once(unastify(tree.body))", "    tree = expander.visit_recursively(unastify(tree.body))"),
    ("C07", "metatools.py", "    tree = expander.visit_recursively(unastify(tree.body))", "    tree = expander.visit(unastify(tree.body))"),
    ("C07", "metatools.py", "    return expander.visit_recursively(tree)", "    return expander.visit(tree)"),
    ("C07", "debug.py", "tree = expander.visit_once(tree)", "tree = expander.visit_recursively(tree)"),
    ("C07", "core.py", "        with self._recursive_mode(True):\n", "        with self._recursive_mode(self.recursive):\n"),
    ("C08", "expander.py", "        with_item = macros[0]", "        with_item = macros[-1]"),
    ("C08", "expander.py", "        innermost_macro = macros[-1]", "        innermost_macro = macros[0]"),
    ("C08", "expander.py", "        original_withstmt.items = copy(withstmt.items)\n", ""),
    ("C08", "expander.py", "        original_decorated.decorator_list = copy(decorated.decorator_list)\n", ""),
    ("C08", "expander.py", "        original_decorated = copy(decorated)", "        original_decorated = decorated"),
    ("C08", "expander.py", "        kw.update({\"optional_vars\": with_item.optional_vars})\n", ""),
    ("C08", "expander.py", "tree = withstmt.body if not withstmt.items else [withstmt]", "tree = withstmt.body"),
    ("C08", "expander.py", "return not macroargs or isparametricmacro(self.isbound(macroname))", "return True"),
    ("C08", "expander.py", "            return isnamemacro(self.isbound(macroname))\n", "            return isnamemacro(self.isbound(macroname)) or isparametricmacro(self.isbound(macroname))\n"),
    ("C08", "expander.py", "type(tree.func) is Name and not tree.keywords", "type(tree.func) is Name"),
    ("C08", "expander.py", "            if any(type(arg) is Starred for arg in tree.args):", "            if type(tree.args[0]) is Starred:"),
    ("C08", "expander.py", "    def visit_AsyncFunctionDef(self, functiondef):", "    def visit_AsyncFunction(self, functiondef):"),
    ("C08", "expander.py", 'self.expand("decorator", original_decorated', 'self.expand("decorator", decorated'),
    ("C08", "core.py", '"invocation": target', '"invocation": tree'),
    ("C08", "core.py", "bindings = self.bindings if not global_only else global_bindings", "bindings = {**global_bindings, **self.bindings} if not global_only else global_bindings"),
    ("C08", "expander.py", "            if self.ismacrocall(macroname, macroargs, syntax):\n                macros.append(item)", "            if macroname and self.isbound(macroname):\n                macros.append(item)"),
    ("C08", "expander.py", "        withstmt.items.remove(with_item)", "        for m in macros: withstmt.items.remove(m)"),
    ("C08", "expander.py", 'self.expand("expr", subscript, macroname,', 'self.expand("expr", candidate, macroname,'),
    ("C09", "expander.py", "    def visit_AsyncFunctionDef(self, functiondef):\n        self._visit_Decorated(functiondef)\n", ""),
    ("C09", "expander.py", '("decorator_list", "name", "type_comment")', '("decorator_list", "name")'),
    ("C09", "expander.py", '("decorator_list", "name", "type_comment")', '("decorator_list", "name", "type_comment", "args")'),
    ("C09", "expander.py", "                self.visit(macroargs)\n            for decorator in others:\n                self.visit(decorator)\n", "                self.visit(macroargs)\n"),
    ("C09", "expander.py", "                self.visit(macroargs)\n            for decorator in others:\n", "            for decorator in others:\n"),
    ("C09", "expander.py", "            self.visit(withstmt.body)\n", ""),
    ("C09", "expander.py", "key = (macroname, \"block\")", "key = (macroname, \"decorator\")"),
    ("C09", "expander.py", "            self.visit(macroargs)\n            # Don't", "            # Don't"),
    ("C09", "expander.py", "        if self.expander.ismacrocall(macroname, None, \"name\"):", "        if self.expander.isbound(macroname):"),
    ("C09", "expander.py", "        if tree is None:\n            return\n        if isinstance(tree, list):\n            for elt in tree:\n                self.visit(elt)\n            return\n        return super().visit(tree)", "        if isinstance(tree, list):\n            for elt in tree:\n                self.visit(elt)\n            return\n        return super().visit(tree)"),
    ("C09", "expander.py", "        self._seen = set()\n        self.collected = []", "        self._seen = set()"),
    ("C09", "expander.py", "            if key not in self._seen:\n                self.collected.append(key)\n                self._seen.add(key)\n\n\n", "            self.collected.append(key)\n\n\n"),
    ("C09", "expander.py", "            self.visit(withstmt.body)", "            self.visit(withstmt.body[0])"),
    ("C10", "astfixers.py", "            self.withstate(tree.slice, ctxclass=Load)\n", ""),
    ("C10", "astfixers.py", "        elif tt in (For, AsyncFor):", "        elif tt is For:"),
    ("C10", "astfixers.py", "        elif tt is Attribute:\n", "        elif False:\n"),
    ("C10", "astfixers.py", "            self.withstate(tree.optional_vars, ctxclass=Store)\n", ""),
    ("C10", "astfixers.py", "            self.withstate(tree.targets, ctxclass=Del)", "            self.withstate(tree.targets, ctxclass=Store)"),
    ("C10", "astfixers.py", "                        setattr(tree, fieldname, copy(value))", "                        pass"),
    ("C10", "astfixers.py", "        tree = _SeenNodeCopier().visit(tree)", "        _SeenNodeCopier().visit(tree)"),
    ("C10", "astfixers.py", "            tree.ctx = self.state.ctxclass()", "            if not hasattr(tree, 'ctx'): tree.ctx = self.state.ctxclass()"),
    ("C10", "astfixers.py", "            self._seen.add(id(tree))\n", ""),
    ("C10", "astfixers.py", "        elif tt is TypeAlias:", "        elif False:"),
    ("C10", "astfixers.py", "        super().__init__(ctxclass=Load)", "        super().__init__(ctxclass=Store)"),
    ("C10", "astfixers.py", "        elif tt is NamedExpr:", "        elif tt is NamedExpr and type(tree.value) is not Name:"),
    ("C11", "astfixers.py", "                    lineno = tree.lineno\n", "                    pass\n"),
    ("C11", "astfixers.py", "                    col_offset = tree.col_offset\n", ""),
    ("C11", "astfixers.py", "            tree.end_lineno = end_lineno", "            pass"),
    ("C11", "astfixers.py", "                if not hasattr(tree, \"col_offset\"):", "                if not hasattr(tree, \"lineno\"):"),
    ("C11", "astfixers.py", "                _fix(elt, lineno, col_offset, end_lineno, end_col_offset)", "                pass"),
    ("C11", "astfixers.py", "                elif mode == \"update\":\n                    lineno", "                elif mode == \"reference\":\n                    lineno"),
    ("C11", "astfixers.py", "            if mode == \"overwrite\":\n                update_col_offset(tree, col_offset, end_col_offset)\n            else:", "            if False: pass\n            else:"),
    ("C11", "expander.py", "    dummy = copy_location(Assign(targets=[t], value=v), macronode)", "    dummy = Assign(targets=[t], value=v)"),
    ("C11", "expander.py", "    call = copy_location(Call(func=lam, args=[], keywords=[]), macronode)", "    call = copy_location(Call(func=lam, args=[], keywords=[]), lam)\n    call.lineno = 1"),
    ("C11", "expander.py", "    non = copy_location(Constant(value=None), macronode)", "    non = Constant(value=None)"),
    ("C11", "dialects.py", "        tree.body[index] = ast.copy_location(ast.Import(names=[thealias]),\n                                             statement)", "        tree.body[index] = ast.copy_location(ast.Import(names=[thealias]),\n                                             tree.body[0])"),
    ("C11", "astfixers.py", "    if not (hasattr(reference_node, \"lineno\") and", "    if not (hasattr(reference_node, \"lineno\") or"),
    ("C11", "astfixers.py", "         reference_node.end_lineno if hasattr(reference_node, \"end_lineno\") else None,", "         reference_node.lineno,"),
    ("C12", "unparser.py", "        self.leave()\n        if t.orelse:\n            self.fill(self.maybe_colorize_python_keyword(\"else\"), lineno_node=t)\n            self.enter()\n            self.dispatch(t.orelse)\n            self.leave()\n\n    def _With(", "        self.leave()\n\n    def _With("),
    ("C12", "unparser.py", "            self.write(\":\")\n            self.dispatch(t.step)", "            pass"),
    ("C12", "unparser.py", "        if t.cause:\n            self.write(self.maybe_colorize_python_keyword(\" from \"))\n            self.dispatch(t.cause)", ""),
    ("C12", "unparser.py", "                self.dispatch(a),\n                if d:\n                    self.write(\"=\")\n                    self.dispatch(d)\n", "                self.dispatch(a)\n"),
    ("C12", "unparser.py", "            for a, d in zip(t.kwonlyargs, t.kw_defaults):", "            for a, d in zip(t.kwonlyargs, filter(None, t.kw_defaults)):", "drops arguments"),
    ("C12", "unparser.py", "        defaults = [None] * (nposargs - len(t.defaults)) + t.defaults", "        defaults = [None] * (len(t.args) - len(t.defaults)) + t.defaults"),
    ("C12", "unparser.py", "        if t.returns:\n            self.write(\" -> \")\n            self.dispatch(t.returns)\n", ""),
    ("C12", "unparser.py", "        for if_clause in t.ifs:\n            self.write(self.maybe_colorize_python_keyword(\" if \"))\n            self.dispatch(if_clause)", "        if t.ifs:\n            self.write(self.maybe_colorize_python_keyword(\" if \"))\n            self.dispatch(t.ifs[0])"),
    ("C12", "unparser.py", "        if t.format_spec:\n            self.write(c(\":\"))\n            self._JoinedStr_helper(t.format_spec)\n", ""),
    ("C12", "unparser.py", "        if t.finalbody:\n", "        if t.finalbody and not t.orelse:\n"),
    ("C12", "unparser.py", "            if hasattr(t.kwarg, \"annotation\") and t.kwarg.annotation:\n                self.write(\": \")\n                self.dispatch(t.kwarg.annotation)", ""),
    ("C12", "unparser.py", "        if t.msg:\n            self.write(\", \")\n            self.dispatch(t.msg)\n", ""),
    ("C12", "unparser.py", "            if k is None:  # dictionary unpacking, `{**d}`\n                self.write(\"**\")\n            else:\n                self.dispatch(k)\n                self.write(\": \")\n", "            self.dispatch(k)\n            self.write(\": \")\n"),
    ("C12", "unparser.py", "    def _TryStar(self, t):  # Python 3.11+\n        self.__Try_helper(t, mode=\"TryStar\")\n", ""),
    ("C12", "unparser.py", "        while (t.orelse and len(t.orelse) == 1 and\n", "        while (t.orelse and\n"),
    ("C13", "unparser.py", "        while (t.orelse and len(t.orelse) == 1 and\n", "        while (t.orelse and\n"),
    ("C13", "unparser.py", "        if t.is_async:\n            self.write(self.maybe_colorize_python_keyword(\" async\"))\n", ""),
    ("C13", "unparser.py", "        self.dispatch(t.body)\n        self.write(self.maybe_colorize_python_keyword(\" if \"))\n        self.dispatch(t.test)\n", "        self.dispatch(t.test)\n        self.write(self.maybe_colorize_python_keyword(\" if \"))\n        self.dispatch(t.body)\n"),
    ("C13", "unparser.py", "\"LShift\": \"<<\", \"RShift\": \">>\"", "\"LShift\": \">>\", \"RShift\": \"<<\""),
    ("C13", "unparser.py", "\"IsNot\": \"is not\"", "\"IsNot\": \"is\""),
    ("C13", "unparser.py", "            self.write(self.maybe_colorize_python_keyword(\" as \"))\n            self.write(t.name)\n        self.enter()", "            self.write(\" \" + t.name)\n        self.enter()"),
    ("C13", "unparser.py", "        self.write(\"(\")\n        self.dispatch(t.left)\n        self.write(\" \" + self.binop", "        self.dispatch(t.left)\n        self.write(\" \" + self.binop"),
    ("C13", "unparser.py", "        self.write(\"(\")\n        self.dispatch(t.target)\n        self.write(\" := \")\n        self.dispatch(t.value)\n        self.write(\")\")", "        self.dispatch(t.target)\n        self.write(\" := \")\n        self.dispatch(t.value)"),
    ("C13", "unparser.py", "            self.dispatch(elt)\n            self.write(\",\")", "            self.dispatch(elt)"),
    ("C13", "unparser.py", "            self.fill(self.maybe_colorize_python_keyword(\"except*\"), lineno_node=t)", "            self.fill(self.maybe_colorize_python_keyword(\"except\"), lineno_node=t)"),
    ("C13", "unparser.py", "        if type(t.slice) is ast.Tuple and t.slice.elts:", "        if type(t.slice) is ast.Tuple:"),
    ("C13", "unparser.py", "            if not first:\n                self.write(\", /\")", "            pass"),
    ("C13", "unparser.py", "        if t.vararg or t.kwonlyargs:", "        if t.vararg:"),
    ("C13", "unparser.py", "        if not t.simple:\n            self.write(\"(\")\n        self.dispatch(t.target)\n        if not t.simple:\n            self.write(\")\")", "        self.dispatch(t.target)"),
    ("C13", "unparser.py", "            s = repr('\"' + s)[2:-1]\n", ""),
    ("C13", "unparser.py", "            s = repr('\"' + s)[2:-1]", "            s = repr(s)[1:-1]"),
    ("C13", "unparser.py", "            return s.replace(\"{\", \"{{\").replace(\"}\", \"}}\")", "            return s.replace(\"{\", \"{{\")"),
    ("C13", "unparser.py", "                v = f\"({v})\"", "                pass"),
    ("C13", "unparser.py", "            self.write(c(\"!s\"))\n        elif t.conversion == 114:\n            self.write(c(\"!r\"))", "            self.write(c(\"!r\"))\n        elif t.conversion == 114:\n            self.write(c(\"!r\"))"),
    ("C13", "unparser.py", "        self.write(\".\" * (t.level or 0))", "        self.write(\".\" if t.level else \"\")"),
    ("C13", "unparser.py", "    boolops = {ast.And: \"and\", ast.Or: \"or\"}\n    def _BoolOp(self, t):\n        self.write(\"(\")\n        s =", "    boolops = {ast.And: \"and\", ast.Or: \"or\"}\n    def _BoolOp(self, t):\n        self.write(\" \")\n        s ="),
    ("C13", "unparser.py", "            self.write(\" \")\n        self.write(\".\")\n        self.write(t.attr)", "            pass\n        self.write(\".\")\n        self.write(t.attr)"),
    ("C13", "unparser.py", "            v = repr(t.value).replace(\"inf\", INFSTR)\n            v = self", "            v = repr(t.value)\n            v = self"),
    ("C13", "unparser.py", "        self.__For_helper(self.maybe_colorize_python_keyword(\"async for \"), t)", "        self.__For_helper(self.maybe_colorize_python_keyword(\"for \"), t)"),
    ("C14", "utils.py", "            elif T is ast.keyword:  # in function call, argument passed by name\n                if tree.arg == oldname:\n                    tree.arg = newname\n", ""),
    ("C14", "utils.py", "                if tree.asname == oldname:\n                    tree.asname = newname\n", ""),
    ("C14", "utils.py", "                if tree.asname == oldname:\n                    tree.asname = newname\n", "                elif tree.asname == oldname:\n                    tree.asname = newname\n"),
    ("C14", "utils.py", "(ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)", "(ast.FunctionDef, ast.ClassDef)"),
    ("C14", "utils.py", "                for j in range(len(tree.names)):\n                    if tree.names[j] == oldname:\n                        tree.names[j] = newname\n", "                if oldname in tree.names:\n                    tree.names[tree.names.index(oldname)] = newname\n"),
    ("C14", "utils.py", "                for j in range(len(tree.names)):\n                    if tree.names[j] == oldname:\n                        tree.names[j] = newname\n", "                for name in tree.names:\n                    if name == oldname:\n                        name = newname\n"),
    ("C14", "utils.py", "                for j in range(len(tree.names)):\n                    if tree.names[j] == oldname:\n                        tree.names[j] = newname\n", "                for j in range(len(tree.names)):\n                    if tree.names[j] == oldname:\n                        tree.names[j] = newname\n                        break\n"),
    ("C14", "utils.py", "                if tree.module == oldname:\n                    tree.module = newname\n", "                if tree.module:\n                    tree.module = tree.module.replace(oldname, newname)\n"),
    ("C14", "utils.py", "            elif T in (MatchAs, MatchStar):", "            elif T is MatchAs:"),
    ("C14", "utils.py", "            return self.generic_visit(tree)\n    return Renamer", "            if T in (ast.FunctionDef, ast.ClassDef) and tree.name == newname:\n                return tree\n            return self.generic_visit(tree)\n    return Renamer"),
    ("C14", "utils.py", "            elif T is ast.arg:  # function parameter\n                if tree.arg == oldname:", "            elif T is ast.arg:  # function parameter\n                if tree.arg == oldname and not tree.annotation:"),
    ("C14", "utils.py", "                for j in range(len(tree.kwd_attrs)):", "                for j in range(1, len(tree.kwd_attrs)):"),
    ("C14", "utils.py", "                if tree.attr == oldname:", "                if tree.attr.startswith(oldname):"),
    ("C14", "utils.py", "                if tree.id == oldname:", "                if oldname in tree.id:"),
    ("C15", "quotes.py", "        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):", "        elif T in (int, float, complex, str, bool, type(None), type(...)):"),
    ("C15", "quotes.py", "        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):", "        elif T in (int, float, complex, str, bytes, bool, type(None)):"),
    ("C15", "quotes.py", "            return ast.Tuple(elts=list(recurse(elt) for elt in x))", "            return ast.List(elts=list(recurse(elt) for elt in x))"),
    ("C15", "quotes.py", "                            [x.body,\n                             ast.Constant(value=x.filename)],", "                            [ast.Constant(value=x.filename),\n                             x.body],"),
    ("C15", "quotes.py", "            return ast.Call(_mcpyrate_quotes_attr(\"ast_tuple\"), [x.body], [])", "            return ast.Call(_mcpyrate_quotes_attr(\"ast_list\"), [x.body], [])"),
    ("C15", "quotes.py", "                    [ast.Tuple(elts=[ast.Constant(value=name),\n                                     ast.Constant(value=frozen_value)])],", "                    [ast.Tuple(elts=[ast.Constant(value=frozen_value),\n                                     ast.Constant(value=name)])],"),
    ("C15", "quotes.py", "            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x)]\n            node = ast.Call(ast.Attribute", "            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x) if b]\n            node = ast.Call(ast.Attribute"),
    ("C15", "quotes.py", "            body, name = tree.args[0], tree.args[1].value\n            return Capture(body, name)", "            body, name = tree.args[0], tree.args[1].value\n            return Capture(name, body)"),
    ("C15", "quotes.py", "            name, unique_name, frozen_macro = [elt.value for elt in key.elts]", "            unique_name, name, frozen_macro = [elt.value for elt in key.elts]"),
    ("C15", "quotes.py", "        name_node = tree.args[1]", "        name_node = tree.args[0]"),
    ("C15", "quotes.py", "          moduleref.args[0].value == \"mcpyrate.quotes\"):", "          moduleref.args[0].value == \"mcpyrate\"):"),
    ("C15", "quotes.py", "        elif isinstance(thing, (ast.Global, ast.Nonlocal)):\n            pass\n        elif isinstance(thing, ast.AST):\n            for fieldname, value in ast.iter_fields(thing):\n                if isinstance(value, (list, ast.AST)):", "        elif isinstance(thing, (ast.Global, ast.Nonlocal)):\n            pass\n        elif isinstance(thing, ast.AST):\n            for fieldname, value in ast.iter_fields(thing):\n                if isinstance(value, list):"),
    ("C15", "quotes.py", "                    doit(item.body)\n", ""),
    ("C15", "quotes.py", "                    newthing.extend(item.body)", "                    newthing.append(item.body)"),
    ("C15", "quotes.py", "    return ast.parse(value, filename=f\"<invocation of n[] in '{filename}'>\", mode=\"eval\").body", "    return ast.parse(value, filename=f\"<invocation of n[] in '{filename}'>\").body"),
    ("C15", "quotes.py", "        elif dotted_name == \"mcpyrate.quotes.ast_tuple\":", "        elif dotted_name == \"mcpyrate.quotes.ast_tupel\":"),
    ("C15", "quotes.py", "        return {unastify(k): unastify(v) for k, v in zip(tree.keys, tree.values)}", "        return {unastify(v): unastify(k) for k, v in zip(tree.keys, tree.values)}"),
    ("C15", "quotes.py", "        return tuple(unastify(elt) for elt in tree.elts)", "        return list(unastify(elt) for elt in tree.elts)"),
    ("C15", "quotes.py", "    return ast.Name(id=unique_name)", "    return ast.Name(id=name)"),
    ("C15", "coreutils.py", "        mcpyrate_module = ast.Name(id=\"mcpyrate\")", "        mcpyrate_module = ast.Name(id=\"mcpyrate_\")"),
    ("C15", "quotes.py", "        if dotted_name == \"mcpyrate.quotes.splice_ast_literals\":  # `q[]`\n            body = tree.args[0]", "        if dotted_name == \"mcpyrate.quotes.splice_ast_literals\":  # `q[]`\n            body = tree.args[1]"),
    ("C16", "quotes.py", "    if syntax != \"expr\":\n        raise SyntaxError(\"`s` is an expr macro only\")", "    if syntax not in (\"expr\", \"block\"):\n        raise SyntaxError(\"`s` is an expr macro only\")"),
    ("C16", "quotes.py", "    if syntax not in (\"expr\", \"block\"):\n        raise SyntaxError(\"`q` is an expr and block macro only\")", "    if syntax == \"decorator\":\n        raise SyntaxError(\"`q` is an expr and block macro only\")"),
    ("C16", "quotes.py", "        if _quotelevel.value > 1:  # nested inside an outer quote?", "        if _quotelevel.value > 2:  # nested inside an outer quote?"),
    ("C16", "quotes.py", "        if _quotelevel.value > 0:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        return LiftSourcecode", "        if _quotelevel.value > 1:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        return LiftSourcecode"),
    ("C16", "quotes.py", "        tree = expander.visit_recursively(tree)\n        if _quotelevel.value > 0:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        return ASTTuple(tree)", "        if _quotelevel.value > 0:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        tree = expander.visit_recursively(tree)\n        return ASTTuple(tree)"),
    ("C16", "quotes.py", "        tree = delete_markers(tree, cls=QuasiquoteSearchDone)\n\n", ""),
    ("C16", "quotes.py", "    return QuasiquoteSearchDone(body=new_invocation)", "    return QuasiquoteSearchDone(body=invocation)"),
    ("C16", "quotes.py", "    return QuasiquoteSearchDone(body=new_invocation)", "    return new_invocation"),
    ("C16", "quotes.py", "    new_invocation = copy.copy(invocation)", "    new_invocation = invocation"),
    ("C16", "quotes.py", "        new_invocation.body = newtree", "        pass"),
    ("C16", "utils.py", "        @contextmanager\n        def _set_to():\n            self.stack.append(value)\n            try:\n                yield\n            finally:\n                self.stack.pop()\n                assert self.stack  # postcondition", "        @contextmanager\n        def _set_to():\n            self.stack.append(value)\n            yield\n            self.stack.pop()\n            assert self.stack  # postcondition"),
    ("C16", "utils.py", "        return self.set_to(self.value + delta)", "        return self.set_to(self.stack[0] + delta)"),
    ("C16", "quotes.py", "            if type(stmt) is not ast.Expr:\n                raise SyntaxError(\"`a` (block mode): each", "            if not hasattr(stmt, \"value\"):\n                raise SyntaxError(\"`a` (block mode): each"),
    ("C16", "quotes.py", "    if syntax == \"block\" and kw['optional_vars'] is not None:\n        raise SyntaxError(\"`a` (block mode) does not take an asname\")\n", ""),
    ("C16", "quotes.py", "            if type(target) is not ast.Name:\n                raise SyntaxError(f\"`q` (block mode) expected a single asname, got {unparse(target)}\")\n", ""),
    ("C16", "quotes.py", "    bindings = extract_bindings(expander.bindings, q, u, n, a, s, t, h)", "    bindings = extract_bindings(expander.bindings, q, u, n, a, s, h)"),
    ("C16", "quotes.py", "        return Unquote(tree)\n", "        return ASTLiteral(tree, syntax)\n"),
    ("C16", "quotes.py", "        return Capture(tree, name)", "        return Capture(name, tree)"),
    ("C16", "quotes.py", "    with _quotelevel.changed_by(+1):\n        tree = _expand_quasiquotes(tree, expander)  # expand any unquotes corresponding to this level first\n", "    tree = _expand_quasiquotes(tree, expander)\n    with _quotelevel.changed_by(+1):\n"),
    ("C16", "quotes.py", "_quotelevel = NestingLevelTracker()", "_quotelevel = NestingLevelTracker(1)"),
    ("C16", "quotes.py", [("    if _quotelevel.value < 1:\n        raise SyntaxError(\"`t` encountered while quotelevel < 1\")\n    with _quotelevel.changed_by(-1):", "    with _quotelevel.changed_by(-1 if _quotelevel.value else 0):")], ""),
    ("C17", "quotes.py", "    cachekey = (name, id(frozen_value))", "    cachekey = (name, frozen_value)"),
    ("C17", "quotes.py", "    cachekey = (name, id(frozen_value))", "    cachekey = name"),
    ("C17", "quotes.py", "    cachekey = (name, id(frozen_value))", "    cachekey = (name, id(key))"),
    ("C17", "quotes.py", "    cachekey = (name, id(frozen_value))", "    cachekey = (name, len(frozen_value))"),
    ("C17", "quotes.py", "        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))", "        _lookup_cache[cachekey] = (name, pickle.loads(frozen_value))"),
    ("C17", "quotes.py", "        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))\n", "        if len(_lookup_cache) > 1000:\n            _lookup_cache.clear()\n        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))\n"),
    ("C17", "quotes.py", "    if cachekey not in _lookup_cache:\n", "    if cachekey not in _lookup_cache:\n        while len(_lookup_cache) > 256:\n            _lookup_cache.pop(next(iter(_lookup_cache)))\n"),
    ("C17", "quotes.py", "_lookup_cache = {}", "import weakref\n_lookup_cache = weakref.WeakValueDictionary()"),
    ("C17", "quotes.py", "    if cachekey not in _lookup_cache:\n        # Keep `frozen_value` alive, so that its `id` will not be reused while the entry exists.\n        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))\n    return _lookup_cache[cachekey][1]", "    return pickle.loads(frozen_value)"),
    ("C17", "quotes.py", "    if unique_name not in global_bindings:\n        global_bindings[unique_name]", "    if name not in global_bindings:\n        global_bindings[name]"),
    ("C17", "quotes.py", "    if unique_name not in global_bindings:\n        global_bindings[unique_name] = pickle.loads(frozen_macro)", "    global_bindings[unique_name] = pickle.loads(frozen_macro)"),
    ("C17", "quotes.py", "                                     ast.Constant(value=gensym(name)),", "                                     ast.Constant(value=f\"{name}_captured\"),"),
    ("C17", "quotes.py", "    return lookup_macro((name, gensym(name), frozen_macro))", "    return lookup_macro((name, name, frozen_macro))"),
    ("C17", "quotes.py", "    if unique_name not in global_bindings:\n        global_bindings[unique_name] = pickle.loads(frozen_macro)\n    return ast.Name(id=unique_name)", "    if unique_name not in global_bindings:\n        global_bindings[unique_name] = pickle.loads(frozen_macro)\n    return ast.Name(id=name)"),
    ("C17", "core.py", "        self.bindings = ChainMap(self.local_bindings, global_bindings)", "        self.bindings = ChainMap(self.local_bindings, dict(global_bindings))"),
    ("C17", "core.py", "        self.bindings = ChainMap(self.local_bindings, global_bindings)", "        self.bindings = ChainMap(self.local_bindings)"),
    ("C17", "quotes.py", "    frozen_value = pickle.dumps(value)\n", "    frozen_value = pickle.dumps(name)\n"),
    ("C17", "core.py", "    tree = delete_markers(tree, cls=MacroExpanderMarker)", "    for k in [k for k in global_bindings if len(k) > 32]:\n        del global_bindings[k]\n    tree = delete_markers(tree, cls=MacroExpanderMarker)"),
    ("C18", "utils.py", "    while sym in _previous_gensyms:\n        sym = generate()  # pragma: no cover\n", "", "not tested"),
    ("C18", "utils.py", "    while sym in _previous_gensyms:", "    if sym in _previous_gensyms:", "tested once"),
    ("C18", "utils.py", "    _previous_gensyms.add(sym)\n", "", "not registered"),
    ("C18", "utils.py", "    _previous_gensyms.add(sym)\n", "    _previous_gensyms.add(basename)\n", "wrong entry registered"),
    ("C18", "utils.py", "str(uuid.uuid4()).replace(\"-\", \"\")", "str(uuid.uuid4()).replace(\"-\", \"\")[:8]", "truncated"),
    ("C18", "utils.py", "str(uuid.uuid4()).replace(\"-\", \"\")", "str(uuid.uuid4())", "dashes kept"),
    ("C18", "utils.py", "return f\"{basename}{unique}\"", "return f\"{unique}{basename}\"", "uuid first"),
    ("C18", "utils.py", "str(uuid.uuid4()).replace(\"-\", \"\")", "str(len(_previous_gensyms))", "a counter"),
    ("C18", "utils.py", "        basename = \"gensym_\"", "        basename = \"\"", "no default"),
    ("C18", "utils.py", "    _previous_gensyms.add(sym)\n", "    if len(_previous_gensyms) > 1000:\n        _previous_gensyms.clear()\n    _previous_gensyms.add(sym)\n", "register cleared"),
    ("C18", "quotes.py", "ast.Constant(value=gensym(name)),", "ast.Constant(value=name),", "captured macro under its own name"),
    ("C18", "utils.py", "_previous_gensyms = set()", "import weakref\n_previous_gensyms = weakref.WeakSet()", "weak register"),
    ("C19", "coreutils.py", "        bindings[name.asname or name.name] = macro", "        bindings[name.name] = macro", "as-name ignored"),
    ("C19", "coreutils.py", "        bindings[name.asname or name.name] = macro", "        bindings[macroimport.names[1].asname or name.name] = macro", "other key"),
    ("C19", "coreutils.py", "        bindings[name.asname or name.name] = macro", "        if not name.name.startswith(\"_\"):\n            bindings[name.asname or name.name] = macro", "private names skipped"),
    ("C19", "coreutils.py", "for name in macroimport.names[1:]:", "for name in macroimport.names[2:]:", "first macro skipped"),
    ("C19", "coreutils.py", "            macro = getattr(module, name.name)\n", "            macro = getattr(module, name.asname or name.name)\n", "looks up the as-name"),
    ("C19", "coreutils.py", "            module = importlib.reload(module)", "            importlib.reload(sys.modules[__name__])", "reloads another"),
    ("C19", "coreutils.py", "        if reload:\n", "        if reload and not macroimport.level:\n", "relative not reloaded"),
    ("C19", "coreutils.py", "        if not callable(macro):", "        if macro is None:", "callable not checked"),
    ("C19", "coreutils.py", "        except AttributeError as err:", "        except KeyError as err:", "wrong exception"),
    ("C19", "coreutils.py", "            package_absname = resolve_package(filename)", "            package_absname = resolve_package(os.path.dirname(filename))", "package of the directory"),
    ("C19", "coreutils.py", "    if macroimport.level and filename.endswith(\".py\"):", "    if macroimport.level > 1 and filename.endswith(\".py\"):", "single dot not resolved"),
    ("C19", "expander.py", "            bindings.update(more_bindings)\n", "            bindings = bindings or more_bindings\n", "only first import"),
    ("C19", "expander.py", "get_macros(statement, filename=filename, reload=reload, self_module=self_module)", "get_macros(statement, filename=filename, self_module=self_module)", "reload lost"),
    ("C19", "expander.py", "thealias = copy_location(alias(name=module_absname, asname=None),\n                                             statement)", "thealias = copy_location(alias(name=statement.module, asname=None), statement)", "not absolute"),
    ("C19", "expander.py", "                    tree.body[index] = copy_location(Import(names=[thealias]),\n                                                     statement)", "                    tree.body[index] = Import(names=[thealias])", "no location"),
    ("C19", "expander.py", "                    tree.body[index] = copy_location(Import(names=[thealias]),\n                                                     statement)", "                    tree.body[0] = copy_location(Import(names=[thealias]), statement)", "at front"),
    ("C19", "expander.py", "    for index in reversed(stmts_to_delete):", "    for index in stmts_to_delete:", "deletion order"),
    ("C19", "expander.py", "    for index, statement in enumerate(tree.body):\n        if ismacroimport", "    for index, statement in enumerate(tree.body[:10]):\n        if ismacroimport", "only ten"),
    ("C19", "coreutils.py", "        if firstimport.name == magicname and firstimport.asname is None:", "        if firstimport.name == magicname:", "renamed marker"),
    ("C19", "coreutils.py", "        firstimport = statement.names[0]", "        firstimport = statement.names[-1]", "last name"),
    ("C19", "coreutils.py", "        module_absname = self_module\n", "        module_absname = self_module or \"__main__\"\n", "self fallback"),
    ("C20", "coreutils.py", "        if root_path == path or root_path in path.parents:", "        if absolute_filename.startswith(str(root_path)):", "textual prefix"),
    ("C20", "coreutils.py", "        if root_path == path or root_path in path.parents:", "        if str(root_path) in absolute_filename:", "substring"),
    ("C20", "coreutils.py", "        if root_path == path or root_path in path.parents:", "        if os.path.commonprefix([str(root_path), absolute_filename]) == str(root_path):", "commonprefix"),
    ("C20", "coreutils.py", "        return -len(root_path.parts), str(root_path)", "        return len(root_path.parts), str(root_path)", "shallowest first"),
    ("C20", "coreutils.py", "    for root_path in sorted((pathlib.Path(s).expanduser().resolve() for s in sys.path), key=sortkey):", "    for root_path in (pathlib.Path(s).expanduser().resolve() for s in sys.path):", "search path order"),
    ("C20", "coreutils.py", "(pathlib.Path(s).expanduser().resolve() for s in sys.path), key", "(pathlib.Path(s).expanduser().absolute() for s in sys.path), key", "links in the search path"),
    ("C20", "coreutils.py", "        return -len(root_path.parts), str(root_path)", "        return str(root_path)", "lexicographic"),
    ("C20", "coreutils.py", "(pathlib.Path(s).expanduser().resolve() for s in sys.path), key", "(pathlib.Path(s).expanduser().resolve() for s in sys.path[1:]), key", "skips the first"),
    ("C20", "coreutils.py", "    raise ValueError(f\"{filename}{resolved} not under any directory in `sys.path`\")", "    return path.parent", "fallback"),
    ("C20", "coreutils.py", "    relative_path = absolute_filename[len(str(root_path)):]\n    if relative_path.startswith(os.path.sep):\n        relative_path = relative_path[len(os.path.sep):]\n", "    relative_path = absolute_filename[len(str(root_path)) + 1:]\n", "root directory"),
    ("C20", "coreutils.py", "    if relative_path.startswith(os.path.sep):\n        relative_path = relative_path[len(os.path.sep):]\n", "", "separator kept"),
    ("C20", "coreutils.py", "    containing_directory = pathlib.Path(filename).expanduser().resolve().parent", "    containing_directory = pathlib.Path(filename).expanduser().resolve()", "file not directory"),
    ("C20", "coreutils.py", "    containing_directory = pathlib.Path(filename).expanduser().resolve().parent", "    containing_directory = pathlib.Path(filename).expanduser().parent", "link to file"),
    ("C20", "coreutils.py", "    package_dotted_name = relative_path.replace(os.path.sep, \".\")", "    package_dotted_name = relative_path.replace(os.path.sep, \".\", 1)", "first separator"),
    ("C20", "coreutils.py", "    relative_path = absolute_filename[len(str(root_path)):]\n    if relative_path.startswith(os.path.sep):\n        relative_path = relative_path[len(os.path.sep):]\n", "    relative_path = str(pathlib.Path(absolute_filename).relative_to(root_path))\n", "dot for the directory itself"),
    ("C20", "coreutils.py", "    if not relative_path:", "    if relative_path is None:", "empty package"),
    ("C21", "splicing.py", "                if not self.first:\n                    return deepcopy(expr)\n                self.first = False\n                return expr", "                return expr", "shared expression"),
    ("C21", "splicing.py", "                if not self.first:\n                    return deepcopy(body)\n                self.first = False\n                return body", "                return list(body)", "shared statements"),
    ("C21", "splicing.py", "                self.first = False\n                return expr", "                return expr", "flag not cleared"),
    ("C21", "splicing.py", "return type(tree) is ast.Name and tree.id == tag", "return type(tree) is ast.Name and tree.id == tag and isinstance(tree.ctx, ast.Load)", "only loads"),
    ("C21", "splicing.py", "return type(tree) is ast.Name and tree.id == tag", "return type(tree) is ast.Name and tree.id == \"__paste_here__\"", "tag ignored"),
    ("C21", "splicing.py", "return type(tree) is ast.Expr and type(tree.value) is ast.Name and tree.value.id == tag", "return type(tree) is ast.Expr and type(tree.value) is ast.Name and tree.value.id.startswith(tag)", "prefix"),
    ("C21", "splicing.py", "return type(tree) is ast.Expr and type(tree.value) is ast.Name and tree.value.id == tag", "return type(tree) is ast.Name and tree.id == tag", "name instead of statement"),
    ("C21", "splicing.py", "                self.first = False\n                return body\n            return self.generic_visit(tree)", "                self.first = False\n                return body\n            return tree", "does not descend"),
    ("C21", "splicing.py", "                self.first = False\n                return expr\n            return self.generic_visit(tree)", "                self.first = False\n                return expr\n            if isinstance(tree, (ast.Lambda, ast.FunctionDef)):\n                return tree\n            return self.generic_visit(tree)", "functions skipped"),
    ("C21", "splicing.py", "        template = [template]\n    if not body:\n        raise ValueError(\"expected at least one statement in `body`\")\n    if not template:\n        return body\n\n    def isp", "        body = [template]\n    if not body:\n        raise ValueError(\"expected at least one statement in `body`\")\n    if not template:\n        return body\n\n    def isp", "body overwritten"),
    ("C21", "splicing.py", "    if not template:\n        return expr\n", "    if not template:\n        return template\n", "empty template"),
    ("C21", "splicing.py", "                if not self.first:\n                    return deepcopy(expr)\n                self.first = False\n                return expr", "                if self.first:\n                    self.first = False\n                    return expr\n                return tree", "only first"),
    ("C21", "splicing.py", "    if not isinstance(template, (ast.AST, list)):\n        raise TypeError(f\"`template` must be an AST", "    if not isinstance(template, ast.AST):\n        raise TypeError(f\"`template` must be an AST", "list template rejected"),
    ("C22", "splicing.py", "    return (docstring +\n            futureimports +", "    return (futureimports +\n            docstring +", "docstring after futures"),
    ("C22", "splicing.py", "            user_magic_all +\n", "", "magic all lost"),
    ("C22", "splicing.py", "            template_macro_imports + user_macro_imports +", "            user_macro_imports +", "template macro imports lost"),
    ("C22", "splicing.py", "    futureimports = template_futureimports + user_futureimports", "    futureimports = user_futureimports or template_futureimports", "futures of one only"),
    ("C22", "splicing.py", "            template_dialect_imports + user_dialect_imports +\n            template_macro_imports + user_macro_imports +", "            template_macro_imports + user_macro_imports +\n            template_dialect_imports + user_dialect_imports +", "macro before dialect imports"),
    ("C22", "splicing.py", "    body, user_dialect_imports = extract_macroimports(body, magicname=\"dialects\")", "    body, user_dialect_imports = extract_macroimports(body)", "dialect imports not extracted"),
    ("C22", "splicing.py", "        new_doc = user_doc + sep + template_doc", "        new_doc = user_doc + sep + user_doc", "template doc lost"),
    ("C22", "splicing.py", "ast.Expr(value=ast.Constant(value=new_doc))", "ast.Constant(value=new_doc)", "docstring no statement"),
    ("C22", "splicing.py", "        docstring = user_docstring or template_docstring", "        docstring = user_docstring", "template docstring lost"),
    ("C22", "splicing.py", "        fix_locations(stmt, srcloc_dummynode, mode=\"overwrite\")", "        fix_locations(stmt, srcloc_dummynode, mode=\"reference\")", "not overwritten"),
    ("C22", "splicing.py", "        srcloc_dummynode.lineno = lineno\n", "        srcloc_dummynode.lineno = body[0].lineno\n", "location of body"),
    ("C22", "splicing.py", "                if ismacroimport(tree, magicname):\n                    self.collect(tree)\n                    return None\n                return self.generic_visit(tree)", "                if ismacroimport(tree, magicname):\n                    self.collect(tree)\n                    return None\n                return tree", "only top level"),
    ("C22", "splicing.py", "                if ismacroimport(tree, magicname):\n", "                if ismacroimport(tree):\n", "magicname ignored"),
    ("C22", "splicing.py", "    finalbody = splice_statements(body, template, tag)", "    finalbody = splice_statements(body, template)", "tag lost"),
    ("C22", "splicing.py", "                # We get just the top level of body by not recursing.\n                return tree", "                return self.generic_visit(tree)", "nested __all__"),
    ("C22", "splicing.py", "                if ismagicall(tree):\n                    self.collect(tree)\n                    return None", "                if ismagicall(tree):\n                    self.collect(tree)\n                    return tree", "all duplicated"),
    ("C23", "dialects.py", [("        dialect_instances = []\n        while True:", "        dialect_instances = []\n        original = content\n        while True:"), ("                    result = transformer_method(content)\n                except Exception as err:\n                    raise ImportError(f\"Unexpected exception in dialect transformer `{module_absname}", "                    result = transformer_method(original)\n                except Exception as err:\n                    raise ImportError(f\"Unexpected exception in dialect transformer `{module_absname}")], "each dialect gets the original"),
    ("C23", "dialects.py", "                content = result\n                self._step += 1\n\n                if self.debugmode:\n                    msg = f\"{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}after {c(CS.DIALECTTRANSFORMERNAME)}{module_absname}", "                self._step += 1\n\n                if self.debugmode:\n                    msg = f\"{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}after {c(CS.DIALECTTRANSFORMERNAME)}{module_absname}", "result lost"),
    ("C23", "dialects.py", [("                dialect_instances.append(dialect)\n\n", ""), ("                content = result\n                self._step += 1\n\n                if self.debugmode:\n                    msg = f\"{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}after {c(CS.DIALECTTRANSFORMERNAME)}{module_absname}", "                dialect_instances.append(dialect)\n                content = result\n                self._step += 1\n\n                if self.debugmode:\n                    msg = f\"{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}after {c(CS.DIALECTTRANSFORMERNAME)}{module_absname}")], "declining dialects not remembered"),
    ("C23", "dialects.py", "                dialect_instances.append(dialect)", "                dialect_instances.insert(0, dialect)", "reverse order"),
    ("C23", "dialects.py", "        for dialect in dialect_instances:", "        for dialect in reversed(dialect_instances):", "postprocess reverse"),
    ("C23", "dialects.py", "        for dialect in dialect_instances:", "        for dialect in dialect_instances[:1]:", "postprocess only first"),
    ("C23", "dialects.py", "                if result is NotImplemented:\n                    continue  # no step taken; proceed to next binding\n", "                if result is NotImplemented:\n                    break\n", "declining ends the bindings"),
    ("C23", "dialects.py", "            for dialectname, cls in bindings.items():", "            for dialectname, cls in list(bindings.items())[:1]:", "only the first binding"),
    ("C23", "dialects.py", [("        dialect_instances = []\n        while True:", "        dialect_instances = []\n        original = content\n        while True:"), ("            theimport = find_dialectimport(content)\n", "            theimport = find_dialectimport(original)\n")], "finder gets original"),
    ("C23", "dialects.py", "        tree.body[index] = ast.copy_location(ast.Import(names=[thealias]),\n                                             statement)\n", "", "import stays"),
    ("C23", "dialects.py", "        tree.body[index] = ast.copy_location(ast.Import(names=[thealias]),\n                                             statement)\n", "        tree.body[index] = ast.copy_location(ast.Pass(), statement)\n", "import lost"),
    ("C23", "dialects.py", "ast.alias(name=module_absname, asname=None)", "ast.alias(name=statement.module, asname=None)", "relative module"),
    ("C23", "dialects.py", "            if ismacroimport(statement, magicname=\"dialects\"):\n                break", "            if ismacroimport(statement):\n                break", "magicname"),
    ("C23", "dialects.py", "                dialect.lineno = lineno\n                dialect.col_offset = col_offset\n", "", "location not given"),
    ("C23", "dialects.py", "                if not (isinstance(cls, type) and issubclass(cls, Dialect)):", "                if not isinstance(cls, type):", "no Dialect check"),
    ("C23", "dialects.py", "                except Exception as err:\n                    raise ImportError(f\"Unexpected exception in dialect transformer `{module_absname}.{dialectname}.{transform}`\") from err", "                except Exception as err:\n                    continue", "exception swallowed"),
    ("C23", "dialects.py", "            if result is NotImplemented:\n                continue  # no step taken; proceed to next dialect\n", "            if result is NotImplemented:\n                break\n", "postprocess stops at declining"),
    ("C23", "dialects.py", "            content = result\n            self._step += 1", "            tree = result\n            self._step += 1", "postprocess result lost"),
    ("C23", "dialects.py", "            if result is NotImplemented:\n                continue  # no step taken; proceed to next dialect\n\n            if not result:", "            if result is None:\n                continue\n\n            if result is NotImplemented:", "wrong declining value"),
    ("C23", "dialects.py", "        new_text, _ = self._transform(text,", "        new_text, _ = text, self._transform(text,", "text returned"),
    ("C23", "dialects.py", "                    result = transformer_method(content)\n                except Exception as err:\n                    raise ImportError(f\"Unexpected exception in dialect transformer `{module_absname}", "                    result = transformer_method(content)\n                    if result is NotImplemented:\n                        result = transformer_method(content)\n                except Exception as err:\n                    raise ImportError(f\"Unexpected exception in dialect transformer `{module_absname}", "called twice"),
    ("C23", "dialects.py", "                               transform=\"transform_ast\",", "                               transform=\"transform_source\",", "wrong method"),
    ("C24", "dialects.py", "r\"^from[ \\t]+([.0-9a-zA-Z_]+)", "r\"^from[ \\t]+([0-9a-zA-Z_]+)", "dots missing"),
    ("C24", "dialects.py", "r\"^from[ \\t]+([.0-9a-zA-Z_]+)", "r\"^from[ \\t]+([.a-zA-Z_]+)", "digits missing"),
    ("C24", "dialects.py", "r\"^from[ \\t]+([.0-9a-zA-Z_]+)", "r\"^[ \\t]*from[ \\t]+([.0-9a-zA-Z_]+)", "indented"),
    ("C24", "dialects.py", "r\"^from[ \\t]+([.0-9a-zA-Z_]+)", "r\"^from\\s+([.0-9a-zA-Z_]+)", "several lines"),
    ("C24", "dialects.py", "([^(\\\\\\n]+)$\",", "([^(\\\\]+)$\",", "newline swallowed"),
    ("C24", "dialects.py", "([^(\\\\\\n]+)$\",", "([^(\\\\\\n]+)\",", "no end"),
    ("C24", "dialects.py", "([^(\\\\\\n]+)$\",", "([^(,\\\\\\n]+)$\",", "one dialect only"),
    ("C24", "dialects.py", "                            flags=re.MULTILINE)", "                            flags=re.DOTALL)", "no multiline"),
    ("C24", "dialects.py", "                if statement not in self._seen:  # apply each unique dialect-import once\n", "                if statement not in self._seen or True:\n", "seen ignored"),
    ("C24", "dialects.py", "                    self._seen.add(statement)\n", "                    self._seen.add(match.group(1))\n", "seen by module"),
    ("C24", "dialects.py", "                    lineno = 1 + text[0:match.start()].count(\"\\n\")", "                    lineno = text[0:match.start()].count(\"\\n\")", "lineno off by one"),
    ("C24", "dialects.py", "                    col_offset = 0  # TODO: extract the correct column offset\n                    break\n", "                    col_offset = 0\n                    break\n                return None\n", "gives up at a seen one"),
    ("C24", "dialects.py", "                statement = match.group(0).strip()\n                if statement not in self._seen:  # apply each unique dialect-import once\n                    self._seen.add(statement)", "                statement = match.group(0).strip()\n                if match.group(1) not in self._seen:\n                    self._seen.add(match.group(1))", "same module twice"),
    ("C25", "coreutils.py", "    while k < len(body) and isfutureimport(body[k]):\n        k += 1\n    return docstring, body[:k], body[k:]", "    while k < len(body) - 1 and isfutureimport(body[k]):\n        k += 1\n    return docstring, body[:k], body[k:]", "only-future bodies"),
    ("C25", "coreutils.py", "    while k < len(body) and isfutureimport(body[k]):\n        k += 1\n", "    if body and isfutureimport(body[0]):\n        k = 1\n", "one future-import only"),
    ("C25", "coreutils.py", "    if getdocstring(body) is not None:", "    if getdocstring(body):", "empty docstring"),
    ("C25", "coreutils.py", "    return docstring + futureimports + stmts + body", "    return docstring + stmts + futureimports + body", "before futures"),
    ("C25", "coreutils.py", "    return docstring + futureimports + stmts + body", "    return stmts + docstring + futureimports + body", "before docstring"),
    ("C25", "coreutils.py", "    while k < len(body) and isfutureimport(body[k]):\n        k += 1\n    return docstring, body[:k], body[k:]", "    fut = [s for s in body if isfutureimport(s)]\n    return docstring, fut, body[len(fut):]", "futures from anywhere"),
    ("C25", "coreutils.py", "    return isinstance(tree, ast.ImportFrom) and tree.module == \"__future__\"", "    return isinstance(tree, ast.ImportFrom) and tree.module == \"__future__\" and len(tree.names) == 1", "several names not recognised"),
    ("C25", "coreutils.py", "    return isinstance(tree, ast.ImportFrom) and tree.module == \"__future__\"", "    return isinstance(tree, ast.ImportFrom) and tree.names[0].name == \"annotations\"", "only annotations"),
    ("C25", "multiphase.py", "            if isfutureimport(stmt):\n                thisphase.append(stmt)\n            remaining.append(stmt)", "            if isfutureimport(stmt):\n                thisphase.append(stmt)\n            else:\n                remaining.append(stmt)", "futures moved to the highest phase"),
    ("C25", "multiphase.py", "            if isfutureimport(stmt):\n                thisphase.append(stmt)\n            remaining.append(stmt)", "            remaining.append(stmt)", "futures not in phases"),
    ("C25", "multiphase.py", "            if isfutureimport(stmt):\n                thisphase.append(stmt)\n", "            if isfutureimport(stmt) and not thisphase:\n                thisphase.append(stmt)\n", "first future only"),
    ("C25", "multiphase.py", "                thisphase.append(stmt)\n", "                thisphase.insert(0, stmt)\n", "reverse order"),
    ("C25", "multiphase.py", "                phase_k_tree.body = inject_after_futureimports(assignment, phase_k_tree.body)", "                phase_k_tree.body = [assignment] + phase_k_tree.body", "phase number first"),
    ("C25", "multiphase.py", "                phase_k_tree.body = inject_after_futureimports(assignment, phase_k_tree.body)", "                phase_k_tree.body.insert(0, assignment)", "phase number inserted first"),
    ("C26", "multiphase.py", "            remaining.extend(deepcopy(withphase.body))", "            remaining.extend(withphase.body)", "shared with phase 0"),
    ("C26", "multiphase.py", "            remaining.append(deepcopy(withphase))", "            remaining.append(withphase)", "shared with lower phases"),
    ("C26", "multiphase.py", "            remaining.append(deepcopy(withphase))", "            remaining.append(copy(withphase))", "shallow copy"),
    ("C26", "multiphase.py", "                macroarg.value -= 1\n", "                macroarg.value = 1\n", "skips phases"),
    ("C26", "multiphase.py", "                macroarg.value -= 1\n", "                macroarg.value -= 2\n", "two less"),
    ("C26", "multiphase.py", "        for k in range(n, -1, -1):", "        for k in range(n, 0, -1):", "phase 0 missing"),
    ("C26", "multiphase.py", "        for k in range(n, -1, -1):", "        for k in range(n, -1, -2):", "steps of two"),
    ("C26", "multiphase.py", "        for k in range(n, -1, -1):", "        for k in sorted({iswithphase(s, filename=filename) or 0 for s in tree.body}, reverse=True):", "only declared phases"),
    ("C26", "multiphase.py", "    if not isinstance(n, int) or n < 1:", "    if not isinstance(n, int):", "negative phases"),
    ("C26", "multiphase.py", "    if not isinstance(n, int) or n < 1:", "    if not isinstance(n, int) or n < 0:", "phase 0 accepted"),
    ("C26", "multiphase.py", "    if not isinstance(n, int) or n < 1:", "    if n < 1:", "floats accepted"),
    ("C26", "multiphase.py", "    if item.optional_vars is not None:  # no as-part allowed\n        return False\n", "", "as-part accepted"),
    ("C26", "multiphase.py", "        if maxn is None or (n is not None and n > maxn):", "        if maxn is None:", "first phase only"),
    ("C26", "multiphase.py", "        if maxn is None or (n is not None and n > maxn):", "        if n:", "last phase"),
    ("C26", "multiphase.py", "            thisphase.extend(stmt.body)\n            lift(stmt)\n", "            thisphase = stmt.body\n            lift(stmt)\n", "last block only"),
    ("C26", "multiphase.py", "            thisphase.extend(stmt.body)\n            lift(stmt)\n", "            thisphase.extend(stmt.body)\n            if phase > 1:\n                lift(stmt)\n", "not lifted to 0"),
    ("C26", "multiphase.py", "            remaining.extend(deepcopy(withphase.body))", "            remaining[:0] = deepcopy(withphase.body)", "lifted to the top"),
    ("C26", "multiphase.py", "                val = ast.Constant(value=k, lineno=1, col_offset=13)", "                val = ast.Constant(value=n, lineno=1, col_offset=13)", "number is the highest"),
    ("C26", "multiphase.py", "                compiler.run(phase_k_tree, module, optimize=_optimize)", "                module = compiler.run(phase_k_tree, None, optimize=_optimize)", "a module for each phase"),
    ("C26", "multiphase.py", "            if phase_k_tree.body:\n", "            if phase_k_tree.body and k > 0:\n", "number missing in phase 0... no expansion"),
    ("C26", "multiphase.py", "            if phase_k_tree.body:\n                # inject", "            if phase_k_tree.body:\n                if k == 0:\n                    return compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)\n                # inject", "no number in phase 0"),
    ("C26", "multiphase.py", "    if len(stmt.items) != 1:", "    if len(stmt.items) < 1:", "not alone"),
    ("C26", "multiphase.py", "        if iswithphase(stmt, filename=filename) == phase:", "        if iswithphase(stmt, filename=filename) >= phase:", "higher too"),
    ("C27", "compiler.py", "self_module=self_module, dexpander=dexpander, _optimize=optimize)", "self_module=self_module, dexpander=dexpander)", "multi-phase loses optimize"),
    ("C27", "compiler.py", "dont_inherit=True, optimize=optimize)", "dont_inherit=True)", "compile loses optimize"),
    ("C27", "compiler.py", "dont_inherit=True, optimize=optimize)", "dont_inherit=True, optimize=max(optimize, 0))", "optimize changed"),
    ("C27", "compiler.py", "code = builtins.compile(expansion, filename,", "code = builtins.compile(expansion, self_module or filename,", "code named after the module"),
    ("C27", "compiler.py", "tree = ast.parse(text, filename=filename, mode=\"exec\")", "tree = ast.parse(text, mode=\"exec\")", "parse loses file name"),
    ("C27", "compiler.py", "tree = ast.parse(text, filename=filename, mode=\"exec\")", "tree = ast.parse(text, filename=filename.rsplit(\"/\", 1)[-1], mode=\"exec\")", "parse gets base name"),
    ("C27", "compiler.py", "find_macros(tree, filename=filename, self_module=self_module)", "find_macros(tree, filename=filename)", "self-imports lost"),
    ("C27", "compiler.py", "    code, _ignored_docstring = _compile(source, filename, optimize, self_module)", "    code, _ignored_docstring = _compile(source, filename, -1, self_module)", "constant optimize"),
    ("C27", "compiler.py", "self_module=self_module, optimize=optimize)\n    assert isinstance", "self_module=self_module)\n    assert isinstance", "expand loses optimize"),
    ("C27", "compiler.py", "    self_module = module.__name__", "    self_module = module.__package__", "run: package for name"),
    ("C27", "compiler.py", "        if isinstance(source, (ast.AST, list)):\n            source = unparse(source)", "        if isinstance(source, ast.AST):\n            source = unparse(source)", "lists keep no locations"),
    ("C27", "compiler.py", "    if not (filename and filename.endswith(\".py\")):\n        if isinstance", "    if not filename:\n        if isinstance", "synthetic file names not unparsed"),
    ("C27", "compiler.py", "    if not (filename and filename.endswith(\".py\")):\n        if isinstance(source, (ast.AST, list)):\n            source = unparse(source)", "    if isinstance(source, (ast.AST, list)):\n        source = unparse(source)", "always unparsed"),
    ("C27", "compiler.py", "    if not (filename and filename.endswith(\".py\")):\n        if isinstance(source, (ast.AST, list)):", "    if filename and filename.endswith(\".py\"):\n        if isinstance(source, (ast.AST, list)):", "unparse inverted"),
    ("C27", "multiphase.py", "compiler.run(phase_k_tree, module, optimize=_optimize)", "compiler.run(phase_k_tree, module)", "higher phases lose optimize"),
    ("C27", "multiphase.py", "singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)", "singlephase_expand(phase_k_tree, filename=filename, self_module=None, dexpander=dexpander)", "phase 0 has no name"),
    ("C27", "importer.py", "compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)", "compiler.compile(data, filename=path, self_module=self.name)", "import hook loses optimize"),
    ("C27", "importer.py", "compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)", "compiler.compile(data, filename=self.path, optimize=_optimize, self_module=self.name.rsplit('.', 1)[-1])", "import hook changes name"),
    ("C27", "expander.py", "get_macros(statement, filename=filename, reload=reload, self_module=self_module)", "get_macros(statement, filename=filename, reload=reload)", "find_macros loses module name"),
    ("C27", "expander.py", "    expansion = MacroExpander(bindings, filename).visit(tree)", "    expansion = MacroExpander(bindings, \"<macro>\").visit(tree)", "expander file name"),
    ("C27", "dialects.py", "        self.filename = filename\n", "        self.filename = str(filename).rsplit(\"/\", 1)[-1]\n", "dialect expander file name"),
    ("C28", "compiler.py", "    module.__file__ = filename\n", "", "no file"),
    ("C28", "compiler.py", "    module = ModuleType(dotted_name)\n    module.__name__ = dotted_name\n", "    module = ModuleType(dotted_name.rsplit('.', 1)[-1])\n", "short name"),
    ("C28", "compiler.py", "        module.__package__ = packagename\n", "        module.__package__ = dotted_name\n", "package is itself"),
    ("C28", "compiler.py", "        module.__package__ = packagename\n", "", "no package"),
    ("C28", "compiler.py", "        if update_parent:\n            # The", "        if True:\n            # The", "always attached"),
    ("C28", "compiler.py", "        if update_parent:\n            # The", "        if update_parent and not hasattr(package, finalcomponent):\n            # The", "attached if free"),
    ("C28", "compiler.py", "    sys.modules[dotted_name] = module\n    return module", "    sys.modules.setdefault(dotted_name, module)\n    return module", "setdefault"),
    ("C28", "compiler.py", [("    module.__file__ = filename\n", "    module.__file__ = filename\n    sys.modules[dotted_name] = module\n"), ("    sys.modules[dotted_name] = module\n    return module", "    return module")], "registered before the parent check"),
    ("C28", "compiler.py", "if not all(component.isidentifier() for component in path)", "if not any(component.isidentifier() for component in path)", "any component"),
    ("C28", "compiler.py", "        packagename, finalcomponent = dotted_name.rsplit(\".\", maxsplit=1)\n        package = sys.modules.get(packagename, None)\n\n", "        packagename, finalcomponent = dotted_name.split(\".\", maxsplit=1)\n        package = sys.modules.get(packagename, None)\n\n", "parent is the top package"),
    ("C28", "compiler.py", "        if not package:\n", "        if False:\n", "parent may be missing?"),
    ("C28", "compiler.py", "    exec(code, module.__dict__)", "    exec(code, dict(module.__dict__))", "copy of the namespace"),
    ("C28", "compiler.py", "    exec(code, module.__dict__)", "    exec(code, module.__dict__, {})", "separate locals"),
    ("C28", "compiler.py", "        module.__doc__ = docstring\n", "        if docstring:\n            module.__doc__ = docstring\n", "docstring kept from before"),
    ("C28", "compiler.py", [("        module.__doc__ = docstring\n", ""), ("    exec(code, module.__dict__)\n", "    exec(code, module.__dict__)\n    if not isinstance(source, CodeType):\n        module.__doc__ = docstring\n")], "docstring after"),
    ("C28", "compiler.py", "        try:\n            module = sys.modules[dotted_name]\n        except KeyError:\n            err = ModuleNotFoundError(f\"Module '{dotted_name}' not found in `sys.modules`\")\n            err.__suppress_context__ = True\n            raise err", "        try:\n            module = sys.modules[dotted_name]\n        except KeyError:\n            module = create_module(dotted_name)", "unknown name makes a module"),
    ("C28", "compiler.py", "        module = create_module()\n", "        module = create_module(\"dynamically_created_module\")\n", "one name for all"),
    ("C28", "compiler.py", "    if module is not None and not isinstance(module, (ModuleType, str)):\n        raise", "    if module is not None and not isinstance(module, (ModuleType, str, dict)):\n        raise", "dicts accepted"),
    ("C28", "compiler.py", "    if not isinstance(source, (str, bytes, ast.Module, list)):\n        raise", "    if not isinstance(source, (str, bytes, ast.AST, list)):\n        raise", "any node accepted"),
    ("C28", "utils.py", "return docstring_node.value if isinstance(docstring_node.value, str) else None", "return docstring_node.value", "any constant"),
    ("C28", "utils.py", "    if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):", "    if hasattr(body[0], 'value') and type(body[0].value) in (ast.Constant, ast.Str):", "any statement with a value"),
    ("C28", "compiler.py", "        if not all(isinstance(x, ast.stmt) for x in tree.body):\n            invalid", "        if False:\n            invalid", "bodies unchecked"),
    ("C29", "repl/console.py", "                self.expander.bindings.update(bindings)", "                self.expander.bindings = bindings", "bindings replaced"),
    ("C29", "repl/iconsole.py", "                self.expander.bindings.update(bindings)", "                self.expander = MacroExpander(bindings=bindings, filename=_placeholder)", "new expander each time"),
    ("C29", "repl/console.py", "reload=True, self_module=_magic_module_name)", "self_module=_magic_module_name)", "no reload"),
    ("C29", "repl/iconsole.py", "reload=True, self_module=_magic_module_name)", "reload=False, self_module=_magic_module_name)", "no reload"),
    ("C29", "repl/iconsole.py", "reload=True, self_module=_magic_module_name)", "reload=True)", "no self imports"),
    ("C29", "repl/console.py", "                self._macro_bindings_changed = True\n", "", "not noted"),
    ("C29", "repl/iconsole.py", "                self._ipyextension._macro_bindings_changed = True\n", "                self._macro_bindings_changed = True\n", "noted in the wrong object"),
    ("C29", "repl/iconsole.py", "            new_tree = global_postprocess(new_tree)\n", "", "no postprocessing"),
    ("C29", "repl/console.py", "            tree = global_postprocess(tree)\n", "", "no postprocessing"),
    ("C29", "repl/console.py", "            self.showtraceback()\n            return False  # erroneous input", "            self.showtraceback()\n            raise", "session ends"),
    ("C29", "repl/console.py", "        except (OverflowError, SyntaxError, ValueError, MacroExpansionError):\n            self.showsyntaxerror(filename)\n            return False", "        except (OverflowError, SyntaxError, ValueError, MacroExpansionError):\n            return True", "waits for more input"),
    ("C29", "repl/console.py", "        except ImportError as err:  # during macro lookup in a successfully imported module\n            self.write(f\"{err.__class__.__name__}: {str(err)}\\n\")\n            return False", "        except ImportError as err:  # during macro lookup in a successfully imported module\n            return False", "silent"),
    ("C29", "repl/iconsole.py", "        except Exception as err:\n", "        except (SyntaxError, ImportError) as err:\n", "others escape"),
    ("C29", "repl/iconsole.py", "            raise InputRejected(*err.args)", "            return tree", "failed input runs"),
    ("C29", "repl/console.py", "            sys.modules[_magic_module_name].__dict__.update(self.magic_module_metadata)\n", "", "no metadata"),
    ("C29", "repl/iconsole.py", "            sys.modules[_magic_module_name].__dict__.clear()\n", "", "old names stay"),
    ("C29", "repl/iconsole.py", "            sys.modules[_magic_module_name].__dict__.update(self._ipyextension.shell.user_ns)", "            sys.modules[_magic_module_name].__dict__.update(self._ipyextension.magic_module_metadata)", "session names missing"),
    ("C29", "repl/console.py", "self.locals[asname] = function", "self.locals[function.__name__] = function", "bound name ignored"),
    ("C29", "repl/iconsole.py", "self.shell.user_ns[asname] = function", "self.shell.user_ns[function.__qualname__] = function", "as-import lost"),
    ("C29", "repl/console.py", "            if not function.__module__:    # Macros defined in the REPL have `__module__=None`.\n                continue", "            if not function.__module__:    # Macros defined in the REPL have `__module__=None`.\n                break", "stops at the first macro of the session"),
    ("C29", "repl/console.py", "self.locals[asname] = function", "self._internal_execute(f\"from {function.__module__} import {function.__qualname__} as {asname}\")", "by import"),
    ("C29", "repl/console.py", "        self.runcode(code)\n        self._refresh_macro_functions()\n", "        self.runcode(code)\n", "no objects"),
    ("C29", "repl/console.py", "        self.magic_module_metadata = copy.copy(magic_module.__dict__)", "        self.magic_module_metadata = magic_module.__dict__", "metadata not copied"),
    ("C29", "repl/iconsole.py", "        ipy.events.register(\"post_run_cell\", self._refresh_macro_functions)\n", "", "not registered"),
    ("C30", "repl/macropython.py", "            sys.modules[\"__main__\"] = original_main\n", "", "not put back"),
    ("C30", "repl/macropython.py", [("        original_main = sys.modules[\"__main__\"]\n        sys.modules[\"__main__\"] = module", "        sys.modules[\"__main__\"] = module"), ("            sys.modules[\"__main__\"] = original_main\n", "            sys.modules[\"__main__\"] = sys.modules[\"__macropython__\"]\n")], "puts back something else"),
    ("C30", "repl/macropython.py", "        except Exception as err:\n            sys.modules[\"__main__\"] = original_main\n", "        except MacroApplicationError as err:\n            sys.modules[\"__main__\"] = original_main\n", "put back only for macro errors"),
    ("C30", "repl/macropython.py", "    spec.name = \"__main__\"\n", "", "spec keeps its name"),
    ("C30", "repl/macropython.py", [("    spec.name = \"__main__\"\n", ""), ("    module = module_from_spec(spec)\n", "    module = module_from_spec(spec)\n    spec.name = \"__main__\"\n")], "renamed too late"),
    ("C30", "repl/macropython.py", "        module.__package__ = parent_name", "        module.__package__ = absolute_name", "package is itself"),
    ("C30", "repl/macropython.py", "        module.__package__ = \"\"\n", "        module.__package__ = absolute_name\n", "script has no package"),
    ("C30", "repl/macropython.py", "        sys.modules[\"__main__\"] = module  # replace this bootstrapper with the new __main__\n        try:\n            spec.loader.exec_module(module)\n", "        try:\n            spec.loader.exec_module(module)\n            sys.modules[\"__main__\"] = module\n", "replaced after running"),
    ("C30", "repl/macropython.py", "                raise err.with_traceback(tb)\n            raise\n", "                raise err.with_traceback(tb)\n", "error swallowed"),
    ("C30", "repl/macropython.py", "from .. import activate  # noqa: F401\n", "", "not activated"),
    ("C30", "repl/macropython.py", "import_module_as_main(opts.module, script_mode=False)", "import_module_as_main(opts.module, script_mode=True)", "module as script"),
    ("C30", "repl/macropython.py", "        if sys.path[0] != containing_directory:\n            sys.path.insert(0, containing_directory)\n", "        if containing_directory not in sys.path:\n            sys.path.insert(0, containing_directory)\n", "not at the front"),
    ("C30", "repl/macropython.py", "            sys.path.insert(0, containing_directory)\n", "            sys.path.append(containing_directory)\n", "appended"),
    ("C30", "repl/macropython.py", "        if sys.path[0] != cwd:\n            sys.path.insert(0, cwd)\n", "", "no current directory"),
    ("C30", "repl/macropython.py", "module_name = module_name[:-3]", "module_name = module_name[:-4]", "suffix length"),
("C31","activate.py","    SourceFileLoader.path_stats = stdlib_path_stats\n","    pass\n"),
("C31","activate.py",[("def activate():","stdlib_source_to_code = stdlib_path_stats = None\n\ndef activate():"),("    SourceFileLoader.source_to_code = source_to_xcode\n","    global stdlib_source_to_code, stdlib_path_stats\n    stdlib_source_to_code = SourceFileLoader.source_to_code\n    stdlib_path_stats = SourceFileLoader.path_stats\n    SourceFileLoader.source_to_code = source_to_xcode\n"),("stdlib_source_to_code = SourceFileLoader.source_to_code\nstdlib_path_stats = SourceFileLoader.path_stats\nactivate()","activate()")],"captured at every enabling"),
("C31","activate.py",[("def activate():","_depth = 0\n\ndef activate():"),("    SourceFileLoader.source_to_code = source_to_xcode\n","    global _depth\n    _depth += 1\n    SourceFileLoader.source_to_code = source_to_xcode\n"),("    SourceFileLoader.source_to_code = stdlib_source_to_code\n","    global _depth\n    _depth -= 1\n    if _depth > 0:\n        return\n    SourceFileLoader.source_to_code = stdlib_source_to_code\n")],"counter"),
("C31","activate.py","stdlib_path_stats = SourceFileLoader.path_stats\nactivate()","activate()\nstdlib_path_stats = SourceFileLoader.path_stats"),
("C31","activate.py","    SourceFileLoader.path_stats = path_xstats\n","    SourceFileLoader.path_stats = path_xstats\n    SourceFileLoader.set_data = lambda *a, **k: None\n"),
("C31","activate.py","    SourceFileLoader.path_stats = stdlib_path_stats\n","    SourceFileLoader.path_stats = stdlib_source_to_code\n"),
("C31","activate.py",[("def activate():","_active = False\n\ndef activate():"),("    SourceFileLoader.source_to_code = source_to_xcode\n","    global _active\n    if _active:\n        return\n    _active = True\n    SourceFileLoader.source_to_code = source_to_xcode\n")],"flag never cleared"),
("C31","importer.py","    if path in _stdlib_sourcefile_paths or not path.endswith(\".py\"):\n        return _stdlib_path_stats(self, path)","    if path in _stdlib_sourcefile_paths or not path.endswith(\".py\"):\n        return SourceFileLoader.path_stats(self, path)"),
("C31","importer.py","path in _stdlib_sourcefile_paths or not path.endswith(\".py\")","path in _stdlib_sourcefile_paths or not path.endswith(\"y\")"),
("C31","importer.py","path in _stdlib_sourcefile_paths or not path.endswith(\".py\")","not path.endswith(\".py\")"),
("C31","importer.py","path in _stdlib_sourcefile_paths or not path.endswith(\".py\")","path in _stdlib_sourcefile_paths"),
("C31","importer.py","                paths.add(os.path.join(root, filename))","                paths.add(os.path.join(stdlib_dir, filename))"),
("C31","importer.py","path in _stdlib_sourcefile_paths or not path.endswith(\".py\")","path in _stdlib_sourcefile_paths and not path.endswith(\".py\")"),
("C31","activate.py","    SourceFileLoader.source_to_code = stdlib_source_to_code\n","    if SourceFileLoader.path_stats is not path_xstats:\n        SourceFileLoader.source_to_code = stdlib_source_to_code\n"),
("C32","pycachecleaner.py"," and not os.path.islink(os.path.join(root, \"__pycache__\"))",""),
("C32","pycachecleaner.py","    for root, dirs, files in os.walk(path):","    for root, dirs, files in os.walk(path, followlinks=True):"),
("C32","pycachecleaner.py","topdown=False, followlinks=False","topdown=False, followlinks=True"),
("C32","pycachecleaner.py","topdown=False, followlinks=False","followlinks=False"),
("C32","pycachecleaner.py","        if \"__pycache__\" in dirs and not os.path.islink(os.path.join(root, \"__pycache__\")):\n            paths.append(os.path.join(root, \"__pycache__\"))","        for d in dirs:\n            if d.endswith(\"__pycache__\") and not os.path.islink(os.path.join(root, d)):\n                paths.append(os.path.join(root, d))"),
("C32","pycachecleaner.py","            paths.append(os.path.join(root, \"__pycache__\"))","            paths.append(root)"),
("C32","pycachecleaner.py","        for x in files:\n            try:","        for x in files:\n            if not x.endswith(\".pyc\"):\n                continue\n            try:"),
("C32","pycachecleaner.py","                if os.path.islink(os.path.join(root, x)):  # a symlink to a directory\n                    os.unlink(os.path.join(root, x))\n                    continue\n","                if os.path.islink(os.path.join(root, x)):\n                    _delete_directory_recursively(os.path.realpath(os.path.join(root, x)))\n                    continue\n"),
("C32","pycachecleaner.py","                os.rmdir(os.path.join(root, x))","                os.removedirs(os.path.join(root, x))"),
("C32","repl/macropython.py","        if not opts.dry_run:\n            deletepycachedirs","        if not opts.dry_run or opts.interactive:\n            deletepycachedirs"),
("C32","repl/macropython.py","deletepycachedirs(opts.path_to_clean)","deletepycachedirs(\".\")"),
("C32","pycachecleaner.py","        _delete_directory_recursively(x)","        _delete_directory_recursively(os.path.realpath(x))"),
("C32","pycachecleaner.py","        _delete_directory_recursively(x)","        _delete_directory_recursively(os.path.dirname(x))"),
("C32","pycachecleaner.py","    for x in getpycachedirs(path):\n","    for x in getpycachedirs(os.path.abspath(os.path.join(path, \"..\"))):\n"),
("C32","pycachecleaner.py","    try:\n        os.rmdir(path)\n    except FileNotFoundError:\n        pass","    pass"),
("C32","repl/macropython.py","        if not opts.dry_run:\n            deletepycachedirs(opts.path_to_clean)\n        else:\n            for x in getpycachedirs(opts.path_to_clean):\n                print(x)","        if opts.dry_run:\n            for x in getpycachedirs(opts.path_to_clean):\n                print(x)\n        deletepycachedirs(opts.path_to_clean)"),
("C32","pycachecleaner.py","                os.unlink(os.path.join(root, x))\n            except","                os.unlink(os.path.join(path, x))\n            except"),
("C32","pycachecleaner.py","        if \"__pycache__\" in dirs and","        if \"__pycache__\" in files + dirs and"),
("C32","pycachecleaner.py","        if \"__pycache__\" in dirs and not os.path.islink(os.path.join(root, \"__pycache__\")):\n            paths.append(os.path.join(root, \"__pycache__\"))","        paths += [os.path.join(root, d) for d in dirs if \"pycache\" in d and not os.path.islink(os.path.join(root, d))]"),
("C33","walkers.py","        newstate = self.state.copy()\n","        newstate = self.state\n"),
("C33","walkers.py","        self.collected = []","        if not hasattr(self, \"collected\"):\n            self.collected = []"),
("C33","walkers.py","        self.collected.append(value)","        if value not in self.collected:\n            self.collected.append(value)"),
("C33","walkers.py","        self.collected.append(value)","        self.collected.insert(0, value)"),
("C33","bunch.py","        return Bunch(**{k: v for k, v in self._data.items()})","        b = Bunch()\n        b._data = self._data\n        return b"),
("C33","bunch.py","        self._data.update(**bindings)","        for k, v in bindings.items():\n            self._data.setdefault(k, v)"),
("C33","bunch.py","            raise AttributeError(f\"{type(self).__name__} object has no attribute '{name}'\") from err","            raise"),
("C33","bunch.py","            return self._data[name]","            return self._data.get(name)"),
("C33","walkers.py","            return self.examine(tree)\n        finally:\n            if newstate is not None:\n                self._stack.pop()","            ret = self.examine(tree)\n            if newstate is not None:\n                self._stack.pop()\n            return ret\n        finally:\n            pass"),
("C33","walkers.py","        newstate = self._subtree_overrides.pop(id(tree), None)","        newstate = self._subtree_overrides.get(id(tree), None)"),
("C33","walkers.py","        if newstate is not None:  # note","        if newstate:  # note"),
("C33","walkers.py","                for elt in tree:\n                    self.visit(elt)\n                return","                for elt in tree:\n                    self.examine(elt)\n                return"),
("C33","walkers.py","            return self.transform(tree)","            return self.transform(tree) or tree"),
("C33","walkers.py","                if not new_tree:\n                    new_tree = []","                if len(new_tree) < 2:\n                    new_tree = []"),
("C33","walkers.py","                tree[:] = new_tree\n",""),
("C33","utils.py","            sublst = flatten(elt) if recursive else elt\n            out.extend(sublst)","            out.extend(elt)"),
("C33","utils.py","        elif elt is not None:\n            out.append(elt)\n    return out","        else:\n            out.append(elt)\n    return out"),
("C33","walkers.py","        for node in iter_child_nodes(tree):\n            self._subtree_overrides[id(node)] = newstate","        for node in iter_child_nodes(tree):\n            self._subtree_overrides[id(tree)] = newstate"),
("C33","walkers.py","        self._stack[-1] = newstate","        self._stack[0] = newstate"),
("C33","walkers.py","        return self._stack[-1]","        return self._stack[0]"),
("C33","walkers.py","        self._subtree_overrides = {}\n",""),
("C33","walkers.py","        newstate.update(**bindings)\n","        for k, v in bindings.items():\n            if v is not None:\n                newstate[k] = v\n"),
("C34","markers.py","            if isinstance(tree, cls):\n                self.collect(tree)\n            self.generic_visit(tree)","            if isinstance(tree, cls):\n                self.collect(tree)\n            else:\n                self.generic_visit(tree)"),
("C34","markers.py","            if isinstance(tree, cls):\n                self.collect(tree)","            if type(tree) is cls:\n                self.collect(tree)"),
("C34","markers.py","                return self.visit(tree.body)","                return tree.body"),
("C34","markers.py","                return self.visit(tree.body)","                return self.generic_visit(tree.body)"),
("C34","markers.py","            if isinstance(tree, cls):\n                if","            if isinstance(tree, ASTMarker):\n                if"),
("C34","markers.py","    cls = cls or ASTMarker\n","    cls = ASTMarker\n"),
("C34","markers.py","    if remaining_markers:","    if len(remaining_markers) > 1:"),
("C34","compiler.py","    check_no_markers_remaining(expansion, filename=filename)\n    return expansion","    return expansion"),
("C34","compiler.py","    check_no_markers_remaining(expansion, filename=filename)\n    return expansion","    check_no_markers_remaining(tree, filename=filename)\n    return expansion"),
("C34","markers.py","            if isinstance(tree, cls):\n                self.collect(tree)","            if type(tree) in (cls, ASTMarker):\n                self.collect(tree)"),
("C34","compiler.py","    if dexpander:\n        expansion = dexpander.postprocess_ast(expansion, dialect_instances)\n    check_no_markers_remaining(expansion, filename=filename)","    if dexpander:\n        expansion = dexpander.postprocess_ast(expansion, dialect_instances)\n    else:\n        check_no_markers_remaining(expansion, filename=filename)"),
("C34","markers.py","            return self.generic_visit(tree)\n    return ASTMarkerDeleter().visit(tree)","            return tree\n    return ASTMarkerDeleter().visit(tree)"),
("C35","expander.py","    tree.insert(0, Done(dummy))  #","    tree.insert(0, dummy)  #"),
("C35","expander.py","    tree.insert(0, Done(dummy))  #","    tree.append(Done(dummy))  #"),
("C35","expander.py","            if new_tree is None:\n                # Expression slots in the AST cannot be empty, but we can make\n                # something that evaluates to `None` at run-time, and get\n                # correct coverage while at it.\n                new_tree = _make_coverage_dummy_expr(subscript)\n","            if new_tree is None and self.recursive:\n                new_tree = _make_coverage_dummy_expr(subscript)\n"),
("C35","expander.py","            if new_tree is None:\n                # Expression slots in the AST cannot be empty, but we can make\n                # something that evaluates to `None` at run-time, and get\n                # correct coverage while at it.\n                new_tree = _make_coverage_dummy_expr(subscript)\n",""),
("C35","expander.py","            if new_tree is None:\n                # Expression slots in the AST cannot be empty, but we can make\n                # something that evaluates to `None` at run-time, and get\n                # correct coverage while at it.\n                new_tree = _make_coverage_dummy_expr(name)\n            else:\n                if not","            if True:\n                if not"),
("C35","expander.py","        new_tree = _insert_coverage_dummy_stmt(new_tree, innermost_macro, macroname, self.filename)","        new_tree = _insert_coverage_dummy_stmt(new_tree, decorated, macroname, self.filename)"),
("C35","expander.py","        new_tree = _insert_coverage_dummy_stmt(new_tree, innermost_macro, macroname, self.filename)","        if new_tree is not None:\n            new_tree = _insert_coverage_dummy_stmt(new_tree, innermost_macro, macroname, self.filename)"),
("C35","expander.py","        new_tree = _insert_coverage_dummy_stmt(new_tree, innermost_macro, macroname, self.filename)","        new_tree = _insert_coverage_dummy_stmt(new_tree, macros[0], macroname, self.filename)"),
("C35","expander.py","        new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt, macroname, self.filename)","        new_tree = _insert_coverage_dummy_stmt(new_tree, with_item, macroname, self.filename)"),
("C35","expander.py","        new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt, macroname, self.filename)","        new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt.body[0], macroname, self.filename)"),
("C35","expander.py","        new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt, macroname, self.filename)\n",""),
("C35","expander.py","    if tree is None:\n        tree = []\n    elif isinstance(tree, AST):","    if isinstance(tree, AST):"),
("C35","expander.py","    if tree is None:\n        tree = []\n    elif isinstance(tree, AST):","    if tree is None:\n        return tree\n    elif isinstance(tree, AST):"),
("C35","expander.py","    non = copy_location(Constant(value=None), macronode)","    non = Constant(value=None)"),
("C35","expander.py","    return Done(call)\n","    return Done(lam)\n"),
("C35","expander.py","    return Done(call)\n","    return Done(non)\n"),
("C35","expander.py","    non = copy_location(Constant(value=None), macronode)","    non = copy_location(Constant(value=False), macronode)"),
("C35","expander.py","    lam = copy_location(Lambda(args=arguments(posonlyargs=[], args=[], vararg=None,\n                                              kwonlyargs=[], kw_defaults=[], kwarg=None,\n                                              defaults=[]),","    lam = copy_location(Lambda(args=arguments(args=[], vararg=None,\n                                              kwonlyargs=[], kwarg=None,\n                                              ),"),
("C35","core.py","        if expansion is not None:\n            expansion = fix_locations","        expansion = expansion or []\n        if expansion is not None:\n            expansion = fix_locations"),
("C35","core.py","                if expansion is not None and not isinstance(expansion, AST):\n                    expansion = list(expansion)","                if not isinstance(expansion, AST):\n                    expansion = list(expansion or ())"),
("C35","core.py","        if not self.bindings or isinstance(tree, Done):\n            return tree\n","        if not self.bindings:\n            return tree\n"),
("C35","core.py","        if not self.bindings or isinstance(tree, Done):\n            return tree\n","        if not self.bindings:\n            return tree\n        if isinstance(tree, Done) and not self.recursive:\n            return tree\n"),
("C35","expander.py","    elif isinstance(tree, AST):\n        tree = [tree]","    elif isinstance(tree, AST):\n        return [tree]"),
("C35","expander.py","    dummy = copy_location(Assign(targets=[t], value=v), macronode)","    dummy = Assign(targets=[t], value=v)"),
("C35","expander.py","    t = copy_location(Name(id=\"_mcpyrate_coverage\", ctx=Store()),\n                      macronode)","    t = Name(id=\"_mcpyrate_coverage\", ctx=Store())"),
("C36","debug.py","CS.HEADING2","CS.HEADING3"),
("C36","utils.py","ColorScheme.GREYEDOUT","ColorScheme.GREYED"),
("C36","quotes.py","_mcpyrate_quotes_attr(\"lookup_macro\")","_mcpyrate_quotes_attr(\"lookup_macros\")"),
("C36","quotes.py","_mcpyrate_quotes_attr(\"ast_tuple\")","_mcpyrate_quotes_attr(\"tuple_literal\")"),
("C36","metatools.py","[ast.keyword(\"args\", astify(args)),","[ast.keyword(\"arguments\", astify(args)),"),
("C36","metatools.py","ast.keyword(\"tree\", tree)])","ast.keyword(\"expr\", tree)])"),
("C36","metatools.py","runtime_operator = \"runtime_expand1\"","runtime_operator = \"runtime_expand_once\""),
("C36","unparser.py","__all__ = [\"UnparserError\",","__all__ = [\"UnparseError\","),
("C36","repl/console.py","mcpyrate.repl.utils.sourcecode(","mcpyrate.repl.utils.source("),
("C36","repl/console.py","\"import mcpyrate.repl.utils\"","\"import mcpyrate.repl.util\""),
("C36","coreutils.py","modulename_to_import = f\"mcpyrate.{submodule_dotted_name}\"","modulename_to_import = submodule_dotted_name"),
("C36","repl/macropython.py","        if opts.pylab:","        if opts.pylabmode:"),
("C36","markers.py","raise core.MacroExpansionError(","raise core.ExpansionError("),
("C36","quotes.py","                         ast.Constant(value=expander.filename)],\n                        [])\n\n        if syntax","                         ast.Constant(value=expander.filename),\n                         ast.Constant(value=syntax)],\n                        [])\n\n        if syntax"),
("C36","metatools.py","from .astfixers import fix_locations  # noqa: F401, used in macro output.\n",""),
("C36","metatools.py","from .debug import step_expansion  # noqa: F401, used in macro output.\n",""),
("C36","debug.py","__all__ = [\"step_expansion\", \"StepExpansion\",","__all__ = [\"step_expansion\", \"StepExpander\","),
("C36","quotes.py","from .core import Done, Macro","from .core import Macro"),
("C36","quotes.py","def splice_ast_literals(tree, filename):","def splice_ast_literals(tree, *, filename):"),
("C36","quotes.py","def lookup_value(key):","def lookup_value(key, name):"),
("C37","debug.py","            while mc.collected:\n                step += 1","            if mc.collected:\n                step += 1"),
("C37","debug.py","                tree = tree.body\n","                pass\n"),
("C37","debug.py","                mc.clear()\n",""),
("C37","debug.py","                mc.clear()\n                mc.visit(tree)\n","                mc.clear()\n"),
("C37","debug.py","                tree = expander.visit_once(tree)  # -> Done(body=...)\n                tree = tree.body\n","                newtree = expander.visit_once(tree)  # -> Done(body=...)\n                tree = newtree.body\n                newtree = tree\n                break\n"),
("C37","debug.py","            nonlocal step\n            nonlocal tree\n            mc = MacroCollector(expander)\n","            nonlocal step\n            current = tree\n            mc = MacroCollector(expander)\n"),
("C37","debug.py","              file=sys.stderr)\n    return tree\n\n\n@namemacro","              file=sys.stderr)\n    return None\n\n\n@namemacro"),
("C37","debug.py","            while mc.collected:\n","            while mc.collected and step < 100:\n"),
("C37","debug.py","                step += 1\n                tree = expander","                step += 1\n                expander.recursive = False\n                tree = expander"),
("C37","debug.py","    return None\n","    return tree\n"),
("C37","debug.py","                if not isinstance(tree, (ast.AST, list)):\n                    return repr(tree)\n",""),
("C37","core.py","            oldtree = deepcopy(target)  # including","            oldtree = target  # including"),
("C37","core.py","            oldtree = deepcopy(target)  # including","            oldtree = deepcopy(tree)  # including"),
("C37","core.py","            self._debughook(oldid, oldtree, newtree, macroname, macro)\n","            newtree = self._debughook(oldid, oldtree, newtree, macroname, macro)\n"),
("C37","core.py","            self._debughook(oldid, oldtree, newtree, macroname, macro)\n","            self._debughook(oldid, oldtree, tree, macroname, macro)\n"),
("C37","core.py","            finally:\n                self._debughook = oldhook","            finally:\n                self._debughook = hook"),
("C37","core.py","            try:\n                self._debughook = hook\n                yield\n            finally:\n                self._debughook = oldhook","            self._debughook = hook\n            yield\n            self._debughook = oldhook"),
("C37","core.py","            oldhook = self._debughook\n","            oldhook = None\n"),
("C37","core.py","        newtree = macro(tree, **kw)\n\n        if self._debughook:\n","        newtree = macro(tree, **kw)\n\n        if self._debughook:\n            kw.clear()\n"),
("C37","core.py","            if self.recursive:\n                expansion = self.visit(expansion)","            if self.recursive and not self._debughook:\n                expansion = self.visit(expansion)"),
("C37","dialects.py","                content = result\n                self._step += 1\n\n                if self.debugmode:\n","                self._step += 1\n\n                if self.debugmode:\n                    content = result\n"),
("C37","dialects.py","                dialect_instances.append(dialect)\n","                if not self.debugmode:\n                    dialect_instances.append(dialect)\n"),
("C37","dialects.py","            content = result\n            self._step += 1\n\n            if self.debugmode:\n","            content = result\n\n            if self.debugmode:\n                self._step += 1\n"),
("C37","dialects.py","        self._enable_debugmode()\n        return tree","        self._enable_debugmode()\n        return None"),
("C37","dialects.py","        self._enable_debugmode()\n        return text","        self._enable_debugmode()\n        return text.strip()"),
("C37","multiphase.py","                if debug:\n                    print(unparse_with_fallbacks(phase_k_tree, debug=True, color=True), file=sys.stderr)\n","                if debug:\n                    print(unparse_with_fallbacks(phase_k_tree, debug=True, color=True), file=sys.stderr)\n                    phase_k_tree.body.pop(0)\n"),
("C37","multiphase.py","                if k == 0:\n                    expansion","                if k == 0 or debug:\n                    expansion"),
("C37","astdumper.py","            fields = [(k, recurse(v,","            tree.lineno = getattr(tree, 'lineno', None)\n            fields = [(k, recurse(v,"),
("C37","unparser.py","        text = unparse(tree, debug=debug, color=color, expander=expander)\n","        tree.ctx = None\n        text = unparse(tree, debug=debug, color=color, expander=expander)\n"),
('C01','core.py','            wasrecursive = self.recursive\n            try:\n                self.recursive = isrecursive\n                yield\n            finally:\n                self.recursive = wasrecursive','            wasrecursive = self.recursive\n            try:\n                self.recursive = isrecursive\n                yield\n            finally:\n                self.recursive = not isrecursive'),
('C01','core.py','            oldhook = self._debughook\n            try:\n                self._debughook = hook\n','            oldhook = self._debughook\n            try:\n                self._debughook = hook or oldhook\n'),
('C01','quotes.py','    with _quotelevel.changed_by(+1):','    with _quotelevel.changed_by(+1 if _quotelevel.value < 8 else 0):'),
('C01','core.py','            wasrecursive = self.recursive\n            try:\n                self.recursive = isrecursive\n                yield\n            finally:\n                self.recursive = wasrecursive','            wasrecursive = self.recursive\n            self.recursive = isrecursive\n            try:\n                yield\n            except MacroExpansionError:\n                self.recursive = True\n                raise\n            else:\n                self.recursive = wasrecursive'),
('C05','core.py','            if isinstance(err, MacroApplicationError) and err.__cause__:','            if isinstance(err, MacroExpansionError) and err.__cause__:'),
('C05','core.py','                raise MacroApplicationError(msg).with_traceback(err.__traceback__) from err.__cause__','                raise MacroApplicationError(msg).with_traceback(err.__traceback__) from err'),
('C05','core.py','                    if not all(isinstance(elt, AST) for elt in expansion):','                    if not any(isinstance(elt, AST) for elt in expansion):'),
('C05','core.py','                msg = f"{hint}\\n{msg}\\n{oldmsg}"','                msg = f"{hint}\\n{oldmsg}\\n{msg}"'),
('C05','core.py','                    expansion = list(expansion)','                    expansion = list(expansion) or None'),
('C06','core.py','            expansion = fix_ctx(expansion, copy_seen_nodes=False)\n            if self.recursive:','            if self.recursive:\n                expansion = fix_ctx(expansion, copy_seen_nodes=False)'),
('C06','core.py','            expansion = fix_locations(expansion, target, mode="reference")','            expansion = fix_locations(expansion, target, mode="update") if isinstance(expansion, list) else fix_locations(expansion, target, mode="reference")'),
('C06','core.py','    if function not in global_postprocessors:\n        global_postprocessors.append(function)','    if function not in global_postprocessors:\n        global_postprocessors.insert(0, function)'),
('C06','core.py','    for custom_postprocessor in global_postprocessors:\n        tree = custom_postprocessor(tree)','    for custom_postprocessor in global_postprocessors:\n        tree = custom_postprocessor(tree) or tree'),
('C06','core.py','    for custom_postprocessor in global_postprocessors:\n        tree','    for custom_postprocessor in set(global_postprocessors):\n        tree'),
('C07','core.py','            return Done(self.visit(tree))','            newtree = self.visit(tree)\n            return Done(newtree) if newtree is not tree else newtree'),
('C07','core.py','        if not self.bindings or isinstance(tree, Done):\n            return tree','        if not self.bindings or isinstance(tree, Done) and not self.recursive:\n            return tree'),
('C07','core.py','        if not self.bindings or isinstance(tree, Done):\n            return tree','        if not self.bindings or type(tree) is Done:\n            return tree'),
('C07','expander.py','                return not (type(tree) is Name and tree.id == macroname)','                return not (type(tree) is Name and tree.id == macroname and tree is name)'),
('C08','expander.py','        return not macroargs or isparametricmacro(self.isbound(macroname))','        return macroargs is None or len(macroargs) == 0 or isparametricmacro(self.isbound(macroname)) or syntax == "decorator"'),
('C08','expander.py','        original_withstmt = copy(withstmt)\n        original_withstmt.items = copy(withstmt.items)\n','        original_withstmt = copy(withstmt)\n'),
('C08','expander.py','        innermost_macro = macros[-1]',"        innermost_macro = macros[-1] if type(decorated).__name__ != 'ClassDef' else macros[0]"),
('C08','expander.py','        kw = {"args": macroargs}\n        kw.update({"optional_vars": with_item.optional_vars})','        kw = {"args": macroargs}\n        kw.update({"optional_vars": withstmt.items[0].optional_vars if withstmt.items else with_item.optional_vars})'),
('C08','expander.py','        tree = withstmt.body if not withstmt.items else [withstmt]','        tree = withstmt.body if not others else [withstmt]'),
('C08','expander.py','            if any(type(arg) is Starred for arg in tree.args):','            if all(type(arg) is Starred for arg in tree.args):'),
('C08','expander.py','        if type(macroargs) is Tuple:  # [a0, a1, ...]\n            macroargs = macroargs.elts','        if type(macroargs) is Tuple and macroargs.elts:  # [a0, a1, ...]\n            macroargs = macroargs.elts'),
('C09','expander.py','                if k in ("decorator_list", "name", "type_comment"):','                if k in ("decorator_list", "name", "type_comment", "returns"):'),
('C09','expander.py','            for with_item in others:\n                self.visit(with_item)\n            self.visit(withstmt.body)','            for with_item in others:\n                self.visit(with_item)\n            if len(macros) == 1:\n                self.visit(withstmt.body)'),
('C35','expander.py','    if not hasattr(macronode, "lineno") and not hasattr(macronode, "col_offset"):\n        return tree\n    if tree is None:','    if not hasattr(macronode, "lineno") or not macronode.col_offset:\n        return tree\n    if tree is None:'),
('C35','expander.py','    tree.insert(0, Done(dummy))','    tree.insert(len(tree) and 1, Done(dummy))'),
('C35','expander.py','        new_tree = _insert_coverage_dummy_stmt(new_tree, innermost_macro,','        new_tree = _insert_coverage_dummy_stmt(new_tree, decorated,'),
('C05','core.py','        except Exception as err:\n            msg = f','        except (TypeError, ValueError, SyntaxError, LookupError, AttributeError, MacroExpansionError, NameError, ArithmeticError, AssertionError, RuntimeError) as err:\n            msg = f'),
('C06','core.py','    for custom_postprocessor in global_postprocessors:\n        tree','    for custom_postprocessor in set(global_postprocessors):\n        tree'),
('C06','core.py','        if expansion is not None:\n            expansion = fix_loc','        if expansion:\n            expansion = fix_loc'),
('C06','core.py','        if expansion is not None:\n            expansion = fix_loc','        if expansion is not None and (isinstance(expansion, AST) or len(expansion) < 100):\n            expansion = fix_loc'),
('C08','expander.py','    return hasattr(function, "_isnamemacro")','    return hasattr(function, "_isnamemacro") or isparametricmacro(function)'),
('C08','expander.py','        tree = withstmt.body if not withstmt.items else [withstmt]','        tree = withstmt.body if not others else [withstmt]'),
('C08','expander.py','            if any(type(arg) is Starred for arg in tree.args):','            if all(type(arg) is Starred for arg in tree.args):'),
('C09','expander.py','        if not self.expander.bindings or isinstance(tree, Done):\n            return\n        if tree is None:','        if not self.expander.bindings or isinstance(tree, (Done, BaseMacroExpander)):\n            return\n        if tree is None:'),
('C35','expander.py','                new_tree = _make_coverage_dummy_expr(name)\n','                new_tree = name\n'),
('C07','expander.py','                    new_tree = Done(new_tree)\n                elif self.rec','                    new_tree = Done(new_tree) if self.recursive else new_tree\n                elif self.rec'),
('C08','expander.py','    return hasattr(function, "_isnamemacro")','    return hasattr(function, "_isnamemacro") or isparametricmacro(function)'),
('C08','expander.py','    return hasattr(function, "_isnamemacro")','    return hasattr(function, "_isnamemacro") and not isparametricmacro(function)'),
('C35','expander.py','                new_tree = _make_coverage_dummy_expr(name)\n','                new_tree = name\n'),
('C10','astfixers.py','            self.withstate(tree.context_expr, ctxclass=Load)\n            self.withstate(tree.optional_vars, ctxclass=Store)','            self.withstate(tree.context_expr, ctxclass=Load)\n            if type(tree.optional_vars) is not Subscript:\n                self.withstate(tree.optional_vars, ctxclass=Store)'),
('C10','astfixers.py','            tree.ctx = self.state.ctxclass()\n','            if not hasattr(tree, "ctx"):\n                tree.ctx = self.state.ctxclass()\n'),
('C10','astfixers.py','                tree = copy(tree)\n','                tree = copy(tree)\n                return tree\n'),
('C10','astfixers.py','            self._seen.add(id(tree))\n','            if not isinstance(tree, Attribute):\n                self._seen.add(id(tree))\n'),
('C10','astfixers.py','    if copy_seen_nodes:\n        tree = ','    if copy_seen_nodes and not isinstance(tree, list):\n        tree = '),
('C11','astfixers.py','        for child in iter_child_nodes(tree):\n            _fix(child, lineno,','        for child in iter_child_nodes(tree):\n            if hasattr(child, "lineno") and mode == "reference":\n                continue\n            _fix(child, lineno,'),
('C11','astfixers.py','                    lineno = tree.lineno\n                    end_lineno = tree.end_lineno if','                    lineno = tree.lineno or lineno\n                    end_lineno = tree.end_lineno if'),
('C33','walkers.py','newstate = self._subtree_overrides.pop(id(tree), None)','newstate = self._subtree_overrides.get(id(tree), None)'),
('C33','walkers.py','        self._stack = [Bunch(**bindings)]\n        self._subtree_overrides = {}\n','        self._stack = [Bunch(**bindings)]\n        if not hasattr(self, "_subtree_overrides"):\n            self._subtree_overrides = {}\n'),
('C33','walkers.py','                    new_tree = []  #','                    return None  #'),
('C26','multiphase.py','        if iswithphase(stmt, filename=filename) == phase:','        if iswithphase(stmt, filename=filename) >= phase:'),
('C26','multiphase.py','            remaining.append(deepcopy(withphase))','            remaining.append(withphase)'),
('C26','multiphase.py','        if original_phase == 1:\n            # Lifting','        if original_phase <= 2:\n            # Lifting'),
('C26','multiphase.py','            remaining.extend(deepcopy(withphase.body))','            remaining.extend(map(copy, withphase.body))'),
('C26','multiphase.py','        if maxn is None or (n is not None and n > maxn):\n            maxn = n\n','        if maxn is None or (n is not None and n > maxn):\n            maxn = n\n        elif n:\n            break\n'),
('C25','multiphase.py','            if isfutureimport(stmt):\n                thisphase.append(stmt)\n','            if isfutureimport(stmt) and not any(isfutureimport(x) for x in thisphase):\n                thisphase.append(stmt)\n'),
('C26','multiphase.py','    if len(stmt.items) != 1:','    if not stmt.items:'),
('C27','multiphase.py','                compiler.run(phase_k_tree, module, optimize=_optimize)','                compiler.run(phase_k_tree, module, optimize=_optimize if k > 1 else -1)'),
('C27','compiler.py','    if not (filename and filename.endswith(".py")):\n        if isinstance(source, (ast.AST, list)):','    if not (filename and filename.endswith(".py")) or optimize == 2:\n        if isinstance(source, (ast.AST, list)):'),
('C28','compiler.py','        module.__doc__ = docstring\n','        module.__doc__ = docstring or module.__doc__\n'),
('C28','compiler.py','        code = source\n        module.__doc__ = None\n','        code = source\n'),
('C28','compiler.py','    if not all(component.isidentifier() for component in path):','    if not all(component.isidentifier() for component in path[-1:]):'),
('C28','compiler.py','        module.__package__ = packagename\n\n        if update_parent:\n','        if update_parent:\n            module.__package__ = packagename\n'),
('C02','compiler.py','            if update_parent and dotted_name.find(".") != -1:\n                packagename','            if update_parent and dotted_name.count(".") == 1:\n                packagename'),
('C02','multiphase.py','    if self_module in sys.modules:\n        original_module = sys.modules[self_module]\n    else:\n        original_module = None\n','    original_module = sys.modules.get(self_module) if n else None\n'),
('C03','compiler.py','    check_no_markers_remaining(expansion, filename=filename)','    if dexpander:\n        check_no_markers_remaining(expansion, filename=filename)'),
('C03','compiler.py','        expansion = dexpander.postprocess_ast(expansion, dialect_instances)','        dexpander.postprocess_ast(expansion, dialect_instances)'),
('C03','compiler.py','        text = dexpander.transform_source(text)','        if self_module:\n            text = dexpander.transform_source(text)'),
('C27','compiler.py','    self_module = module.__name__\n',"    self_module = dotted_name if isinstance(module, str) else module.__dict__.get('__package__') or module.__name__\n"),
('C04','importer.py','                elif iswithphase(stmt, filename=path):  # for multi-phase compilation: scan also inside top-level `with phase`\n                    scan(stmt)','                elif iswithphase(stmt, filename=path) == 1:\n                    scan(stmt)'),
('C04','importer.py','any(macroimport.level for macroimport in macro_and_dialect_imports)','any(macroimport.level for macroimport in macroimports)'),
('C04','importer.py','any(macroimport.level for macroimport in macro_and_dialect_imports)','all(macroimport.level for macroimport in macro_and_dialect_imports)'),
('C04','importer.py','        if data["st_mtime_ns"] == stat_result.st_mtime_ns:','        if data["st_mtime_ns"] >= stat_result.st_mtime_ns:'),
('C04','importer.py','                    macroimports.append(stmt)\n                elif','                    if not any(m.module == stmt.module for m in macroimports):\n                        macroimports.append(stmt)\n                elif'),
('C04','importer.py','            origin = spec.origin\n','            origin = spec.cached or spec.origin\n'),
('C04','importer.py','            stats = path_stats(origin, _stats_cache)\n            mtimes.append','            stats = path_stats(origin, _stats_cache) if origin not in _stats_cache else {"mtime": 0}\n            mtimes.append'),
('C04','importer.py','    if path in _stdlib_sourcefile_paths or not path.endswith(".py"):','    if path in _stdlib_sourcefile_paths or "lib/python" in path or not path.endswith(".py"):'),
('C04','importer.py','    if path in _stats_cache:\n        return _stats_cache[path]','    if os.path.basename(path) in _stats_cache:\n        return _stats_cache[os.path.basename(path)]'),
('C04','importer.py','max(mtimes)','max(mtimes[-2:])'),
('C04','importer.py','    mtimes.append(mtime)\n','    if not mtimes:\n        mtimes.append(mtime)\n'),
('C04','importer.py','        if data["st_mtime_ns"] == stat_result.st_mtime_ns:\n            macroimport_cache_valid = True\n    except Exception:','        if data["st_mtime_ns"] == stat_result.st_mtime_ns:\n            macroimport_cache_valid = True\n    except OSError:'),
('C04','importer.py','                    "macroimports": macroimports,\n                    "dialectimports": dialectimports,','                    "macroimports": macroimports,\n                    "dialectimports": macroimports,'),
('C04','importer.py','    pyc_path = importlib.util.cache_from_source(path)','    pyc_path = importlib.util.cache_from_source(os.path.basename(path))'),
('C15','quotes.py','            body, syntax = tree.args[0], tree.args[1].value\n            return ASTLiteral(body, syntax)','            body = tree.args[0]\n            return ASTLiteral(body, "expr")'),
('C15','quotes.py','ast.Dict(keys=list(recurse(k) for k in x.keys()),','ast.Dict(keys=list(recurse(k) for k in sorted(x.keys())),'),
('C15','quotes.py','            kwargs = {k: v for k, v in unastify(tree.keywords)}','            kwargs = {k: v for k, v in unastify(tree.keywords) if v is not None}'),
('C15','quotes.py','        name_node = tree.args[1]\n','        name_node = tree.args[0]\n'),
('C15','quotes.py','            for fieldname, value in ast.iter_fields(thing):\n                if isinstance(value, (list, ast.AST)):','            for fieldname, value in ast.iter_fields(thing):\n                if isinstance(value, list):'),
('C16','quotes.py','            if type(target) is not ast.Name:','            if not isinstance(target, (ast.Name, ast.Attribute)):'),
('C16','quotes.py','            if type(stmt) is not ast.Expr:\n                raise','            if not isinstance(stmt, (ast.Expr, ast.Pass)):\n                raise'),
('C16','quotes.py','            function = expander.isbound(tree.id)\n            if function and isnamemacro(function):\n                expand = False','            function = expander.isbound(tree.id)\n            if function:\n                expand = False'),
('C17','quotes.py','    if unique_name not in global_bindings:\n        global_bindings[unique_name] =','    if name not in global_bindings:\n        global_bindings[unique_name] ='),
('C17','quotes.py','    return lookup_macro((name, gensym(name), frozen_macro))','    return lookup_macro((name, scrub_uuid(gensym(name)), frozen_macro))'),
('C17','quotes.py','    frozen_value = pickle.dumps(value)\n','    frozen_value = pickle.dumps(value) if not isinstance(value, type) else None\n'),
('C04','importer.py','        if spec:  # self','        if spec and not spec.submodule_search_locations:  # self'),
('C04','importer.py','        if spec:  # self','        if spec and spec.loader is not None and macroimport.level == 0:  # self'),
('C15','quotes.py','                    doit(item.body)\n','                    pass\n'),
('C16','quotes.py','        if _quotelevel.value > 1:','        if _quotelevel.value == 2:'),
('C17','quotes.py','    cachekey = (name, id(frozen_value))','    cachekey = frozen_value'),
('C17','quotes.py','    cachekey = (name, id(frozen_value))','    cachekey = hash(frozen_value)'),
('C17','quotes.py','        _lookup_cache[cachekey] = (frozen_value, pickle','        _lookup_cache.clear()\n        _lookup_cache[cachekey] = (frozen_value, pickle'),
('C16','utils.py','        return self.set_to(','        self.stack[-1] += delta\n        return self.set_to('),
('C16','quotes.py','            if type(target) is not ast.Name:','            if not isinstance(target, (ast.Name, ast.Attribute)):'),
('C16','quotes.py','            if type(stmt) is not ast.Expr:\n','            if not isinstance(stmt, (ast.Expr, ast.Return)):\n'),
('C17','quotes.py','gensym(name), frozen_macro))','scrub_uuid(gensym(name)), frozen_macro))'),
('C17','quotes.py','    name, unique_name, frozen_macro = key\n','    name, unique_name, frozen_macro = key\n    unique_name = unique_name[:64]\n'),
('C17','quotes.py','        global_bindings[unique_name] = pickle','        global_bindings[name] = pickle'),
('C15','quotes.py','            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x)]\n            # We have','            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x) if b]\n            # We have'),
('C19','coreutils.py','        if firstimport.name == magicname and firstimport.asname is None:','        if firstimport.name == magicname:'),
('C19','coreutils.py','    for name in macroimport.names[1:]:',"    for name in [x for x in macroimport.names if x.name != 'macros']:"),
('C19','coreutils.py','        bindings[name.asname or name.name] = macro','        bindings.setdefault(name.asname or name.name, macro)'),
('C19','coreutils.py','        if reload:\n',"        if reload and module_absname in sys.modules and not getattr(module, '__path__', None):\n"),
('C19','coreutils.py','        module_absname = self_module\n',"        module_absname = self_module or '__main__'\n"),
('C20','coreutils.py','if root_path == path or root_path in path.parents:','if root_path in path.parents:'),
('C20','coreutils.py','if root_path == path or root_path in path.parents:','if root_path == path or root_path in path.parents[:8]:'),
('C20','coreutils.py','if root_path == path or root_path in path.parents:',"if path.match(str(root_path) + '*') or root_path == path:"),
('C20','coreutils.py','    relative_path = absolute_filename[len(str(root_path)):]',"    relative_path = absolute_filename.replace(str(root_path), '')"),
('C20','coreutils.py','    package_dotted_name = relative_path.replace(os.path.sep, ".")','    package_dotted_name = relative_path.replace(os.path.sep, ".").replace(\'-\', \'_\')'),
('C20','coreutils.py','    containing_directory = pathlib.Path(filename).expanduser().resolve().parent','    containing_directory = pathlib.Path(filename).parent.expanduser().absolute()'),
('C21','splicing.py','        return type(tree) is ast.Name and tree.id == tag','        return type(tree) is ast.Name and tree.id.startswith(tag)'),
('C21','splicing.py','        return type(tree) is ast.Expr and type(tree.value) is ast.Name and tree.value.id == tag',"        return type(tree) is ast.Expr and getattr(tree.value, 'id', None) is not None and tree.value.id == tag or type(tree) is ast.Expr and getattr(tree.value, 'attr', None) == tag"),
('C21','splicing.py','                if not self.first:\n                    return deepcopy(body)\n','                if not self.first:\n                    return list(body)\n'),
('C21','splicing.py','                if not self.first:\n                    return deepcopy(body)\n','                if not self.first:\n                    return [deepcopy(body[0])] + body[1:]\n'),
('C21','splicing.py','                    return deepcopy(expr)\n                self.first = False','                    return deepcopy(expr)'),
('C22','splicing.py','    futureimports = template_futureimports + user_futureimports','    futureimports = template_futureimports or user_futureimports'),
('C22','splicing.py','    if lineno is not None and col_offset is not None:','    if lineno and col_offset:'),
('C22','splicing.py','    for stmt in template:\n        fix_loc','    for stmt in template[1:]:\n        fix_loc'),
('C22','splicing.py','        docstring = user_docstring or template_docstring','        docstring = user_docstring'),
('C22','splicing.py','mode="overwrite"','mode="reference"'),
('C23','dialects.py','                dialect_instances.append(dialect)\n','                if dialect not in dialect_instances and result is not content:\n                    dialect_instances.append(dialect)\n'),
('C23','dialects.py','            for dialectname, cls in bindings.items():','            for dialectname, cls in sorted(bindings.items()):'),
('C23','dialects.py','            for dialectname, cls in bindings.items():','            for dialectname, cls in {v: (k, v) for k, v in bindings.items()}.values():'),
('C23','dialects.py','        for dialect in dialect_instances:\n','        for dialect in reversed(dialect_instances):\n'),
('C23','dialects.py','        tree.body[index] = ast','        tree.body[0] = ast'),
('C23','dialects.py','            if ismacroimport(statement, magicname="dialects"):\n                break','            if ismacroimport(statement, magicname="dialects"):\n                break\n            if not isinstance(statement, (ast.Import, ast.ImportFrom, ast.Expr)):\n                return None'),
('C24','dialects.py','                    lineno = 1 + text[0:match.start()].count("\\n")','                    lineno = text[0:match.start()].count("\\n")'),
('C24','dialects.py','[ \\t]+import dialects,[ \\t]+','\\s+import dialects,[ \\t]+'),
('C24','dialects.py','([^(\\\\\\n]+)$','([^(\\\\]+)$'),
('C24','dialects.py','r"^from[','r"^[ \\t]*from['),
('C24','dialects.py','flags=re.MULTILINE','flags=re.MULTILINE | re.IGNORECASE'),
('C24','dialects.py','                statement = match.group(0).strip()',"                statement = match.group(0).strip().split(' as ')[0]"),
('C24','dialects.py','        matches = _dialectimport.finditer(text)','        matches = _dialectimport.finditer(text, 1)'),
('C24','dialects.py','        matches = _dialectimport.finditer(text)',"        matches = _dialectimport.finditer(text.replace('\\\\\\n', ''))"),
('C32','pycachecleaner.py','followlinks=False','followlinks=True'),
('C32','pycachecleaner.py','    for root, dirs, files in os.walk(path):\n        if','    for root, dirs, files in os.walk(path, followlinks=True):\n        if'),
('C31','activate.py','    SourceFileLoader.path_stats = stdlib_path_stats','    SourceFileLoader.path_stats = lambda self, path: stdlib_path_stats(self, path)'),
('C31','importer.py','        dirs[:] = [x for x in dirs if x not in ("site-packages", "dist-packages")]','        dirs[:] = [x for x in dirs if x not in ("site-packages", "dist-packages", "test")]'),
('C34','markers.py','            if isinstance(tree, cls):\n                self.collect(tree)\n            self.generic_visit(tree)','            if isinstance(tree, cls):\n                self.collect(tree)\n                return\n            self.generic_visit(tree)'),
('C34','markers.py','            if isinstance(tree, cls):\n                if tree.body is None','            if isinstance(tree, ASTMarker):\n                if tree.body is None'),
('C01','core.py','            wasrecursive = self.recursive\n            try:\n                self.recursive = isrecursive\n                yield\n            finally:\n                self.recursive = wasrecursive','            wasrecursive = self.recursive\n            self.recursive = isrecursive\n            yield\n            self.recursive = wasrecursive'),
('C01','walkers.py','            return self.transform(tree)\n        finally:\n            if newstate is not None:\n                self._stack.pop()','            return self.transform(tree)\n        except Exception:\n            raise\n        else:\n            if newstate is not None:\n                self._stack.pop()'),
('C01','utils.py','            self.stack.append(value)\n            try:\n                yield\n            finally:','            self.stack.append(value)\n            try:\n                yield\n            except Exception:'),
('C01','utils.py','        return self.set_to(self.value + delta)','        return self.set_to(self.stack[0] + delta)'),
('C01','core.py','                self._debughook = oldhook','                self._debughook = None'),
('C01','walkers.py','        newstate = self._subtree_overrides.pop(id(tree), None)\n        if newstate is not None:\n            self._stack.append(newstate)\n        try:\n            if isinstance(tree, list):\n                new_tree','        newstate = self._subtree_overrides.pop(id(tree), None)\n        if newstate:\n            self._stack.append(newstate)\n        try:\n            if isinstance(tree, list):\n                new_tree'),
('C02','multiphase.py','        if original_module:',"        if original_module and original_module.__dict__.get('__file__') == filename:"),
('C02','multiphase.py','    if self_module in sys.modules:',"    if self_module in sys.modules and hasattr(sys.modules[self_module], '__file__'):"),
('C02','compiler.py','    module = create_module(dotted_name, filename, update_parent=update_parent)\n    dotted_name = module.__name__\n','    module = create_module(dotted_name, filename, update_parent=update_parent)\n'),
('C02','compiler.py','            sys.modules.pop(dotted_name, None)\n            if update_parent','            del sys.modules[dotted_name]\n            if update_parent'),
('C02','multiphase.py','    module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)','    module = compiler.create_module(dotted_name=self_module, filename=filename)'),
('C03','compiler.py','        if isinstance(source, bytes):\n            text = importlib.util.decode_source(source)\n        else:\n            text = source\n        text = dexpander.transform_source(text)','        if isinstance(source, bytes):\n            text = importlib.util.decode_source(source)\n            text = dexpander.transform_source(text)\n        else:\n            text = source'),
('C03','compiler.py','    module_macro_bindings = find_macros(tree, filename=filename, self_module=self_module)\n','    module_macro_bindings = find_macros(tree, filename=filename, self_module=self_module)\n    if not module_macro_bindings:\n        return tree\n'),
('C03','compiler.py','    if dexpander:\n        expansion = dexpander.postprocess_ast(expansion, dialect_instances)','    if dexpander and module_macro_bindings:\n        expansion = dexpander.postprocess_ast(expansion, dialect_instances)'),
('C03','multiphase.py','                expansion = compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)','                expansion = compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=None)'),
('C03','repl/console.py','            tree = global_postprocess(tree)','            if bindings:\n                tree = global_postprocess(tree)'),
('C03','repl/iconsole.py','            new_tree = global_postprocess(new_tree)','            global_postprocess(new_tree)'),
('C03','repl/console.py','                self.expander.bindings.update(bindings)','                self.expander.bindings = dict(self.expander.bindings, **bindings) if len(bindings) > 1 else self.expander.bindings'),
('C03','expander.py','    expansion = MacroExpander(bindings, filename).visit(tree)\n    expansion = global_postprocess(expansion)','    expansion = tree\n    if bindings:\n        expansion = MacroExpander(bindings, filename).visit(tree)\n    expansion = global_postprocess(expansion)'),
('C05','core.py','                    if not all((isinstance(elt, AST) for elt in expansion)):','                    if expansion and not isinstance(expansion[0], AST):'),
('C05','core.py','                if expansion is not None and (not isinstance(expansion, AST)):','                if expansion and (not isinstance(expansion, AST)):'),
('C05','core.py','        except Exception as err:\n            msg = f"{loc}','        except (TypeError, ValueError, SyntaxError, LookupError, AttributeError, MacroApplicationError) as err:\n            msg = f"{loc}'),
('C05','utils.py','def format_location(filename, tree, sourcecode):',"def format_location(filename, tree, sourcecode):\n    filename = filename.rsplit('/', 1)[-1]"),
('C06','core.py','        if expansion is not None:\n            expansion = fix_locations','        if expansion:\n            expansion = fix_locations'),
('C06','core.py','        if expansion is not None:\n            expansion = fix_locations','        if expansion is not None and expansion is not target:\n            expansion = fix_locations'),
('C06','core.py','    for custom_postprocessor in global_postprocessors:\n        tree = custom_postprocessor(tree)','    for custom_postprocessor in global_postprocessors:\n        custom_postprocessor(tree)'),
('C06','core.py','    for custom_postprocessor in global_postprocessors:','    for custom_postprocessor in sorted(global_postprocessors, key=lambda f: f.__qualname__):'),
('C06','core.py','    if function not in global_postprocessors:','    if function.__name__ not in [f.__name__ for f in global_postprocessors]:'),
('C07','core.py','        with self._recursive_mode(True):\n            return self.visit(tree)','        if self.recursive:\n            return self.visit(tree)\n        with self._recursive_mode(True):\n            return self.visit(Done(tree))'),
('C07','core.py','        if not self.bindings or isinstance(tree, Done):\n            return tree','        if not self.bindings:\n            return tree\n        if isinstance(tree, Done) and not self.recursive:\n            return tree'),
('C07','metatools.py','    tree = expander.visit_once(tree)\n    tree = expander.visit_recursively(unastify(tree.body))','    tree = expander.visit_recursively(tree)\n    tree = expander.visit_recursively(unastify(tree))'),
('C07','metatools.py','    return expander.visit_once(tree).body','    return expander.visit_once(tree)'),
('C07','expander.py','            elif not ismodified(new_tree):\n                new_tree = Done(new_tree)','            elif new_tree is name:\n                new_tree = Done(new_tree)'),
('C07','expander.py','        if not self.expander.bindings or isinstance(tree, Done):\n            return\n','        if not self.expander.bindings:\n            return\n'),
('C08','expander.py','        return not macroargs or isparametricmacro(self.isbound(macroname))','        return macroargs is None or not macroargs or isparametricmacro(macroname)'),
('C08','expander.py','        innermost_macro = macros[-1]','        innermost_macro = macros[-1] if not others else macros[0]'),
('C08','expander.py',"        kw.update({'optional_vars': with_item.optional_vars})","        kw.update({'optional_vars': original_withstmt.items[0].optional_vars})"),
('C08','expander.py','            if any((type(arg) is Starred for arg in tree.args)):','            if type(tree.args[-1]) is Starred:'),
('C08','expander.py','    elif type(tree) is Call and type(tree.func) is Name and (not tree.keywords):','    elif type(tree) is Call and type(tree.func) is Name:'),
('C08','expander.py','        if type(macroargs) is Tuple:\n            macroargs = macroargs.elts\n        else:\n            macroargs = [macroargs]\n        return (tree.value.id, macroargs)','        if type(macroargs) is Tuple and macroargs.elts:\n            macroargs = macroargs.elts\n        else:\n            macroargs = [macroargs]\n        return (tree.value.id, macroargs)'),
('C08','expander.py',"    return hasattr(function, '_isnamemacro')","    return hasattr(function, '_isnamemacro') or isparametricmacro(function)"),
('C08','core.py','        bindings = self.bindings if not global_only else global_bindings','        bindings = self.local_bindings if not global_only else global_bindings'),
('C09','expander.py','            if sys.version_info >= (3, 9, 0):\n                self.visit(subscript.slice)\n            else:\n                self.visit(subscript.slice.value)\n        else:\n            self.generic_visit(subscript)','            if not macroargs:\n                self.visit(subscript.slice)\n        else:\n            self.generic_visit(subscript)'),
('C09','expander.py','                self.visit(macroargs)\n            for with_item in others:','            self.visit(macroargs)\n            for with_item in others:'),
('C09','expander.py',"                if k in ('decorator_list', 'name', 'type_comment'):","                if k in ('decorator_list', 'name', 'type_comment', 'returns', 'keywords'):"),
('C09','expander.py',"        if self.expander.ismacrocall(macroname, None, 'name'):","        if self.expander.ismacrocall(macroname, None, 'name') and type(name.ctx) is Load:"),
('C09','expander.py',"                key = (macroname, 'decorator')\n                if key not in self._seen:\n                    self.collected.append(key)\n                    self._seen.add(key)","                key = (macroname, 'decorator')\n                if macroname not in self._seen:\n                    self.collected.append(key)\n                    self._seen.add(macroname)"),
('C09','expander.py','            for with_item in others:\n                self.visit(with_item)\n            self.visit(withstmt.body)','            for with_item in others:\n                self.visit(with_item.context_expr)\n            self.visit(withstmt.body)'),
('C09','expander.py','        self._seen = set()\n        self.collected = []',"        self.collected = []\n        if not hasattr(self, '_seen'):\n            self._seen = set()"),
('C10','astfixers.py','            self.withstate(tree.slice, ctxclass=Load)','            if type(tree.slice) is not Name:\n                self.withstate(tree.slice, ctxclass=Load)'),
('C10','astfixers.py','        tree = self._fix_one(tree)\n        self._setup',"        if not hasattr(tree, 'ctx'):\n            tree = self._fix_one(tree)\n        self._setup"),
('C10','astfixers.py','            if id(tree) in self._seen:\n                tree = copy(tree)\n                for fieldname, value in iter_fields(tree):\n                    if isinstance(value, list):\n                        setattr(tree, fieldname, copy(value))\n            self._seen.add(id(tree))','            if id(tree) in self._seen:\n                tree = copy(tree)\n            self._seen.add(id(tree))'),
('C10','astfixers.py','            self.withstate(tree.targets, ctxclass=Del)','            for t in tree.targets:\n                if type(t) in (Attribute, Subscript, Name):\n                    self.withstate(t, ctxclass=Del)'),
('C11','astfixers.py',"            elif mode == 'update':\n                lineno = tree.lineno\n                end_lineno = tree.end_lineno if hasattr(tree, 'end_lineno') else None","            elif mode == 'update':\n                lineno = tree.lineno\n                end_lineno = getattr(tree, 'end_lineno', end_lineno)"),
('C11','astfixers.py',"    if not (hasattr(reference_node, 'lineno') and hasattr(reference_node, 'col_offset')):","    if not (getattr(reference_node, 'lineno', 0) and getattr(reference_node, 'col_offset', 0)):"),
('C11','astfixers.py','        for child in iter_child_nodes(tree):\n            _fix',"        if mode == 'reference' and hasattr(tree, 'lineno') and hasattr(tree, 'end_lineno'):\n            return\n        for child in iter_child_nodes(tree):\n            _fix"),
('C11','astfixers.py','            for elt in tree:\n                _fix(elt, lineno, col_offset, end_lineno, end_col_offset)\n            return',"            for elt in tree:\n                _fix(elt, lineno, col_offset, end_lineno, end_col_offset)\n                lineno = getattr(elt, 'lineno', lineno)\n            return"),
('C11','astfixers.py',"        tree.lineno = lineno\n        if 'end_lineno' in tree._attributes:\n            tree.end_lineno = end_lineno","        tree.lineno = lineno\n        if 'end_lineno' in tree._attributes and not hasattr(tree, 'end_lineno'):\n            tree.end_lineno = end_lineno"),
('C11','expander.py','                    thealias = copy_location(alias(name=module_absname, asname=None), statement)\n                    tree.body[index] = copy_location(Import(names=[thealias]), statement)','                    thealias = alias(name=module_absname, asname=None)\n                    tree.body[index] = copy_location(Import(names=[thealias]), statement)'),
('C11','expander.py','    call = copy_location(Call(func=lam, args=[], keywords=[]), macronode)','    call = Call(func=lam, args=[], keywords=[], lineno=macronode.lineno, col_offset=0)'),
('C25','coreutils.py',"    return isinstance(tree, ast.ImportFrom) and tree.module == '__future__'","    return isinstance(tree, ast.ImportFrom) and tree.module == '__future__' and len(tree.names) == 1"),
('C25','coreutils.py','    while k < len(body) and isfutureimport(body[k]):','    while k < len(body) - 1 and isfutureimport(body[k]):'),
('C25','coreutils.py','    return docstring + futureimports + stmts + body','    return (docstring + futureimports + stmts + body) if futureimports else (stmts + docstring + body)'),
('C25','multiphase.py','            if isfutureimport(stmt):\n                thisphase.append(stmt)\n            remaining.append(stmt)','            if isfutureimport(stmt):\n                thisphase.append(stmt)\n            else:\n                remaining.append(stmt)'),
('C25','multiphase.py','                phase_k_tree.body = inject_after_futureimports(assignment, phase_k_tree.body)','                phase_k_tree.body = inject_after_futureimports(assignment, phase_k_tree.body) if k else [assignment] + phase_k_tree.body'),
('C25','multiphase.py','            if isfutureimport(stmt):\n                thisphase.append(stmt)','            if isfutureimport(stmt) and not thisphase:\n                thisphase.append(stmt)'),
('C26','multiphase.py','        if maxn is None or (n is not None and n > maxn):\n            maxn = n','        if n:\n            maxn = n'),
('C26','multiphase.py','            if phase_k_tree.body:','            if k == 0 or any(iswithphase(s, filename=filename) for s in phase_k_tree.body) or len(phase_k_tree.body) > 1:'),
('C26','multiphase.py','    if not isinstance(n, int) or n < 1:','    if not isinstance(n, (int, float)) or n < 1:'),
('C26','multiphase.py','        for k in range(n, -1, -1):','        for k in [*sorted({iswithphase(s, filename=filename) or 0 for s in tree.body} - {0}, reverse=True), 0]:'),
('C26','multiphase.py','            remaining.extend(deepcopy(withphase.body))','            remaining[:0] = deepcopy(withphase.body)'),
('C26','multiphase.py','                val = ast.Constant(value=k, lineno=1, col_offset=13)','                val = ast.Constant(value=n - k, lineno=1, col_offset=13)'),
('C26','multiphase.py','            if phase_k_tree.body:','            if len(phase_k_tree.body) > 1:'),
('C26','multiphase.py','            if phase_k_tree.body:','            if not all(isfutureimport(s) for s in phase_k_tree.body):'),
('C26','multiphase.py','            if phase_k_tree.body:','            if k == 0 or phase_k_tree.body[1:]:'),
('C26','multiphase.py','    if not isinstance(n, int) or n < 1:','    if not isinstance(n, int) or n < 0:'),
('C08','core.py','        kw = kw or {}\n        kw.update({','        kw = kw or {}\n        kw = dict({'),
('C26','multiphase.py','            remaining.append(deepcopy(withphase))','            remaining.append(copy(withphase))'),
('C09','expander.py','            for decorator in others:\n                self.visit(decorator)','            self.visit(others[-1:])'),
('C09','expander.py','                if k in ("decorator_list", "name", "type_comment"):',"                if k != 'body' and k != 'args' and k != 'bases':"),
('C22','splicing.py','                # We get just the top level of body by not recursing.\n                return tree','                return self.generic_visit(tree)'),
('C23','dialects.py','            if result is NotImplemented:\n                continue  # no step taken; proceed to next dialect','            if result is NotImplemented:\n                break'),
('C23','dialects.py','                if result is NotImplemented:\n                    continue  # no step taken; proceed to next binding','                if result is NotImplemented:\n                    break'),
('C20','coreutils.py','return -len(root_path.parts), str(root_path)','return len(root_path.parts), str(root_path)'),
('C20','coreutils.py','return -len(root_path.parts), str(root_path)','return str(root_path)'),
('C20','coreutils.py','return -len(root_path.parts), str(root_path)','return -len(root_path.name), str(root_path)'),
('C20','coreutils.py','        if root_path == path or root_path in path.parents:','        if root_path == path or root_path in list(path.parents)[:3]:'),
('C20','coreutils.py','for s in sys.path), key=sortkey)','for s in sys.path if s), key=sortkey)'),
('C20','coreutils.py','pathlib.Path(s).expanduser().resolve() for s in sys.path','pathlib.Path(s).expanduser().absolute() for s in sys.path'),
('C20','coreutils.py','for s in sys.path), key=sortkey)','for s in sys.path if s != ""), key=sortkey)'),
('C27','compiler.py','        expansion = multiphase.multiphase_expand(tree, filename=filename, self_module=self_module, dexpander=dexpander, _optimize=optimize)','        expansion = multiphase.multiphase_expand(tree, filename=filename, self_module=self_module, dexpander=dexpander)'),
('C27','compiler.py',"            tree = ast.parse(text, filename=filename, mode='exec')",'            tree = ast.parse(text)'),
('C27','compiler.py',"    if not (filename and filename.endswith('.py')):","    if not filename or filename.startswith('<'):"),
('C27','compiler.py','        code, docstring = _compile(source, filename=filename, self_module=self_module, optimize=optimize)','        code, docstring = _compile(source, filename=filename, self_module=self_module, optimize=max(optimize, 0))'),
('C27','compiler.py','    self_module = module.__name__',"    self_module = module.__name__.rpartition('.')[2]"),
('C27','importer.py','    return compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)','    return compiler.compile(data, filename=path, optimize=_optimize or -1, self_module=self.name)'),
('C27','multiphase.py','    module = compiler.create_module(dotted_name=self_module, filename=filename, update_parent=False)','    module = compiler.create_module(dotted_name=self_module, update_parent=False)'),
('C27','expander.py','            module_absname, more_bindings = get_macros(statement, filename=filename, reload=reload, self_module=self_module)',"            module_absname, more_bindings = get_macros(statement, filename=filename, reload=reload, self_module=self_module if statement.module == '__self__' and not statement.level else None)"),
('C27','dialects.py','        module_absname, bindings = get_macros(dialectimport, filename=self.filename, reload=False, allow_asname=False)',"        module_absname, bindings = get_macros(dialectimport, filename='<dialect>', reload=False, allow_asname=False)"),
('C28','compiler.py','        module.__doc__ = None\n','        pass\n'),
('C28','compiler.py','        module.__doc__ = docstring\n    exec','        if docstring:\n            module.__doc__ = docstring\n    exec'),
('C28','compiler.py','    exec(code, module.__dict__)','    exec(code, dict(module.__dict__))'),
('C28','compiler.py','    exec(code, module.__dict__)','    exec(code, module.__dict__, {})'),
('C28','compiler.py','            module = sys.modules[dotted_name]\n        except KeyError:','            module = sys.modules.get(dotted_name) or create_module(dotted_name)\n        except KeyError:'),
('C28','compiler.py','        module.__package__ = packagename\n        if update_parent:\n            setattr(package, finalcomponent, module)\n    sys.modules[dotted_name] = module','        module.__package__ = packagename\n        if update_parent and not hasattr(package, finalcomponent):\n            setattr(package, finalcomponent, module)\n    sys.modules[dotted_name] = module'),
('C28','compiler.py','        if not all((component.isidentifier() for component in path)):','        if not path[-1].isidentifier():'),
('C28','compiler.py','        if not package:\n            raise ModuleNotFoundError','        if package is False:\n            raise ModuleNotFoundError'),
('C28','utils.py','            return docstring_node.value if isinstance(docstring_node.value, str) else None','            return docstring_node.value.strip() if isinstance(docstring_node.value, str) else None'),
('C28','compiler.py','    sys.modules[dotted_name] = module\n    return module','    return sys.modules.setdefault(dotted_name, module)'),
('C28','compiler.py',"        packagename, finalcomponent = dotted_name.rsplit('.', maxsplit=1)\n        package = sys.modules.get(packagename, None)\n        if not package:","        packagename, finalcomponent = dotted_name.split('.', maxsplit=1)\n        package = sys.modules.get(packagename, None)\n        if not package:"),
('C29','repl/console.py','        self.runcode(code)\n        self._refresh_macro_functions()\n        return False','        self._refresh_macro_functions()\n        self.runcode(code)\n        return False'),
('C29','repl/console.py','reload=True, self_module','reload=not self.expander.bindings, self_module'),
('C29','repl/console.py','        except (OverflowError, SyntaxError, ValueError, MacroExpansionError):\n            self.showsyntaxerror(filename)\n            return False','        except (OverflowError, SyntaxError, ValueError, MacroExpansionError):\n            self.expander.bindings.clear()\n            self.showsyntaxerror(filename)\n            return False'),
('C29','repl/iconsole.py','            if not function.__module__:\n                continue','            if not function.__module__ or asname in self.shell.user_ns:\n                continue'),
('C29','repl/iconsole.py','        except Exception as err:\n            raise InputRejected(*err.args)','        except SyntaxError as err:\n            raise InputRejected(*err.args)'),
('C29','repl/console.py','            sys.modules[_magic_module_name].__dict__.update(self.magic_module_metadata)\n',''),
('C29','repl/console.py','            sys.modules[_magic_module_name].__dict__.update(self.locals)\n            sys.modules[_magic_module_name].__dict__.update(self.magic_module_metadata)','            sys.modules[_magic_module_name].__dict__.update(self.magic_module_metadata)\n            sys.modules[_magic_module_name].__dict__.update(self.locals)'),
('C29','repl/console.py','            self.locals[asname] = function','            self.locals.setdefault(asname, function)'),
('C29','repl/console.py','            self.locals[asname] = function','            self.locals[function.__name__] = function'),
('C29','repl/console.py','        except Exception:\n            self.showtraceback()\n            return False\n','        except Exception:\n            raise\n'),
('C29','repl/utils.py','__macro_expander__.bindings[function.__name__] = function','__macro_expander__.local_bindings.setdefault(function.__name__, function)'),
('C29','repl/iconsole.py','            bindings = find_macros(tree, filename=self.expander.filename, reload=True, self_module=_magic_module_name)','            bindings = find_macros(tree, filename=self.expander.filename, self_module=_magic_module_name)'),
('C30','repl/macropython.py',"            sys.modules['__main__'] = original_main\n            if isinstance",'            if isinstance'),
('C30','repl/macropython.py',"        except Exception as err:\n            sys.modules['__main__'] = original_main","        except MacroApplicationError as err:\n            sys.modules['__main__'] = original_main"),
('C30','repl/macropython.py','        if sys.path[0] != containing_directory:\n            sys.path.insert(0, containing_directory)','        if containing_directory not in sys.path:\n            sys.path.insert(0, containing_directory)'),
('C30','repl/macropython.py','        if sys.path[0] != containing_directory:\n            sys.path.insert(0, containing_directory)','        if sys.path[0] != containing_directory:\n            sys.path.append(containing_directory)'),
('C30','repl/macropython.py',"    if spec.loader:\n        spec.loader.name = '__main__'\n",''),
('C30','repl/macropython.py','        module.__package__ = parent_name','        module.__package__ = absolute_name'),
('C30','repl/macropython.py','            module_name = module_name[:-12]','            module_name = module_name[:-11]'),
('C30','repl/macropython.py','        root_path, relative_path = relativize(opts.filename)','        root_path, relative_path = relativize(fullpath.name)'),
('C30','repl/macropython.py',"            import_module(f'{absolute_name}.__main__')","            import_module_as_main(f'{absolute_name}.__main__', script_mode=False)"),
('C30','repl/macropython.py','            sys.path.insert(1, str(local_pypackages_dir))\n        root_path','            sys.path.insert(0, str(local_pypackages_dir))\n        root_path'),
('C14','utils.py','if tree.id == oldname:','if tree.id == oldname and not isinstance(tree.ctx, ast.Del):'),
('C14','utils.py','if tree.id == oldname:\n                    tree.id = newname',"if tree.id == oldname or tree.id.startswith(oldname + '.'):\n                    tree.id = newname"),
('C14','utils.py','                if tree.attr == oldname:\n                    tree.attr = newname','                if tree.attr == oldname:\n                    tree.attr = newname\n                    return tree'),
('C14','utils.py','                if tree.name == oldname:\n                    tree.name = newname\n                if tree.asname == oldname:','                if tree.name == oldname:\n                    tree.name = newname\n                elif tree.asname == oldname:'),
('C14','utils.py','                if tree.name == oldname:\n                    tree.name = newname\n                if tree.asname == oldname:','                if tree.name == oldname and tree.asname is None:\n                    tree.name = newname\n                if tree.asname == oldname:'),
('C14','utils.py','for j in range(len(tree.names)):','for j in range(min(1, len(tree.names))):'),
('C14','utils.py','                    if tree.names[j] == oldname:\n                        tree.names[j] = newname','                    if tree.names[j] == oldname:\n                        tree.names[j] = newname\n                        break'),
('C14','utils.py','                for j in range(len(tree.kwd_attrs)):','                for j in range(len(tree.kwd_patterns) - 1):'),
('C14','utils.py','            elif T is ast.ImportFrom:\n                if tree.module == oldname:','            elif T is ast.ImportFrom:\n                if tree.module == oldname and not tree.level:'),
('C14','utils.py','if tree.rest == oldname:','if tree.rest == oldname and tree.keys:'),
('C14','utils.py','elif T in (MatchAs, MatchStar):\n                if tree.name == oldname:',"elif T in (MatchAs, MatchStar):\n                if tree.name == oldname and getattr(tree, 'pattern', None) is None:"),
('C14','utils.py','            T = type(tree)\n            if T is ast.Name:','            T = type(tree)\n            if T is ast.Lambda and any(a.arg == oldname for a in tree.args.args):\n                return tree\n            if T is ast.Name:'),
('C14','utils.py','            T = type(tree)\n            if T is ast.Name:','            T = type(tree)\n            if T is ast.Constant and tree.value == oldname:\n                tree.value = newname\n            elif T is ast.Name:'),
('C14','utils.py','            return self.generic_visit(tree)','            self.generic_visit(tree)\n            if T is ast.Expr and type(tree.value) is ast.Name:\n                return ast.Expr(value=tree.value)\n            return tree'),
('C14','utils.py','            elif T is ast.ExceptHandler:\n                if tree.name == oldname:','            elif T is ast.ExceptHandler:\n                if tree.type is not None and type(tree.type) is ast.Name and tree.name == oldname:'),
('C14','utils.py','    return Renamer().visit(tree)','    if oldname == newname or not newname.isidentifier():\n        return tree\n    return Renamer().visit(tree)'),
('C14','utils.py','elif T in (TypeVar, ParamSpec, TypeVarTuple):','elif T in (TypeVar, ParamSpec):'),
('C14','utils.py','            elif T is ast.keyword:\n                if tree.arg == oldname:',"            elif T is ast.keyword:\n                if tree.arg == oldname and self.state.get('x', True) if hasattr(self, 'state') else False:"),
('C15','quotes.py',"    if syntax not in ('expr', 'block'):\n        raise ValueError","    if syntax not in ('expr', 'stmt'):\n        raise ValueError"),
('C15','quotes.py','[x.body, ast.Constant(value=x.filename)]','[ast.Constant(value=x.filename), x.body]'),
('C15','quotes.py','[x.body, ast.Constant(value=x.syntax)]','[x.body]'),
('C15','quotes.py','elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):','elif T in (int, float, complex, str, bytes, bool, type(None)):'),
('C15','quotes.py',"            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x)]\n            node = ast.Call(ast.Attribute(value=_mcpyrate_quotes_attr('ast'), attr=x.__class__.__name__), [], fields)","            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x) if b]\n            node = ast.Call(ast.Attribute(value=_mcpyrate_quotes_attr('ast'), attr=x.__class__.__name__), [], fields)"),
('C15','quotes.py',"            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x)]\n            node = ast.Call(ast.Attribute(value=_mcpyrate_quotes_attr('ast'), attr=x.__class__.__name__), [], fields)","            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x) if a not in ('type_comment', 'ctx')]\n            node = ast.Call(ast.Attribute(value=_mcpyrate_quotes_attr('ast'), attr=x.__class__.__name__), [], fields)"),
('C15','quotes.py','attr=x.__class__.__name__','attr=x.__class__.__qualname__.lower()'),
('C15','quotes.py','return ast.Tuple(elts=list((recurse(elt) for elt in x)))','return ast.List(elts=list((recurse(elt) for elt in x)))'),
('C15','quotes.py','keys=list((recurse(k) for k in x.keys()))','keys=list((recurse(k) for k in sorted(x.keys())))'),
('C15','quotes.py','name_node, frozen_value_node = key_node.elts','frozen_value_node, name_node = key_node.elts'),
('C15','quotes.py',"    if callee.attr == 'capture_value':\n        name_node = tree.args[1]","    if callee.attr == 'capture_value':\n        name_node = tree.args[0]"),
('C15','quotes.py','return (name_node.value, None)','return (None, name_node.value)'),
('C15','quotes.py',"callee.attr == 'lookup_macro'","callee.attr == 'capture_macro'"),
('C15','quotes.py',"callee.attr in ('capture_value', 'lookup_value')","callee.attr in ('capture_value',)"),
('C15','quotes.py',"moduleref.args[0].value == 'mcpyrate.quotes'","moduleref.args[0].value == 'mcpyrate'"),
('C15','quotes.py',"if not (type(tree) is ast.Attribute and tree.attr == 'quotes'):","if not (type(tree) is ast.Attribute and tree.attr == 'core'):"),
('C15','quotes.py',"elif dotted_name == 'mcpyrate.quotes.ast_tuple':","elif dotted_name == 'mcpyrate.quotes.ast_tup':"),
('C15','quotes.py','            return Unquote(body)','            return Unquote(unastify(body))'),
('C15','quotes.py','            return Capture(uniquename_node, name)','            return Capture(uniquename_node, unique_name)'),
('C15','quotes.py','return {unastify(k): unastify(v) for k, v in zip(tree.keys, tree.values)}','return {unastify(v): unastify(k) for k, v in zip(tree.keys, tree.values)}'),
('C15','quotes.py','        return tuple((unastify(elt) for elt in tree.elts))','        return [unastify(elt) for elt in tree.elts]'),
('C15','quotes.py','            return unastify(body)','            return body'),
('C15','quotes.py','                if isinstance(item, SpliceNodes):\n                    doit(item.body)\n                    newthing.extend(item.body)','                if isinstance(item, SpliceNodes):\n                    newthing.extend(item.body)'),
('C15','quotes.py','                if isinstance(item, SpliceNodes):\n                    doit(item.body)\n                    newthing.extend(item.body)','                if isinstance(item, SpliceNodes):\n                    doit(item.body)\n                    newthing.append(item.body)'),
('C15','quotes.py','            thing[:] = newthing','            thing = newthing'),
('C15','quotes.py','                if isinstance(value, (list, ast.AST)):\n                    doit(value)','                if isinstance(value, list):\n                    doit(value)'),
('C15','quotes.py','        elif T is Done:\n            fields = [ast.keyword(a, recurse(b)) for a, b in ast.iter_fields(x)]\n',"        elif T is Done:\n            fields = [ast.keyword('body', x.body)]\n"),
('C15','quotes.py','    return ast.parse(value, filename=f"<invocation of n[] in \'{filename}\'>", mode=\'eval\').body','    return ast.parse(value.strip() or \'None\', filename=f"<invocation of n[] in \'{filename}\'>", mode=\'eval\')'),
('C15','quotes.py','                function = expander.isbound(x.body.id)','                function = expander.isbound(x.name)'),
('C15','quotes.py','            return Capture(body, name)','            return Capture(name, body)'),
('C15','quotes.py',"        elif dotted_name == 'mcpyrate.quotes.ast_list':\n            body = tree.args[0]\n            return ASTList(body)","        elif dotted_name == 'mcpyrate.quotes.ast_list':\n            body = tree.args[0]\n            return ASTTuple(body)"),
('C15','quotes.py','        elif T is Done:\n            fields = [','        elif T is Done and x.body:\n            fields = ['),
('C15','quotes.py','    return ast.List(elts=lst)\n\ndef ast_tuple','    return ast.Tuple(elts=lst)\n\ndef ast_tuple'),
('C15','quotes.py','    return (name_node.value, unique_name_node.value, frozen_macro_node.value)','    return (unique_name_node.value, name_node.value, frozen_macro_node.value)'),
('C15','quotes.py','    name, frozen_value = key\n','    frozen_value, name = key\n'),
('C15','quotes.py','    name, unique_name, frozen_macro = key\n','    unique_name, name, frozen_macro = key\n'),
('C15','quotes.py','        name, unique_name, frozen_macro = [elt.value for elt in key.elts]','        unique_name, name, frozen_macro = [elt.value for elt in key.elts]'),
('C15','quotes.py','T is list:\n            return ast.List(elts=list((recurse(elt) for elt in x)))','T is list:\n            return ast.List(elts=list((recurse(elt) for elt in x if elt is not None)))'),
('C15','quotes.py','        return [unastify(elt) for elt in tree.elts]\n','        return [unastify(elt) for elt in tree.elts if elt]\n'),
('C15','quotes.py','        return [unastify(elt) for elt in tree]\n','        return [unastify(elt) for elt in tree[1:]]\n'),
('C15','quotes.py','        return (tree.arg, unastify(tree.value))','        return (tree.arg, tree.value)'),
('C15','quotes.py',"        _typecheck(tree, ast.expr, '`a` (expr mode)')\n            return tree","        _typecheck(tree, ast.expr, '`a` (expr mode)')\n            return SpliceNodes([tree])"),
('C15','quotes.py',"        tree = ast.Call(_mcpyrate_quotes_attr('splice_ast_literals'), [tree, ast.Constant(value=expander.filename)], [])","        tree = ast.Call(_mcpyrate_quotes_attr('splice_ast_literals'), [tree], [])"),
('C15','quotes.py','[ast.Tuple(elts=[ast.Constant(value=name), ast.Constant(value=frozen_value)])], [])','[ast.Constant(value=name), ast.Constant(value=frozen_value)], [])'),
('C15','quotes.py','ast.Constant(value=gensym(name)), ast.Constant(value=frozen_macro)','ast.Constant(value=frozen_macro), ast.Constant(value=gensym(name))'),
('C15','quotes.py',"moduleref.id == 'mcpyrate'","moduleref.id == 'mcpyrate.quotes'"),
('C16','quotes.py',"    if syntax != 'expr':\n        raise SyntaxError('`u`","    if syntax not in ('expr', 'name'):\n        raise SyntaxError('`u`"),
('C16','quotes.py',"    if syntax == 'block' and kw['optional_vars'] is not None:","    if syntax == 'block' and kw['optional_vars'] is None:"),
('C16','quotes.py','        if _quotelevel.value > 0:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        return ASTTuple(tree)','        if _quotelevel.value > 1:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        return ASTTuple(tree)'),
('C16','quotes.py','        if _quotelevel.value > 1:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        tree = delete_markers(tree, cls=QuasiquoteSearchDone)','        tree = delete_markers(tree, cls=QuasiquoteSearchDone)\n        if _quotelevel.value > 1:\n            return _replace_tree_in_macro_invocation(invocation, tree)'),
('C16','quotes.py','    new_invocation = copy.copy(invocation)\n','    new_invocation = invocation\n'),
('C16','quotes.py','    elif type(new_invocation) is ast.With:\n        new_invocation.body = newtree','    elif type(new_invocation) is ast.With:\n        new_invocation.body[:] = newtree'),
('C16','quotes.py','    elif type(new_invocation) is ast.With:\n        new_invocation.body = newtree','    elif type(new_invocation) is ast.With:\n        new_invocation.body = newtree[:1]'),
('C16','utils.py','        return self.set_to(self.value + delta)','        return self.set_to(max(0, self.value + delta))'),
('C16','utils.py','            try:\n                yield\n            finally:\n                self.stack.pop()\n                assert self.stack','            yield\n            self.stack.pop()'),
('C16','utils.py','            self.stack.append(value)\n            try:','            self.stack[-1:] = [value]\n            try:'),
('C16','utils.py','        return self.stack[-1]','        return len(self.stack) - 1'),
('C16','utils.py','        return self.stack[-1]','        return max(self.stack)'),
('C16','utils.py','                self.stack.pop()\n','                self.stack.pop(0)\n'),
('C16','quotes.py','bindings = extract_bindings(expander.bindings, q, u, n, a, s, t, h)','bindings = extract_bindings(expander.bindings, q, u, n, a, s, h)'),
('C16','quotes.py','return MacroExpander(bindings, expander.filename).visit(tree)','return MacroExpander(bindings, expander.filename).visit_once(tree)'),
('C16','quotes.py','    with _quotelevel.changed_by(+1):\n        tree = _expand_quasiquotes(tree, expander)\n','    tree = _expand_quasiquotes(tree, expander)\n    with _quotelevel.changed_by(+1):\n'),
('C16','quotes.py','            if type(target) is not ast.Name:','            if type(target) not in (ast.Name, ast.Tuple):'),
('C16','quotes.py','            if type(target) is not ast.Name:','            if isinstance(target, ast.List):'),
('C16','quotes.py','        expand = True\n        if type(tree) is ast.Name:','        expand = _quotelevel.value == 0\n        if type(tree) is ast.Name:'),
('C16','quotes.py','            if function and isnamemacro(function):\n                expand = False','            if function:\n                expand = False'),
('C16','quotes.py','            if type(stmt) is not ast.Expr:','            if not isinstance(stmt, (ast.Expr, ast.Assign)):'),
('C16','quotes.py','            if type(stmt) is not ast.Expr:','            if isinstance(stmt, ast.Assign):'),
('C16','utils.py','def extract_bindings(bindings, *functions, global_only=False):\n    functions = set(functions)\n    return {name: function for name, function in bindings.items() if function in functions}','def extract_bindings(bindings, *functions, global_only=False):\n    names = {f.__name__ for f in functions}\n    return {name: function for name, function in bindings.items() if name in names}'),
('C17','quotes.py','    cachekey = (name, id(frozen_value))','    cachekey = (name, hash(frozen_value))'),
('C17','quotes.py','_lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))\n    return _lookup_cache[cachekey][1]','_lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))\n    return _lookup_cache.pop(cachekey)[1]'),
('C17','quotes.py','    if unique_name not in global_bindings:','    if name not in global_bindings:'),
('C17','quotes.py','        global_bindings[unique_name] = pickle.loads(frozen_macro)\n    return ast.Name(id=unique_name)','        global_bindings[unique_name] = pickle.loads(frozen_macro)\n    return ast.Name(id=name)'),
('C17','quotes.py','ast.Constant(value=gensym(name)), ast.Constant(value=frozen_macro)','ast.Constant(value=name), ast.Constant(value=frozen_macro)'),
('C17','quotes.py','    frozen_value = pickle.dumps(value)\n','    frozen_value = pickle.dumps(str(value) if isinstance(value, type) else value)\n'),
('C17','quotes.py','    if cachekey not in _lookup_cache:\n','    if len(_lookup_cache) > 1000:\n        _lookup_cache.clear()\n    if cachekey not in _lookup_cache:\n'),
('C18','utils.py',"        unique = str(uuid.uuid4()).replace('-', '')","        unique = str(uuid.uuid4()).split('-')[0]"),
('C18','utils.py',"        unique = str(uuid.uuid4()).replace('-', '')",'        unique = str(uuid.uuid4())'),
('C18','utils.py',"        unique = str(uuid.uuid4()).replace('-', '')",'        unique = uuid.uuid5(uuid.NAMESPACE_DNS, basename).hex'),
('C18','utils.py','    _previous_gensyms.add(sym)\n    return sym','    return sym'),
('C18','utils.py','    while sym in _previous_gensyms:\n        sym = generate()','    if sym in _previous_gensyms:\n        sym = generate()'),
('C18','utils.py',"        basename = basename + '_'","        basename = basename + '.'"),
('C18','utils.py',"    if basename is None:\n        basename = 'gensym_'","    if basename is None:\n        basename = ''"),
('C18','utils.py',"        return f'{basename}{unique}'","        return f'{unique}{basename}'"),
('C18','utils.py',"        return f'{basename}{unique}'","        return f'{basename}{unique}'.lower()"),
('C18','utils.py',"        return f'{basename}{unique}'","        return f'{basename}{unique}'[:32]"),
('C18','utils.py','    sym = generate()\n    while sym in',"    sym = basename if basename and basename.startswith('_') else generate()\n    while sym in"),
('C15','quotes.py','name_node, frozen_value_node = key_node.elts','frozen_value_node, name_node = key_node.elts'),
('C15','quotes.py','    name_node, unique_name_node, frozen_macro_node = key_node.elts','    unique_name_node, name_node, frozen_macro_node = key_node.elts'),
('C15','quotes.py','    name_node, unique_name_node, frozen_macro_node = key_node.elts\n','    frozen_macro_node, unique_name_node, name_node = key_node.elts[::-1]\n    name_node, unique_name_node = unique_name_node, name_node\n'),
('C12','unparser.py',"        if hasattr(t, 'kind') and t.kind == 'u':","        if hasattr(t, 'kind') and t.kind == 'b':"),
('C13','unparser.py',"            if repr(t.value).startswith('-'):",'            if t.value < 0:'),
('C13','unparser.py','        if type(t.value) in (int, float, complex):','        if type(t.value) in (int, float):'),
('C13','unparser.py',"v = repr(t.value).replace('inf', INFSTR)",'v = repr(t.value)'),
('C13','unparser.py','            elif type(t.value) in (str, bytes):','            elif type(t.value) is str:'),
('C13','unparser.py',"INFSTR = '1e' + repr(sys.float_info.max_10_exp + 1)","INFSTR = '1e' + repr(sys.float_info.max_10_exp)"),
('C12','unparser.py','                for item in v:\n                    self.dispatch(item)','                for item in v[1:]:\n                    self.dispatch(item)'),
('C12','unparser.py','        if isinstance(tree, list):\n            for elt in tree:\n                self.dispatch(elt)','        if isinstance(tree, list):\n            for elt in tree[:-1]:\n                self.dispatch(elt)'),
('C12','unparser.py',"        else:\n            self.dispatch(tree)\n        print('', file=self.f)","        elif not isinstance(tree, ast.mod):\n            self.dispatch(tree)\n        print('', file=self.f)"),
('C12','unparser.py','            code = output.getvalue().strip()',"            code = output.getvalue().strip().split('\\n\\n')[0]"),
('C12','unparser.py','    try:\n        f(next(seq))\n    except StopIteration:\n        pass','    try:\n        f(next(seq))\n    except Exception:\n        pass'),
('C12','unparser.py','        for x in seq:\n            inter()\n            f(x)','        for x in seq:\n            inter()\n            f(x)\n            break'),
('C13','unparser.py','        for x in seq:\n            inter()\n            f(x)','        for x in seq:\n            f(x)\n            inter()'),
('C12','unparser.py','        if t.module:\n            self.write(t.module)','        if t.module and not t.level:\n            self.write(t.module)'),
('C12','unparser.py',"self.write('.' * (t.level or 0))","self.write('.' if t.level else '')"),
('C12','unparser.py','        if not t.exc:\n            assert not t.cause','        if not t.exc or not t.cause:\n            assert not t.cause'),
('C13','unparser.py','        self._except_handler_mode_stack.append(mode)\n        try:','        self._except_handler_mode_stack.insert(0, mode)\n        try:'),
('C13','unparser.py','mode = self._except_handler_mode_stack[-1] if','mode = self._except_handler_mode_stack[0] if'),
('C13','unparser.py','        finally:\n            self._except_handler_mode_stack.pop()\n        if t.orelse:','        finally:\n            pass\n        if t.orelse:'),
('C13','unparser.py','        while t.orelse and len(t.orelse) == 1 and isinstance(t.orelse[0], ast.If):','        while t.orelse and isinstance(t.orelse[0], ast.If):'),
('C13','unparser.py','        while t.orelse and len(t.orelse) == 1 and isinstance(t.orelse[0], ast.If):','        if t.orelse and len(t.orelse) == 1 and isinstance(t.orelse[0], ast.If):'),
('C13','unparser.py',"        if len(t.elts) == 1:\n            elt, = t.elts\n            self.dispatch(elt)\n            self.write(',')","        if len(t.elts) == 1 and not isinstance(t.elts[0], ast.Starred):\n            elt, = t.elts\n            self.dispatch(elt)\n            self.write(',')"),
('C13','unparser.py',"            if o.__class__.__name__ in ('Is', 'IsNot', 'In', 'NotIn'):\n                self.write(' ' +","            if o.__class__.__name__ in ('Is', 'IsNot', 'In', 'NotIn'):\n                self.write('' +"),
('C13','unparser.py','isinstance(v, ast.Constant) and isinstance(v.value, int)','isinstance(v, ast.Constant) and isinstance(v.value, float)'),
('C13','unparser.py','        while isinstance(leftmost, (ast.Attribute, ast.Call, ast.Subscript)):','        while isinstance(leftmost, (ast.Attribute, ast.Call)):'),
('C13','unparser.py','        if isinstance(leftmost, (ast.Dict, ast.DictComp, ast.Set, ast.SetComp)):','        if isinstance(leftmost, (ast.Dict, ast.Set)):'),
('C13','unparser.py',"            return s.replace('{', '{{').replace('}', '}}')","            return s.replace('{', '{{')"),
('C13','unparser.py','            if type(v) is ast.Constant:\n                self.write(self.maybe_colorize(escape(v.value), ColorScheme.STRING))','            if type(v) is ast.Constant:\n                self.write(self.maybe_colorize(v.value, ColorScheme.STRING))'),
('C13','unparser.py',"        if t.step:\n            self.write(':')\n            self.dispatch(t.step)","        if t.step and t.upper:\n            self.write(':')\n            self.dispatch(t.step)"),
('C12','unparser.py','        if t.upper:\n            self.dispatch(t.upper)\n','        if t.upper and (t.lower or not t.step):\n            self.dispatch(t.upper)\n'),
('C13','unparser.py','        defaults = [None] * (nposargs - len(t.defaults)) + t.defaults','        defaults = t.defaults + [None] * (nposargs - len(t.defaults))'),
('C13','unparser.py',"            if not first:\n                self.write(', /')","            if nposonlyargs > 1:\n                self.write(', /')"),
('C13','unparser.py',"        if t.arg is None:\n            self.write('**')","        if not t.arg or t.arg == 'kwargs':\n            self.write('**')"),
('C13','unparser.py',"        if t.guard is not None and type(t.pattern) is ast.MatchOr:\n            self.write('(')","        if t.guard is not None and type(t.pattern) is ast.MatchAs:\n            self.write('(')"),
('C13','unparser.py','        needs_parens = type(t) is ast.MatchOr or (type(t) is ast.MatchAs and t.pattern is not None)','        needs_parens = type(t) is ast.MatchOr'),
('C13','unparser.py',"        if not t.simple:\n            self.write('(')","        if not t.simple and isinstance(t.target, ast.Attribute):\n            self.write('(')"),
('C13','unparser.py',"        if not t.simple:\n            self.write('(')\n        self.dispatch(t.target)\n        if not t.simple:\n            self.write(')')",'        self.dispatch(t.target)'),
('C12','unparser.py','zip(t.keys, t.values))','zip([k for k in t.keys if k], t.values))'),
('C13','unparser.py',"self.write('    ' * self._indent + text)","self.write('    ' * min(self._indent, 20) + text)"),
('C13','unparser.py',"        self.write(':')\n        self._indent += 1","        self.write(':')\n        self._indent = self._indent + 1 if self._indent else 1"),
('C12','unparser.py','            self.dispatch(t.body)\n            self.leave()\n        else:\n            self.dispatch(t.body)','            self.dispatch(t.body)\n            self.leave()\n        else:\n            self.dispatch(t.body[:])'),
('C12','unparser.py',"        methodname = '_' + tree.__class__.__name__","        methodname = '_' + type(tree).__mro__[1].__name__"),
('C13','unparser.py',"            t = t.orelse[0]\n            self.fill(self.maybe_colorize_python_keyword('elif ')","            t = t.orelse[-1]\n            self.fill(self.maybe_colorize_python_keyword('else if ')"),
('C13','unparser.py','        if t.is_async:\n','        if t.is_async and not t.ifs:\n'),
('C13','unparser.py',"                if d:\n                    self.write('=')\n                    self.dispatch(d)\n\n        def maybe","                if d and not a.annotation:\n                    self.write('=')\n                    self.dispatch(d)\n\n        def maybe"),
('C12','unparser.py',"                if hasattr(t.vararg, 'annotation') and t.vararg.annotation:","                if hasattr(t.kwarg, 'annotation') and t.vararg.annotation:"),
('C12','unparser.py','        if t.name is None:\n            assert t.pattern is None',"        if not t.name or t.name == '_':\n            assert t.pattern is None"),
('C13','unparser.py',"'RShift': '>>'","'RShift': '<<'"),
('C13','unparser.py',"    boolops = {ast.And: 'and', ast.Or: 'or'}","    boolops = {ast.And: 'and', ast.Or: '|'}"),
('C13','unparser.py',"        if hasattr(t, 'kind') and t.kind == 'u':","        if hasattr(t, 'kind') and t.kind == 'b':"),
('C12','unparser.py',"            if repr(t.value).startswith('-'):",'            if t.value < 0:'),
('C12','unparser.py','        for item in v:\n                    self.dispatch(item)','        for item in v[:1]:\n                    self.dispatch(item)'),
('C13','unparser.py','        if isinstance(tree, list):\n            for elt in tree:\n                self.dispatch(elt)','        if isinstance(tree, list):\n            for elt in tree[:-1]:\n                self.dispatch(elt)'),
('C13','unparser.py',"        else:\n            self.dispatch(tree)\n        print('', file=self.f)","        elif not isinstance(tree, ast.mod):\n            self.dispatch(tree)\n        print('', file=self.f)"),
('C13','unparser.py','            code = output.getvalue().strip()',"            code = output.getvalue().strip().split('\\n\\n')[0]"),
('C13','unparser.py','    try:\n        f(next(seq))\n    except StopIteration:\n        pass','    try:\n        f(next(seq))\n    except Exception:\n        pass'),
('C13','unparser.py',"self.write('.' * (t.level or 0))","self.write('.' if t.level else '')"),
('C13','unparser.py',"        if t.bases or t.keywords:\n            self.write('(')\n        comma = False","        if t.bases:\n            self.write('(')\n        comma = False"),
('C12','unparser.py','        while isinstance(leftmost, (ast.Attribute, ast.Call, ast.Subscript)):','        while isinstance(leftmost, (ast.Attribute, ast.Call)):'),
('C13','unparser.py','        if t.vararg or t.kwonlyargs:\n','        if t.vararg or len(t.kwonlyargs) > 1:\n'),
('C12','unparser.py',"self.write('    ' * self._indent + text)","self.write('    ' * min(self._indent, 20) + text)"),
('C13','unparser.py','            self.dispatch(t.body)\n            self.leave()\n        else:\n            self.dispatch(t.body)','            self.dispatch(t.body)\n            self.leave()\n        else:\n            self.dispatch(t.body[:])'),
('C12','unparser.py',"                if d:\n                    self.write('=')\n                    self.dispatch(d)\n\n        def maybe","                if d and not a.annotation:\n                    self.write('=')\n                    self.dispatch(d)\n\n        def maybe"),
('C19','coreutils.py','bindings[name.asname or name.name] = macro','bindings.setdefault(name.asname or name.name, macro)'),
('C19','coreutils.py','for name in macroimport.names[1:]:',"for name in [n for n in macroimport.names if n.name != 'macros']:"),
('C19','coreutils.py','        if reload:\n            module = importlib.reload(module)','        if reload:\n            importlib.invalidate_caches()\n            module = sys.modules[module_absname]'),
('C19','coreutils.py','        if reload:\n            module = importlib.reload(module)',"        if reload and hasattr(module, '__file__'):\n            module = importlib.reload(module)"),
('C19','coreutils.py','        if not callable(macro):','        if not callable(macro) and not isinstance(macro, str):'),
('C19','coreutils.py',"    if macroimport.level and filename.endswith('.py'):","    if macroimport.level > 1 and filename.endswith('.py'):"),
('C19','coreutils.py',"importlib.util.resolve_name('.' * macroimport.level + macroimport.module, package_absname)","importlib.util.resolve_name('.' * (1 if macroimport.level else 0) + macroimport.module, package_absname)"),
('C19','coreutils.py','        firstimport = statement.names[0]\n        if firstimport.name == magicname and firstimport.asname is None:\n            return True','        if any(a.name == magicname and a.asname is None for a in statement.names):\n            return True'),
('C19','expander.py','            bindings.update(more_bindings)','            bindings = {**more_bindings, **bindings}'),
('C19','expander.py','            bindings.update(more_bindings)','            bindings = more_bindings'),
('C19','expander.py','                    thealias = copy_location(alias(name=module_absname, asname=None), statement)','                    thealias = copy_location(alias(name=statement.module, asname=None), statement)'),
('C19','expander.py','                    tree.body[index] = copy_location(Import(names=[thealias]), statement)','                    tree.body[index] = Import(names=[thealias])'),
('C19','expander.py','    for index in reversed(stmts_to_delete):\n        tree.body.pop(index)','    for index in stmts_to_delete:\n        tree.body.pop(index)'),
('C19','expander.py','    for index in reversed(stmts_to_delete):\n        tree.body.pop(index)','    if stmts_to_delete:\n        tree.body.pop(stmts_to_delete[-1])'),
('C19','expander.py','    for index, statement in enumerate(tree.body):\n        if ismacroimport(statement):','    for index, statement in enumerate(tree.body):\n        if not isinstance(statement, ImportFrom):\n            continue\n        if statement.lineno and ismacroimport(statement):'),
('C19','expander.py','get_macros(statement, filename=filename, reload=reload, self_module=self_module)','get_macros(statement, filename=filename, reload=False, self_module=self_module)'),
('C19','expander.py','get_macros(statement, filename=filename, reload=reload, self_module=self_module)','get_macros(statement, filename=filename, reload=reload)'),
('C19','expander.py','            if transform:\n                if self_module','            if transform and more_bindings:\n                if self_module'),
('C20','coreutils.py','    relative_path = absolute_filename[len(str(root_path)):]\n','    relative_path = os.path.relpath(absolute_filename, str(root_path.parent))\n'),
('C20','coreutils.py','        return (-len(root_path.parts), str(root_path))','        return (len(root_path.parts), str(root_path))'),
('C20','coreutils.py','        if root_path == path or root_path in path.parents:','        if str(path).startswith(str(root_path)):'),
('C20','coreutils.py','        if root_path == path or root_path in path.parents:','        if os.path.commonprefix([str(path), str(root_path)]) == str(root_path):'),
('C20','coreutils.py','    absolute_filename = str(pathlib.Path(filename).expanduser().resolve())\n\n    def sortkey','    absolute_filename = str(pathlib.Path(filename).expanduser().absolute())\n\n    def sortkey'),
('C20','coreutils.py',"    raise ValueError(f'{filename}{resolved} not under any directory in `sys.path`')",'    return pathlib.Path(absolute_filename).parent'),
('C20','coreutils.py',"    package_dotted_name = relative_path.replace(os.path.sep, '.')","    package_dotted_name = '.'.join(relative_path.split(os.path.sep)[-2:])"),
('C20','coreutils.py',"    package_dotted_name = relative_path.replace(os.path.sep, '.')","    package_dotted_name = relative_path.replace(os.path.sep, '.').replace('-', '_')"),
('C20','coreutils.py',"    package_dotted_name = relative_path.replace(os.path.sep, '.')","    package_dotted_name = relative_path.lower().replace(os.path.sep, '.')"),
('C20','coreutils.py','    containing_directory = pathlib.Path(filename).expanduser().resolve().parent','    containing_directory = pathlib.Path(filename).expanduser().parent'),
('C20','coreutils.py','        relative_path = relative_path[len(os.path.sep):]',"        relative_path = relative_path.strip(os.path.sep + '.')"),
('C21','splicing.py','        return type(tree) is ast.Name and tree.id == tag','        return type(tree) is ast.Name and tree.id == tag and isinstance(tree.ctx, ast.Load)'),
('C21','splicing.py','                if not self.first:\n                    return deepcopy(body)','                if not self.first:\n                    return [deepcopy(s) for s in body[:1]]'),
('C21','splicing.py','                if not self.first:\n                    return deepcopy(body)','                if not self.first:\n                    return list(body)'),
('C21','splicing.py','            if ispastehere(tree):\n                if not self.first:\n                    return deepcopy(body)','            if isinstance(tree, (ast.FunctionDef, ast.ClassDef)) and not self.first:\n                return tree\n            if ispastehere(tree):\n                if not self.first:\n                    return deepcopy(body)'),
('C21','splicing.py','    return StatementSplicer().visit(template)','    return [StatementSplicer().visit(t) for t in template]'),
('C21','splicing.py','    return StatementSplicer().visit(template)','    return StatementSplicer().visit(template) if any(ispastehere(t) for t in template) else template'),
('C21','splicing.py','        return type(tree) is ast.Expr and type(tree.value) is ast.Name and (tree.value.id == tag)','        return type(tree) in (ast.Expr, ast.Return) and type(tree.value) is ast.Name and (tree.value.id == tag)'),
('C21','splicing.py','        return type(tree) is ast.Expr and type(tree.value) is ast.Name and (tree.value.id == tag)','        return type(tree) is ast.Expr and any(type(n) is ast.Name and n.id == tag for n in ast.walk(tree))'),
('C21','splicing.py','    if not template:\n        return expr\n','    if not template:\n        return template\n'),
('C22','splicing.py',"    for stmt in template:\n        fix_locations(stmt, srcloc_dummynode, mode='overwrite')","    for stmt in template + body:\n        fix_locations(stmt, srcloc_dummynode, mode='overwrite')"),
('C22','splicing.py',"    for stmt in template:\n        fix_locations(stmt, srcloc_dummynode, mode='overwrite')","    for stmt in template:\n        fix_locations(stmt, srcloc_dummynode, mode='reference')"),
('C22','splicing.py','        new_doc = user_doc + sep + template_doc','        new_doc = user_doc or template_doc'),
('C22','splicing.py','    if user_docstring and template_docstring:','    if user_docstring and template_docstring and user_docstring[0].value.value:'),
('C22','splicing.py',"            return type(target) is ast.Name and target.id == '__all__'","            return type(target) is ast.Name and target.id in ('__all__', '__version__')"),
('C22','splicing.py','                if ismagicall(tree):\n                    self.collect(tree)\n                    return None\n                return tree','                if ismagicall(tree):\n                    if not self.collected:\n                        self.collect(tree)\n                    return None\n                return tree'),
('C22','splicing.py','                if ismagicall(tree):\n                    self.collect(tree)\n                    return None\n                return tree','                if ismagicall(tree):\n                    self.collect(tree)\n                    return None\n                return self.generic_visit(tree)'),
('C22','splicing.py','                if ismacroimport(tree, magicname):\n                    self.collect(tree)\n                    return None','                if ismacroimport(tree, magicname):\n                    self.collect(tree)\n                    return tree'),
('C22','splicing.py',"    body, user_dialect_imports = extract_macroimports(body, magicname='dialects')\n    body, user_macro_imports = extract_macroimports(body)",'    body, user_macro_imports = extract_macroimports(body)\n    user_dialect_imports = []'),
('C22','splicing.py','    template, template_macro_imports = extract_macroimports(template)','    _, template_macro_imports = extract_macroimports(deepcopy(template))'),
('C22','splicing.py','    finalbody = splice_statements(body, template, tag)','    finalbody = splice_statements(body, template)'),
('C22','splicing.py','template_dialect_imports + user_dialect_imports + template_macro_imports + user_macro_imports','template_dialect_imports + template_macro_imports + user_dialect_imports + user_macro_imports'),
('C22','splicing.py','    if not body:\n        body = [ast.copy_location(ast.Pass(), srcloc_dummynode)]','    if not body:\n        return docstring + futureimports + user_magic_all + template'),
('C23','dialects.py','                dialect_instances.append(dialect)\n                if result is NotImplemented:\n                    continue','                if result is NotImplemented:\n                    continue\n                dialect_instances.append(dialect)'),
('C23','dialects.py',"                    result = transformer_method(content)\n                except Exception as err:\n                    raise ImportError(f'Unexpected exception in dialect transformer `{module_absname}","                    result = transformer_method(content)\n                except ValueError as err:\n                    raise ImportError(f'Unexpected exception in dialect transformer `{module_absname}"),
('C23','dialects.py','        for dialect in dialect_instances:','        for dialect in reversed(dialect_instances):'),
('C23','dialects.py','        for dialect in dialect_instances:','        for dialect in {type(d): d for d in dialect_instances}.values():'),
('C23','dialects.py',"            content = result\n            self._step += 1\n            if self.debugmode:\n                msg = f'{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}after {c(CS.DIALECTTRANSFORMERNAME)}{format_macrofunction","            self._step += 1\n            if self.debugmode:\n                msg = f'{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}after {c(CS.DIALECTTRANSFORMERNAME)}{format_macrofunction"),
('C23','dialects.py','                content = result\n                self._step += 1','                self._step += 1\n                if result is content or result == content:\n                    continue\n                content = result'),
('C23','dialects.py',"            if ismacroimport(statement, magicname='dialects'):\n                break\n        else:\n            return None","            if ismacroimport(statement, magicname='dialects'):\n                break\n            if not isinstance(statement, (ast.Import, ast.ImportFrom, ast.Expr)):\n                return None\n        else:\n            return None"),
('C23','dialects.py','                dialect.lineno = lineno\n                dialect.col_offset = col_offset','                dialect.lineno = dialect.col_offset = lineno'),
('C23','dialects.py','        tree.body[index] = ast.copy_location(ast.Import(names=[thealias]), statement)\n','        del tree.body[index]\n'),
('C23','dialects.py','                if statement not in self._seen:\n                    self._seen.add(statement)','                if statement.split()[1] not in self._seen:\n                    self._seen.add(statement.split()[1])'),
('C23','dialects.py','                if not (isinstance(cls, type) and issubclass(cls, Dialect)):','                if not isinstance(cls, type):'),
('C23','dialects.py','        while True:\n            theimport = find_dialectimport(content)\n            if theimport:','        while len(dialect_instances) < 100:\n            theimport = find_dialectimport(content)\n            if theimport:'),
('C23','dialects.py','            theimport = find_dialectimport(content)\n            if theimport:\n                module_absname, bindings, lineno, col_offset = theimport\n            else:\n                break','            theimport = find_dialectimport(content)\n            if theimport and (theimport[1] or dialect_instances):\n                module_absname, bindings, lineno, col_offset = theimport\n            else:\n                break'),
('C23','dialects.py',"                if not result:\n                    raise ImportError(f'Dialect transformer `{module_absname}","                if result is None:\n                    continue\n                if not result:\n                    raise ImportError(f'Dialect transformer `{module_absname}"),
('C24','dialects.py','^from[ \\\\t]+([.0-9a-zA-Z_]+)[ \\\\t]+import dialects','^[ \\\\t]*from[ \\\\t]+([.0-9a-zA-Z_]+)[ \\\\t]+import dialects'),
('C24','dialects.py',"[ \\\\t]+([^(\\\\\\\\\\\\n]+)$'","[ \\\\t]+([^(\\\\\\\\]+)$'"),
('C24','dialects.py','        matches = _dialectimport.finditer(text)','        matches = _dialectimport.finditer(text[:4096])'),
('C24','dialects.py','        matches = _dialectimport.finditer(text)',"        text = text.replace('\\\\r\\\\n', '\\\\n')\n        matches = _dialectimport.finditer(text)"),
('C24','dialects.py','                statement = match.group(0).strip()',"                statement = match.group(0).split('#')[0].strip()"),
('C24','dialects.py','                statement = match.group(0).strip()','                statement = match.group(2).strip()'),
('C24','dialects.py','        return new_text',"        return new_text.rstrip() + '\\\\n'"),
('C24','dialects.py','flags=re.MULTILINE','flags=re.MULTILINE | re.VERBOSE'),
('C24','dialects.py','flags=re.MULTILINE','flags=0'),
('C24','dialects.py',"        dummy_module = ast.parse(statement, filename=self.filename, mode='exec')","        dummy_module = ast.parse(text[:match.end()], filename=self.filename, mode='exec')"),
('C31','activate.py','    SourceFileLoader.source_to_code = source_to_xcode\n','    global stdlib_source_to_code\n    stdlib_source_to_code = SourceFileLoader.source_to_code\n    SourceFileLoader.source_to_code = source_to_xcode\n'),
('C31','activate.py','    SourceFileLoader.source_to_code = stdlib_source_to_code\n','    del SourceFileLoader.source_to_code\n'),
('C31','activate.py','    SourceFileLoader.path_stats = stdlib_path_stats','    if SourceFileLoader.source_to_code is not stdlib_source_to_code:\n        SourceFileLoader.path_stats = stdlib_path_stats'),
('C31','importer.py',"    if path in _stdlib_sourcefile_paths or not path.endswith('.py'):","    if path in _stdlib_sourcefile_paths or '.' not in path:"),
('C31','importer.py',"    if path in _stdlib_sourcefile_paths or not path.endswith('.py'):","    if os.path.basename(path) in _stdlib_sourcefile_paths or not path.endswith('.py'):"),
('C31','importer.py',"('site-packages', 'dist-packages')","('site-packages',)"),
('C31','importer.py',"        dirs[:] = [x for x in dirs if x not in ('site-packages', 'dist-packages')]","        dirs = [x for x in dirs if x not in ('site-packages', 'dist-packages')]"),
('C31','importer.py',"            if filename[-3:] == '.py':\n                paths.add(os.path.join(root, filename))","            if filename[-3:] == '.py':\n                paths.add(os.path.join(stdlib_dir, filename))"),
('C31','importer.py','    stdlib_dir = os.path.dirname(os.__file__)','    stdlib_dir = os.path.dirname(os.path.dirname(os.__file__))'),
('C31','importer.py','        return _stdlib_path_stats(self, path)',"        return {'mtime': _stdlib_path_stats(self, path)['mtime'], 'size': None}"),
('C31','importer.py',"    if path in _stdlib_sourcefile_paths or not path.endswith('.py'):","    if path in _stdlib_sourcefile_paths or not path.endswith(('.py', '.pyw')) or sys.dont_write_bytecode:"),
('C32','pycachecleaner.py','        if "__pycache__" in dirs and not os.path.islink(os.path.join(root, "__pycache__")):\n            paths.append(os.path.join(root, "__pycache__"))','        for d in dirs:\n            if "__pycache__" in d and not os.path.islink(os.path.join(root, d)):\n                paths.append(os.path.join(root, d))'),
('C32','pycachecleaner.py','    for root, dirs, files in os.walk(path):\n','    for root, dirs, files in os.walk(path, followlinks=True):\n'),
('C32','pycachecleaner.py','            paths.append(os.path.join(root, "__pycache__"))','            paths.append(os.path.join(path, "__pycache__"))'),
('C32','pycachecleaner.py','    for x in getpycachedirs(path):','    for x in getpycachedirs(os.path.dirname(path)):'),
('C32','pycachecleaner.py','    for x in getpycachedirs(path):\n        _delete_directory_recursively(x)','    for x in getpycachedirs(path):\n        _delete_directory_recursively(os.path.realpath(x))'),
('C32','pycachecleaner.py','                if os.path.islink(os.path.join(root, x)):  # a symlink to a directory\n                    os.unlink(os.path.join(root, x))\n                    continue\n','                if os.path.islink(os.path.join(root, x)):  # a symlink to a directory\n                    _delete_directory_recursively(os.path.join(root, x))\n                    os.unlink(os.path.join(root, x))\n                    continue\n'),
('C32','pycachecleaner.py','                os.unlink(os.path.join(root, x))\n            except','                os.unlink(os.path.realpath(os.path.join(root, x)))\n            except'),
('C32','pycachecleaner.py','    try:\n        os.rmdir(path)\n','    try:\n        os.removedirs(path)\n'),
('C32','pycachecleaner.py','        if "__pycache__" in dirs and not','        if ("__pycache__" in dirs or "__pycache__" in files) and not'),
('C33','walkers.py','        newstate = self._subtree_overrides.pop(id(tree), None)\n        if newstate is not None:  # note an empty `Bunch` is falsy\n            self._stack.append(newstate)\n        try:\n            if isinstance(tree, list):\n                for elt','        newstate = self._subtree_overrides.get(id(tree), None)\n        if newstate is not None:  # note an empty `Bunch` is falsy\n            self._stack.append(newstate)\n        try:\n            if isinstance(tree, list):\n                for elt'),
('C33','walkers.py','        newstate = self.state.copy()\n        newstate.update(**bindings)\n        if isinstance(tree, list):','        newstate = self._stack[0].copy()\n        newstate.update(**bindings)\n        if isinstance(tree, list):'),
('C33','walkers.py','        newstate = self.state.copy()\n        newstate.update(**bindings)\n        if isinstance(tree, list):','        newstate = Bunch(**bindings)\n        if isinstance(tree, list):'),
('C33','walkers.py','                self._subtree_overrides[id(elt)] = newstate\n','                self._subtree_overrides.setdefault(id(elt), newstate)\n'),
('C33','walkers.py','        for node in iter_child_nodes(tree):\n            self._subtree_overrides[id(node)] = newstate','        for node in iter_child_nodes(tree):\n            self._subtree_overrides.setdefault(id(node), newstate)'),
('C33','walkers.py','                new_tree = utils.flatten(self.visit(elt) for elt in tree)\n','                new_tree = utils.flatten([self.visit(elt) for elt in reversed(tree)])[::-1]\n'),
('C33','walkers.py','        self._subtree_overrides = {}\n        self.collected = []',"        self._subtree_overrides = {}\n        if not hasattr(self, 'collected'):\n            self.collected = []"),
('C33','walkers.py','    def _setstate(self, newstate):\n        self._stack[-1] = newstate','    def _setstate(self, newstate):\n        self._stack[-1].replace(newstate)'),
('C33','walkers.py','        self._subtree_overrides = {}\n',"        self._subtree_overrides = getattr(self, '_subtree_overrides', {})\n"),
('C33','walkers.py','                for elt in tree:\n                    self.visit(elt)\n                return','                for elt in tree:\n                    if self.visit(elt) is not None:\n                        break\n                return'),
('C33','bunch.py','        return Bunch(**{k: v for k, v in self._data.items()})','        return Bunch(**{k: v for k, v in self._data.items() if v is not None})'),
('C33','bunch.py','        return Bunch(**{k: v for k, v in self._data.items()})','        return bunchify(self._data)'),
('C34','markers.py','            if isinstance(tree, cls):\n                self.collect(tree)\n            self.generic_visit(tree)','            if type(tree) is cls:\n                self.collect(tree)\n            self.generic_visit(tree)'),
('C34','markers.py','                return self.visit(tree.body)','                return self.visit(tree.body) if not isinstance(tree.body, list) else tree.body'),
('C34','markers.py','    remaining_markers = get_markers(tree, cls)\n    if remaining_markers:','    remaining_markers = [m for m in get_markers(tree, cls) if m.body is not None]\n    if remaining_markers:'),
('C34','markers.py','    remaining_markers = get_markers(tree, cls)\n    if remaining_markers:','    remaining_markers = get_markers(tree, cls)\n    if len(remaining_markers) > 1:'),
('C34','markers.py','    cls = cls or ASTMarker\n    remaining','    cls = ASTMarker if cls is None else cls\n    if isinstance(tree, ASTMarker):\n        tree = tree.body\n    remaining'),
('C34','markers.py','            if isinstance(tree, cls):\n                if tree.body is None:','            if isinstance(tree, ASTMarker):\n                if tree.body is None:'),
('C34','markers.py','            if isinstance(tree, cls):\n                if tree.body is None:','            if isinstance(tree, cls) and not isinstance(tree.body, ASTMarker):\n                if tree.body is None:'),
('C34','markers.py','        raise core.MacroExpansionError(f"{filename}: AST markers remaining after expansion:\\n{report}")','        raise core.MacroExpansionError(f"AST markers remaining after expansion: {len(codes)}")'),
('C34','markers.py','        self._fields = ["body"]  # support ast.iter_fields','        self._fields = ["body"] if isinstance(body, ast.AST) else []  # support ast.iter_fields'),
('C34','markers.py','            return self.generic_visit(tree)\n    return ASTMarkerDeleter','            if isinstance(tree, ast.expr):\n                return tree\n            return self.generic_visit(tree)\n    return ASTMarkerDeleter'),
('C34','core.py','    tree = delete_markers(tree, cls=MacroExpanderMarker)','    tree = delete_markers(tree)'),
('C35','expander.py','            if new_tree is None:\n                new_tree = _make_coverage_dummy_expr(subscript)','            if not new_tree:\n                new_tree = None'),
('C35','expander.py','        new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt, macroname, self.filename)','        if new_tree is not None:\n            new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt, macroname, self.filename)'),
('C35','expander.py','    tree.insert(0, Done(dummy))','    tree.append(Done(dummy))'),
('C35','expander.py','    tree.insert(0, Done(dummy))','    tree.insert(0, dummy)'),
('C35','expander.py','    if tree is None:\n        tree = []\n    elif isinstance(tree, AST):\n        tree = [tree]\n','    if not tree:\n        return []\n    elif isinstance(tree, AST):\n        tree = [tree]\n'),
('C35','expander.py','    return Done(call)','    return Done(non)'),
('C35','expander.py','    return Done(call)','    return Done(lam)'),
('C35','expander.py',"    if not hasattr(macronode, 'lineno') and (not hasattr(macronode, 'col_offset')):\n        return tree\n","    if not hasattr(macronode, 'lineno') and (not hasattr(macronode, 'col_offset')):\n        return tree\n    if isinstance(tree, AST) and hasattr(tree, 'lineno') and tree.lineno == macronode.lineno:\n        return tree\n"),
('C35','expander.py','    elif isinstance(tree, AST):\n        tree = [tree]\n','    elif isinstance(tree, AST):\n        return tree\n'),
('C35','expander.py','            if new_tree is None:\n                new_tree = _make_coverage_dummy_expr(name)','            if new_tree is None:\n                new_tree = name'),
('C35','expander.py','            if new_tree is None:\n                new_tree = _make_coverage_dummy_expr(name)','            if new_tree is None:\n                new_tree = Done(name)'),
('C35','expander.py',"    t = copy_location(Name(id='_mcpyrate_coverage', ctx=Store()), macronode)",'    t = copy_location(Name(id=macroname, ctx=Store()), macronode)'),
('C36','core.py','__all__ = ["MacroExpansionError",','__all__ = ["MacroExpansionErr",'),
('C36','metatools.py',"ast.Call(_mcpyrate_metatools_attr('fix_locations'), [tree, astified_reference_node], [ast.keyword('mode', astify('reference'))])","ast.Call(_mcpyrate_metatools_attr('fix_locations'), [tree, astified_reference_node], [ast.keyword('how', astify('reference'))])"),
('C36','metatools.py',"[ast.keyword('args', astify(args)), ast.keyword('syntax', astify(syntax)), ast.keyword('expander', expander_node)]","[ast.keyword('args', astify(args)), ast.keyword('expander', expander_node)]"),
('C36','metatools.py',"ast.keyword('tree', tree)])","ast.keyword('node', tree)])"),
('C36','metatools.py',"        runtime_operator = 'runtime_expand'\n","        runtime_operator = 'runtime_expandr'\n"),
('C36','debug.py','{c(CS.MACRONAME)}{macroname}','{c(CS.MACRO)}{macroname}'),
('C36','metatools.py','from .astfixers import fix_locations\n','from . import astfixers\n'),
('C36','metatools.py',"    return _mcpyrate_attr(f'metatools.{attr}')","    return _mcpyrate_attr(f'metatool.{attr}')"),
('C36','unparser.py','ColorScheme.DEFNAME','ColorScheme.DEFINITIONNAME'),
('C36','multiphase.py','{c(CS.ATTENTION)}PHASE {k}','{c(CS.PHASE)}PHASE {k}'),
('C36','quotes.py','"q", "u", "n", "a", "s", "t", "h"]','"q", "u", "n", "a", "s", "t", "h", "unquote"]'),
('C37','debug.py','            mc = MacroCollector(expander)\n            mc.visit(tree)\n            while mc.collected:','            mc = MacroCollector(expander)\n            mc.visit(tree)\n            if mc.collected:'),
('C37','debug.py','                mc.clear()\n                mc.visit(tree)\n','                mc.visit(tree)\n                if step > 100:\n                    break\n'),
('C37','debug.py','                tree = expander.visit_once(tree)\n                tree = tree.body\n','                tree = expander.visit_once(tree)\n'),
('C37','debug.py','            with expander.debughook(print_step):\n                doit()','            expander._debughook = print_step\n            doit()\n            expander._debughook = None'),
('C37','debug.py','    return tree\n\n@namemacro','    return tree if step else None\n\n@namemacro'),
('C37','debug.py','    print(format_bindings(expander, globals_too=False, color=True), file=sys.stderr)\n    return None','    print(format_bindings(expander, globals_too=False, color=True), file=sys.stderr)\n    return tree'),
('C37','debug.py','    bindings = expander.bindings if globals_too else expander.local_bindings\n',"    bindings = expander.bindings if globals_too else expander.local_bindings\n    bindings.pop('show_bindings', None)\n"),
('C37','multiphase.py','                if debug:\n                    print(unparse_with_fallbacks(phase_k_tree, debug=True, color=True), file=sys.stderr)\n','                if debug:\n                    print(unparse_with_fallbacks(phase_k_tree, debug=True, color=True), file=sys.stderr)\n                    continue\n'),
('C37','debug.py','                mc.clear()\n                mc.visit(tree)\n',"                mc = MacroCollector(expander)\n                mc.visit(tree.body if hasattr(tree, 'body') else tree)\n"),
('C37','debug.py','                tree = expander.visit_once(tree)\n                tree = tree.body\n','                tree = expander.visit_recursively(tree)\n'),
('C37','debug.py',"        print(textwrap.indent(f'{formatter(tree)}', codeindent * ' '), file=sys.stderr)\n        step = 0","        tree = ast.fix_missing_locations(tree)\n        print(textwrap.indent(f'{formatter(tree)}', codeindent * ' '), file=sys.stderr)\n        step = 0"),
('C38','unparser.py','    except Exception as err:\n','    except (AttributeError, TypeError) as err:\n'),
('C38','unparser.py','        text = unparse(tree, debug=debug, color=color, expander=expander)\n    except','        text = unparse(tree, debug=debug, color=color)\n    except'),
('C38','unparser.py','        text = unparse(tree, debug=debug, color=color, expander=expander)\n    except','        text = unparse(tree, debug=True, color=color, expander=expander)\n    except'),
('C38','unparser.py','    except UnparserError as err:\n        text = str(err)\n','    except UnparserError as err:\n        raise\n'),
('C38','unparser.py','        text = str(err)\n',"        text = '<cannot unparse>'\n"),
('C38','unparser.py','        text = f"Internal error in unparser: {type(err)}: {str(err)}"\n','        raise UnparserError(f"Internal error in unparser: {type(err)}: {str(err)}") from err\n'),
('C38','utils.py','            if lineno:\n                return lineno\n    elif isinstance(tree, list)','            return lineno\n    elif isinstance(tree, list)'),
('C38','utils.py','        for node in tree:\n            lineno = get_lineno(node)\n            if lineno:\n                return lineno\n','        if tree:\n            return get_lineno(tree[0])\n'),
('C38','utils.py','        for node in tree:\n            lineno = get_lineno(node)\n','        for node in reversed(tree):\n            lineno = get_lineno(node)\n'),
('C38','utils.py','    elif isinstance(tree, list):  # look inside statement suites\n        for node in tree:\n            lineno = get_lineno(node)\n            if lineno:\n                return lineno\n',''),
('C38','utils.py','        for fieldname, node in ast.iter_fields(tree):\n            lineno = get_lineno(node)\n','        for node in ast.iter_child_nodes(tree):\n            lineno = get_lineno(node)\n'),
('C38','utils.py','        for fieldname, node in ast.iter_fields(tree):\n            lineno = get_lineno(node)\n',"        for node in ast.walk(tree):\n            lineno = getattr(node, 'lineno', None)\n"),
('C38','utils.py','    if hasattr(tree, "lineno"):\n        return tree.lineno\n    elif isinstance','    if isinstance(tree, (ast.expr, ast.stmt)):\n        return tree.lineno\n    elif isinstance'),
('C38','utils.py','    if hasattr(tree, "lineno"):\n        return tree.lineno\n','    if hasattr(tree, "lineno"):\n        return tree.end_lineno\n'),
('C38','utils.py','    if sourcecode:\n        sep = " " if "\\n" not in sourcecode else "\\n"\n        source_with_sep = f"{sep}{sourcecode}"\n    else:\n        source_with_sep = ""\n','    sep = " " if "\\n" not in sourcecode else "\\n"\n    source_with_sep = f"{sep}{sourcecode}" if sourcecode else ""\n'),
('C38','utils.py',":{get_lineno(tree)}:{source_with_sep}'",":{tree.lineno}:{source_with_sep}'"),
('C38','utils.py',":{get_lineno(tree)}:{source_with_sep}'",':{getattr(tree, "lineno", None)}:{source_with_sep}\''),
('C38','utils.py','        sep = " " if "\\n" not in sourcecode else "\\n"\n        source_with_sep = f"{sep}{sourcecode}"\n','        source_with_sep = f" {sourcecode}" if "\\n" not in sourcecode else ""\n'),
('C38','utils.py','    if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):\n        return repr(function)\n',''),
('C38','utils.py','hasattr(function, "__module__") and hasattr(function, "__qualname__")):\n        return repr(function)','hasattr(function, "__module__") or hasattr(function, "__qualname__")):\n        return repr(function)'),
('C38','utils.py','hasattr(function, "__module__") and hasattr(function, "__qualname__")):\n        return repr(function)','hasattr(function, "__module__")):\n        return repr(function)'),
('C38','utils.py','        return repr(function)','        return function.__name__'),
('C38','utils.py','    if not function.__module__:  # Macros defined in the REPL have `__module__=None`.\n        return function.__qualname__\n',''),
('C38','utils.py','f"{function.__module__}.{function.__qualname__}"','f"{function.__module__}.{function.__name__}"'),
('C38','utils.py','unparser.unparse_with_fallbacks(tree, debug=True, color=True).split','unparser.unparse(tree, debug=True, color=True).split'),
('C38','utils.py','    if len(code_lines) > n:','    if len(code_lines) >= n:'),
('C38','utils.py','    if len(code_lines) > n:','    if len(code_lines) > 5:'),
('C38','utils.py','code_lines[:n]','code_lines[:5]'),
('C38','utils.py','code_lines[:n]','code_lines[1:n]'),
('C38','utils.py','code_lines[:n]','code_lines[:n - 1]'),
('C38','quotes.py','{unparse_with_fallbacks(x)}','{unparse(x)}'),
('C38','quotes.py','got {unparse_with_fallbacks(target)}','got {unparse(target)}'),
('C38','quotes.py','unparse_with_fallbacks(tree, debug=True, color=True)','unparse(tree, debug=True, color=True)'),
('C38','expander.py','            sourcecode = unparse_with_fallbacks(subscript, debug=True, color=True, expander=self)','            from .unparser import unparse\n            sourcecode = unparse(subscript, debug=True, color=True, expander=self)'),
('C38','dialects.py','        format_for_display = functools.partial(unparse_with_fallbacks, debug=True, color=True)','        from .unparser import unparse\n        format_for_display = functools.partial(unparse, debug=True, color=True)'),
('C38','coreutils.py','from .unparser import unparse_with_fallbacks','from .unparser import unparse as unparse_with_fallbacks'),
('C39','astdumper.py','for k, v in iter_fields(tree)]','for k, v in iter_fields(tree) if v is not None]'),
('C39','astdumper.py','for k, v in iter_fields(tree)]','for k, v in iter_fields(tree) if v]'),
('C39','astdumper.py','for k, v in iter_fields(tree)]','for k, v in iter_fields(tree) if k != "ctx"]'),
('C39','astdumper.py','for k, v in iter_fields(tree)]','for k, v in sorted(iter_fields(tree))]'),
('C39','astdumper.py','for k, v in iter_fields(tree)]','for k, v in iter_fields(tree) if not k.startswith("type_")]'),
('C39','astdumper.py','for k, v in iter_fields(tree)]','for k, v in iter_fields(tree) if k in tree._fields[:5]]'),
('C39','astdumper.py','            if include_attributes and tree._attributes:\n','            if tree._attributes:\n'),
('C39','astdumper.py','            if include_attributes and tree._attributes:\n','            if include_attributes and tree._attributes and not multiline:\n'),
('C39','astdumper.py','                fields.extend([(k,','                fields = ([(k,'),
('C39','astdumper.py','for k in tree._attributes])','for k in tree._attributes if k.endswith("lineno")])'),
('C39','astdumper.py','for k in tree._attributes])','for k in ("lineno", "col_offset")])'),
('C39','astdumper.py','getattr(tree, k, None)','tree.lineno'),
('C39','astdumper.py','getattr(tree, k, None)','k'),
('C39','astdumper.py','                ")"])','                ""])'),
('C39','astdumper.py','(f"{k}={v}" for k, v in colorized_fields)','(f"{v}" for k, v in colorized_fields)'),
('C39','astdumper.py','[(maybe_colorize(k, ColorScheme.FIELDNAME),\n                                 maybe_colorize_value(v))\n                                for k, v in fields]','{maybe_colorize_value(v): maybe_colorize(k, ColorScheme.FIELDNAME) for k, v in fields}.items()'),
('C39','astdumper.py','            items = [recurse(elt, previndent + moreindent) for elt in tree]','            items = [recurse(elt, previndent + moreindent) for elt in tree if elt is not None]'),
('C39','astdumper.py','            items = [recurse(elt, previndent + moreindent) for elt in tree]','            items = [recurse(elt, previndent + moreindent) for elt in tree if isinstance(elt, AST)]'),
('C39','astdumper.py','items[-1] = items[-1] + "]"','items.append("]")'),
('C39','astdumper.py','            if items:\n                items[0]','            if len(items) > 1:\n                items[0]'),
('C39','astdumper.py','            return "[]"','            return ""'),
('C39','astdumper.py','        return repr(tree)','        return str(tree)'),
('C39','astdumper.py','    if not isinstance(tree, (AST, list)):\n        raise TypeError(f"expected AST, got {tree.__class__.__name__!r}")\n',''),
('C39','astdumper.py','    if not isinstance(tree, (AST, list)):\n','    if not isinstance(tree, AST):\n'),
('C39','astdumper.py','            if multiline:\n                return','            if not multiline:\n                return'),
('C39','astdumper.py','            if multiline:\n                return','            if multiline or include_attributes:\n                return'),
('C39','astdumper.py','            return maybe_colorize(str(value), ColorScheme.BAREVALUE)','            return maybe_colorize(repr(value), ColorScheme.BAREVALUE)'),
('C39','astdumper.py','        return colorize(text, *colors)','        return colorize(*colors)'),
('C39','astdumper.py','        return repr(tree)','        return repr(tree).strip()[:60]'),
('C39','astdumper.py','items[0] = "[" + items[0].lstrip()','items[0] = "[" + items[0].lstrip("\'")'),
('C40','metatools.py','    keys = list(astify(k) for k in expander.bindings.keys())','    keys = list(astify(k) for k in expander.local_bindings.keys())'),
('C40','metatools.py','    keys = list(astify(k) for k in expander.bindings.keys())','    keys = list(astify(k) for k in sorted(expander.bindings.keys()))'),
('C40','metatools.py','    values = list(capture_value(v, k) for k, v in expander.bindings.items())','    values = list(capture_value(k, k) for k, v in expander.bindings.items())'),
('C40','metatools.py','    values = list(capture_value(v, k) for k, v in expander.bindings.items())','    values = list(capture_value(v, k) for k, v in reversed(expander.bindings.items()))'),
('C40','metatools.py','    keys = list(astify(k) for k in expander.bindings.keys())\n    values = list(capture_value(v, k) for k, v in expander.bindings.items())','    keys = list(astify(k) for k in expander.local_bindings.keys())\n    values = list(capture_value(v, k) for k, v in expander.local_bindings.items())'),
('C40','metatools.py','    keys = list(astify(k) for k in expander.bindings.keys())\n    values = list(capture_value(v, k) for k, v in expander.bindings.items())','    keys = list(astify(k) for k in expander.bindings.keys() if k.isidentifier())\n    values = list(capture_value(v, k) for k, v in expander.bindings.items() if k.isidentifier())'),
('C40','metatools.py','    if syntax != "name":\n        raise SyntaxError("`macro_bindings` is a name macro only")\n',''),
('C40','metatools.py','                    [ast.keyword("bindings", macro_bindings(None, syntax="name", expander=expander)),\n                     ast.keyword("filename", astify(expander.filename)),\n                     ast.keyword("tree", tree)])','                    [ast.keyword("bindings", macro_bindings(None, syntax="name", expander=expander)),\n                     ast.keyword("filename", astify(__file__)),\n                     ast.keyword("tree", tree)])'),
('C40','metatools.py','                     ast.keyword("tree", tree)])','                     ast.keyword("tree", astify(tree))])'),
('C40','metatools.py','                    [ast.keyword("bindings", macro_bindings(None, syntax="name", expander=expander)),\n                     ast.keyword("filename", astify(expander.filename)),\n                     ast.keyword("tree", tree)])','                    [ast.keyword("bindings", ast.Dict(keys=[], values=[])),\n                     ast.keyword("filename", astify(expander.filename)),\n                     ast.keyword("tree", tree)])'),
('C40','metatools.py','    if syntax == "block" and kw["optional_vars"] is not None:\n        raise SyntaxError("`expand1r` (block mode) does not take an asname")\n',''),
('C40','metatools.py','    if syntax == "block" and kw[\'optional_vars\'] is not None:\n        raise SyntaxError("`expands` (block mode) does not take an asname")\n',''),
('C40','metatools.py','    if syntax not in ("expr", "block"):\n        raise SyntaxError(f"`{macroname}` is an expr and block macro only")\n',''),
('C40','metatools.py','    if syntax not in ("expr", "block"):\n        raise SyntaxError("`expands` is an expr and block macro only")\n',''),
('C40','metatools.py','    if syntax not in ("expr", "block"):\n        raise SyntaxError("`expand1sq` is an expr and block macro only")\n','    if syntax not in ("expr", "block", "decorator"):\n        raise SyntaxError("`expand1sq` is an expr and block macro only")\n'),
('C40','metatools.py','        tree.value = expandr(tree.value, syntax=syntax, **kw)\n        return tree','        return expandr(tree.value, syntax=syntax, **kw)'),
('C40','metatools.py','        tree.value = expandr(tree.value, syntax=syntax, **kw)\n        return tree','        expandr(tree.value, syntax=syntax, **kw)\n        return tree'),
('C40','metatools.py','        kw["optional_vars"] = None  # the asname was meant for `q`, `expand1r` doesn\'t take it.\n',''),
('C40','metatools.py','        tree.value = expands(tree.value, syntax="expr", **kw)','        tree.value = expands(tree.value, syntax=syntax, **kw)'),
('C40','metatools.py','        tree.value = expand1s(tree.value, syntax="expr", **kw)','        tree = expand1s(tree.value, syntax="expr", **kw)'),
('C40','metatools.py','                             [ast.keyword("bindings", macro_bindings(None, syntax="name", expander=expander)),\n                              ast.keyword("filename"','                             [ast.keyword("bindings", _mcpyrate_metatools_attr("global_bindings")),\n                              ast.keyword("filename"'),
('C40','metatools.py','                    [ast.keyword("args", astify(args)),','                    [ast.keyword("args", astify([])),'),
('C40','metatools.py','                     ast.keyword("syntax", astify(syntax)),','                     ast.keyword("syntax", astify("block")),'),
('C40','metatools.py','                     ast.keyword("syntax", astify(syntax)),\n',''),
('C40','metatools.py','                    [tree],\n                    [ast.keyword("args"','                    [astify(tree)],\n                    [ast.keyword("args"'),
('C40','metatools.py','    if syntax != "expr":\n        raise SyntaxError("`stepr` is an expr macro only")\n',''),
('C40','metatools.py','    if syntax == "block" and kw[\'optional_vars\'] is not None:\n        raise SyntaxError("expand_first does not take an as-part")  # pragma: no cover\n',''),
('C40','metatools.py','    if not args:\n        raise SyntaxError("expected a comma','    if args is None:\n        raise SyntaxError("expected a comma'),
('C40','metatools.py','    args = MacroExpander(expander.bindings, filename=expander.filename).visit(args)\n',''),
('C40','metatools.py','    args = MacroExpander(expander.bindings, filename=expander.filename).visit(args)\n','    args = MacroExpander(expander.local_bindings, filename=expander.filename).visit(args)\n'),
('C40','metatools.py','    invalid_args = [node for node in args if type(node) is not ast.Name]','    invalid_args = [node for node in args[:1] if type(node) is not ast.Name]'),
('C40','metatools.py','    invalid_args = [node for node in args if type(node) is not ast.Name]','    invalid_args = [node for node in args if type(node) is ast.Name]'),
('C40','metatools.py','    invalid_args = [name_node for name_node in args if name_node.id not in expander.bindings]','    invalid_args = [name_node for name_node in args if name_node.id in expander.bindings]'),
('C40','metatools.py','    macros = [expander.bindings[name_node.id] for name_node in args]','    macros = [expander.bindings[name_node.id] for name_node in args[1:]]'),
('C40','metatools.py','    macros = [expander.bindings[name_node.id] for name_node in args]','    macros = [expander.bindings[args[0].id]]'),
('C40','metatools.py','    macro_bindings = extract_bindings(expander.bindings, *macros)\n','    macro_bindings = {name_node.id: expander.bindings[name_node.id] for name_node in args}\n'),
('C40','metatools.py','    macro_bindings = extract_bindings(expander.bindings, *macros)\n','    macro_bindings = extract_bindings(expander.local_bindings, *macros)\n'),
('C40','metatools.py','    return MacroExpander(macro_bindings, filename=expander.filename).visit(tree)','    return expander.visit_recursively(tree)'),
('C40','metatools.py','    return MacroExpander(macro_bindings, filename=expander.filename).visit(tree)','    return MacroExpander(expander.bindings, filename=expander.filename).visit(tree)'),
('C40','metatools.py','    return MacroExpander(macro_bindings, filename=expander.filename).visit(tree)','    return MacroExpander(macro_bindings, filename=expander.filename).visit_once(tree)'),
('C40','metatools.py','    return q(tree.body, syntax=syntax, expander=expander, **kw)','    return q(tree.body, syntax="expr", expander=expander, **kw)'),
('C40','metatools.py','    return q(tree, syntax=syntax, expander=expander, **kw)','    return q(tree, syntax=syntax, expander=MacroExpander(expander.bindings, __file__), **kw)'),
('C40','utils.py','    functions = set(functions)\n    return {name: function for name, function in bindings.items() if function in functions}','    names = {f.__name__ for f in functions}\n    return {name: function for name, function in bindings.items() if name in names}'),
('C40','utils.py','for name, function in bindings.items() if function in functions}','for name, function in bindings.items() if function not in functions}'),
('C40','utils.py','for name, function in bindings.items() if function in functions}','for name, function in bindings.items()}'),
('C40','utils.py','    return {name: function for name, function in bindings.items() if function in functions}','    return {function.__name__: function for name, function in bindings.items() if function in functions}'),
('C40','utils.py','    return {name: function for name, function in bindings.items() if function in functions}','    return {name: function for name, function in bindings.maps[0].items() if function in functions}'),
('C40','utils.py','    functions = set(functions)\n    return {name: function for name, function in bindings.items() if function in functions}','    functions = set(functions[:1])\n    return {name: function for name, function in bindings.items() if function in functions}'),
('C27','compiler.py','    code = builtins.compile(expansion, filename, mode="exec", dont_inherit=True, optimize=optimize)',"    code = builtins.compile(expansion, filename, mode='exec', dont_inherit=True)"),
('C03','compiler.py','            text = importlib.util.decode_source(source)',"            text = source.decode('utf-8')"),
('C28','compiler.py','            setattr(package, finalcomponent, module)','            package.__dict__.setdefault(finalcomponent, module)'),
('C02','compiler.py','                delattr(package, finalcomponent)','                if package.__dict__.get(finalcomponent) is None:\n                    delattr(package, finalcomponent)'),
('C04','importer.py','"site-packages", "dist-packages"',"'dist-packages',"),
('C04','importer.py','data["st_mtime_ns"] ==','data["st_mtime_ns"] >='),
('C04','importer.py','elif iswithphase(stmt, filename=path):','elif iswithphase(stmt, filename=path) == 1:'),
('C04','importer.py','        has_relative_macroimports = any(macroimport.level for macroimport in macro_and_dialect_imports)','        has_relative_macroimports = any(macroimport.level for macroimport in macroimports)'),
('C08','expander.py','    elif type(tree) is Call and type(tree.func) is Name and not tree.keywords:','    elif type(tree) is Call and type(tree.func) is Name:'),
('C08','expander.py','            return isnamemacro(self.isbound(macroname))','            return isnamemacro(self.isbound(macroname, global_only=True)) or isnamemacro(self.local_bindings.get(macroname))'),
('C35','expander.py','                new_tree = _make_coverage_dummy_expr(subscript)','                new_tree = Constant(value=None)'),
('C07','expander.py','                if not ismodified(new_tree):','                if not ismodified(new_tree) and self.recursive:'),
('C09','expander.py','            for with_item in others:\n                self.visit(with_item)','            for with_item in others:\n                self.visit(with_item.context_expr)'),
('C09','expander.py','if k in ("decorator_list", "name", "type_comment"):','if k in ("decorator_list", "name", "type_comment", "returns"):'),
('C35','expander.py','    if tree is None:\n        tree = []','    if not tree:\n        return tree\n    if tree is None:\n        tree = []'),
('C19','expander.py','            bindings.update(more_bindings)','            for k, v in more_bindings.items():\n                bindings.setdefault(k, v)'),
('C06','core.py','            expansion = fix_locations(expansion, target, mode="reference")','            expansion = fix_locations(expansion, target, mode="update")'),
('C37','core.py','            oldtree = deepcopy(target)','            oldtree = copy(target)'),
('C37','core.py','            oldid = id(target)','            oldid = id(tree)'),
('C37','core.py','self._debughook(oldid, oldtree, newtree, macroname, macro)','newtree = self._debughook(oldid, oldtree, newtree, macroname, macro) or newtree'),
('C07','core.py','        return Done(self.visit(tree))','        return self.visit(tree)'),
('C23','dialects.py','if statement not in self._seen:',"if statement.split(' import ')[0] not in self._seen:"),
('C23','dialects.py','                if not result:\n                    raise ImportError(f"Dialect transformer','                if not result:\n                    continue\n                if False:\n                    raise ImportError(f"Dialect transformer'),
('C24','dialects.py','r"^from[ \\t]+','r"^[ \\t]*from[ \\t]+'),
('C23','dialects.py','            content = result\n            self._step += 1\n\n            if self.debugmode:\n                msg = f"{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}after {c(CS.DIALECTTRANSFORMERNAME)}{format_macrofunction','            tree = result\n            self._step += 1\n\n            if self.debugmode:\n                msg = f"{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}after {c(CS.DIALECTTRANSFORMERNAME)}{format_macrofunction'),
('C26','multiphase.py','        if maxn is None or (n is not None and n > maxn):','        if maxn is None:'),
('C26','multiphase.py','        for name in stmt.names[1:]:\n            if name.name == "phase":','        for name in stmt.names[1:2]:\n            if name.name == "phase":'),
('C02','multiphase.py','        if original_module:\n            sys.modules[self_module] = original_module','        if original_module and original_module is not module:\n            sys.modules.setdefault(self_module, original_module)'),
('C26','multiphase.py','    if macroname != "phase":','    if not macroname.startswith("phase"):'),
('C19','coreutils.py','    if macroimport.level and filename.endswith(".py"):','    if macroimport.level == 1 and filename.endswith(".py"):'),
('C19','coreutils.py','        bindings[name.asname or name.name] = macro','        bindings[name.name if name.asname in bindings else name.asname or name.name] = macro'),
('C19','coreutils.py','            module = importlib.reload(module)','            importlib.invalidate_caches()'),
('C25','coreutils.py','    return docstring + futureimports + stmts + body','    return docstring + futureimports[:1] + stmts + futureimports[1:] + body'),
('C25','coreutils.py','    return isinstance(tree, ast.ImportFrom) and tree.module == "__future__"','    return isinstance(tree, ast.ImportFrom) and tree.module == "__future__" and len(tree.names) == 1'),
('C10','astfixers.py','            self.withstate(tree.iter, ctxclass=Load)','            self.withstate(tree.iter, ctxclass=Store)'),
('C10','astfixers.py','        if "ctx" in type(tree)._fields:\n            tree.ctx = self.state.ctxclass()','        if "ctx" in type(tree)._fields and not hasattr(tree, \'ctx\'):\n            tree.ctx = self.state.ctxclass()'),
('C10','astfixers.py','            self._seen.add(id(tree))',"            self._seen.add(id(tree.ctx) if hasattr(tree, 'ctx') else id(tree))"),
('C33','walkers.py','                self._subtree_overrides[id(elt)] = newstate','                self._subtree_overrides[id(elt)] = newstate.copy()'),
('C34','markers.py','            self.generic_visit(tree)\n','            else:\n                self.generic_visit(tree)\n'),
('C34','markers.py','    cls = cls or ASTMarker','    cls = cls or core.MacroExpanderMarker'),
('C21','splicing.py','    if not template:\n        return expr','    if not template:\n        return deepcopy(expr)'),
('C22','splicing.py','    for stmt in template:\n        fix_locations','    for stmt in template[1:]:\n        fix_locations'),
('C22','splicing.py','    futureimports = template_futureimports + user_futureimports','    futureimports = user_futureimports or template_futureimports'),
('C22','splicing.py','            template_dialect_imports + user_dialect_imports +','            user_dialect_imports + template_dialect_imports +'),
('C18','utils.py','uuid.uuid4()).replace("-", "")','uuid.uuid4()).replace("-", "")[:8]'),
('C14','utils.py','                if tree.asname == oldname:','                elif tree.asname == oldname:'),
('C14','utils.py','            elif T in (ast.Global, ast.Nonlocal):','            elif T is ast.Global:'),
('C14','utils.py','                if tree.rest == oldname:','                if tree.rest is oldname:'),
('C14','utils.py','            return self.generic_visit(tree)\n    return Renamer','            if T is ast.Constant or T is ast.JoinedStr:\n                return tree\n            return self.generic_visit(tree)\n    return Renamer'),
('C38','utils.py','    if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):','    if not hasattr(function, "__module__"):'),
('C26','multiphase.py','        for name in stmt.names[1:]:\n            if name.name == "phase":','        for name in stmt.names[1:2]:\n            if name.name == "phase":'),
('C26','multiphase.py','            if name.name == "phase":\n                return True\n    return False','            if name.name == "phase":\n                return True\n        return False\n    return False'),
('C26','multiphase.py','            if name.name == "phase":\n                return True\n    return False','            if name.name == "phase":\n                return True\n            return False\n    return False'),
('C26','multiphase.py','    if macroname != "phase":','    if not macroname.startswith("phase"):'),
('C28','utils.py','            return docstring_node.value if isinstance(docstring_node.value, str) else None','            return docstring_node.value if docstring_node.value else None'),
('C33','walkers.py','                self._subtree_overrides[id(elt)] = newstate','                self._subtree_overrides[id(elt)] = newstate.copy()'),
('C14','utils.py','                if tree.rest == oldname:','                if tree.rest is oldname:'),
('C36','coreutils.py','ast.Constant(value=0)],','ast.Constant(value=1)],'),
('C17','core.py','        if not self.bindings or isinstance(tree, Done):','        if not self.local_bindings or isinstance(tree, Done):'),
('C17','expander.py','        if not self.expander.bindings or isinstance(tree, Done):','        if not self.expander.local_bindings or isinstance(tree, Done):'),
('C37','core.py','            oldid = id(target)','            oldid = id(tree)'),
('C04','importer.py','"site-packages", "dist-packages"','"dist-packages",'),
('C15','quotes.py','        for child in node.body:\n                _typecheck(child, cls, macroname)\n            return','        for child in node.body[:1]:\n                _typecheck(child, cls, macroname)\n            return'),
('C15','quotes.py','        elif isinstance(thing, (ast.Global, ast.Nonlocal)):','        elif isinstance(thing, (ast.Global, ast.Nonlocal, ast.JoinedStr)):'),
('C17','quotes.py','        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))','        _lookup_cache[cachekey] = (None, pickle.loads(frozen_value))'),
('C17','quotes.py','    return ast.Name(id=unique_name)','    return ast.Name(id=name)'),
('C17','quotes.py','ast.Constant(value=gensym(name)),','ast.Constant(value=name),'),
('C15','quotes.py','        return (name_node.value, None)','        return (name_node.value, name_node.value)'),
('C15','quotes.py','        elif T in (int, float, complex, str, bytes, bool, type(None), type(...)):','        elif T in (int, float, str, bytes, bool, type(None), type(...)):'),
('C15','quotes.py','        elif T is Done:\n','        elif T is Done and expander:\n'),
('C15','quotes.py','        return {unastify(k): unastify(v) for k, v in zip(tree.keys, tree.values)}','        return {unastify(k): v for k, v in zip(tree.keys, tree.values)}'),
('C16','quotes.py','    bindings = extract_bindings(expander.bindings, q, u, n, a, s, t, h)','    bindings = extract_bindings(expander.bindings, q, u, n, a, s, t)'),
('C16','quotes.py','            if type(target) is not ast.Name:','            if type(target) not in (ast.Name, ast.Attribute, ast.Tuple):'),
('C16','quotes.py','            if type(stmt) is not ast.Expr:',"            if not hasattr(stmt, 'value'):"),
('C37','debug.py','        while mc.collected:','        if mc.collected:'),
('C29','repl/console.py','            sys.modules[_magic_module_name].__dict__.clear()\n',''),
('C29','repl/console.py','reload=True, self_module','reload=False, self_module'),
('C29','repl/console.py','self.expander.bindings.update(bindings)','self.expander.bindings.update({k: v for k, v in bindings.items() if k not in self.expander.bindings})'),
('C29','repl/console.py','        tree = global_postprocess(tree)\n','        global_postprocess(tree)\n'),
('C29','repl/console.py','        except (OverflowError, SyntaxError, ValueError, MacroExpansionError):\n            self.showsyntaxerror(filename)\n            return False','        except (OverflowError, SyntaxError, ValueError, MacroExpansionError):\n            self.showsyntaxerror(filename)\n            return True'),
('C30','repl/macropython.py','    spec.name = "__main__"\n',''),
('C30','repl/macropython.py','            sys.modules["__main__"] = original_main\n','            pass\n'),
('C30','repl/macropython.py','        except Exception as err:','        except ImportError as err:'),
('C30','repl/macropython.py','    sys.path.insert(0, containing_directory)','    sys.path.append(containing_directory)'),
('C32','repl/macropython.py','        if not opts.dry_run:','        if opts.dry_run is not True or opts.interactive:'),
('C32','pycachecleaner.py','topdown=False, followlinks=False','topdown=True, followlinks=False'),
('C21','splicing.py','        if not self.first:\n                    return deepcopy(body)','        if not self.first:\n                    return [deepcopy(body[0])] + body[1:]'),
('C22','splicing.py','    if not body:\n        body = [ast.copy_location(ast.Pass(), srcloc_dummynode)]\n',''),
('C40','metatools.py','    macros = [expander.bindings[name_node.id] for name_node in args]','    macros = [expander.bindings[name_node.id] for name_node in args[:1]]'),
('C41','bunch.py','self._reserved_names = dir(self)','self._reserved_names = []'),
('C41','bunch.py','return Bunch(**{k: v for k, v in self._data.items()})','return bunchify(self._data)'),
('C41','bunch.py','return Bunch(**{k: v for k, v in self._data.items()})','return Bunch(**{k: v for k, v in self._data.items() if v is not None})'),
('C41','bunch.py','self._data = other.copy()._data','self._data = other._data'),
('C41','bunch.py','self._data = other.copy()._data','self._data.update(other._data)'),
('C41','bunch.py','        if not isinstance(other, Bunch):\n            raise TypeError(f"expected Bunch, got {type(other)} with value {repr(other)}")\n',''),
('C41','bunch.py','            return self._data[name]\n        except KeyError','            return self._data.get(name)\n        except KeyError'),
('C41','bunch.py','        if name in self._reserved_names:  # prevent shadowing get, pop, et al.\n            raise AttributeError(f"Cannot write to reserved attribute \'{name}\'")\n',''),
('C41','bunch.py','        self._data[name] = value','        self._data.setdefault(name, value)'),
('C41','bunch.py','        del self._data[name]','        self._data[name] = None'),
('C41','bunch.py','        return self._data.__contains__(name)','        return self._data.get(name) is not None'),
('C41','bunch.py','        return self._data.__iter__()','        return iter(sorted(self._data))'),
('C41','bunch.py','        return len(self._data)','        return len([x for x in self._data.values() if x is not None])'),
('C41','bunch.py','        return self._data.__getitem__(name)','        return self._data.get(name)'),
('C41','bunch.py','        return self[name] if name in self else default','        return self._data.get(name)'),
('C41','bunch.py','        return self[name] if name in self else default','        return getattr(self, name, default)'),
('C41','bunch.py','        return self[name] if name in self else default','        return self._data.get(name) or default'),
('C41','bunch.py','        return other == self._data','        return other is self._data'),
('C41','bunch.py','        return other == self._data','        return len(other) == len(self._data)'),
('C41','bunch.py','        return other != self._data','        return other == self._data'),
('C41','bunch.py','        return self._data.pop(name, *default)','        return self._data.pop(name, None)'),
('C41','bunch.py','        return self._data.pop(name, *default)','        return self._data.get(name, *default)'),
('C41','bunch.py','        return self._data.clear()','        self._data = {}'),
('C41','bunch.py','        self._data.update(**bindings)','        self._data = bindings'),
('C41','bunch.py','        return self._data.setdefault(name, *default)','        return self._data.setdefault(name)'),
('C41','bunch.py','    b._data = d','    b._data = dict(d)'),
('C41','bunch.py','    b._data = d','    b.update(**d)'),
('C41','bunch.py','    if isinstance(d, Bunch):\n        return d\n',''),
('C41','bunch.py','all(isinstance(d, cls) for cls in _virtual_bases)','any(isinstance(d, cls) for cls in _virtual_bases)'),
('C41','bunch.py','    if not all(x.isidentifier() for x in d):','    if not any(x.isidentifier() for x in d):'),
('C41','bunch.py','    if not all(x.isidentifier() for x in d):','    if not all(x.isidentifier() for x in list(d)[:1]):'),
('C41','bunch.py','(Mapping, MutableMapping, Container, Iterable, Sized)','(Container, Iterable, Sized)'),
('C41','bunch.py','        return self._data.values()','        return set(self._data.values())'),
('C41','bunch.py','        return self._data.items()','        return self._data.values()'),
('C41','bunch.py','            raise AttributeError(f"{type(self).__name__} object has no attribute \'{name}\'") from err','            raise'),
('C41','bunch.py','        if name in ("_data", "_reserved_names"):','        if name in ("_data", "_reserved_names", "name"):'),
('C41','bunch.py','        return self._data.__setitem__(name, value)','        return self.__setattr__(name, value)'),
('C41','bunch.py','        return self._data.__delitem__(name)','        self._data.pop(name, None)'),
('C42','debug.py','bindings = expander.bindings if globals_too else expander.local_bindings','bindings = expander.local_bindings if globals_too else expander.bindings'),
('C42','debug.py','bindings = expander.bindings if globals_too else expander.local_bindings','bindings = expander.bindings'),
('C42','debug.py','bindings = expander.bindings if globals_too else expander.local_bindings','bindings = expander.local_bindings'),
('C42','debug.py','            for k, v in sorted(bindings.items()):\n','            for k, v in sorted(bindings.items())[:20]:\n'),
('C42','debug.py','            for k, v in sorted(bindings.items()):\n',"            for k, v in sorted(bindings.items()):\n                if k.startswith('_'):\n                    continue\n"),
('C42','debug.py','{format_macrofunction(v)}','{v.__name__}'),
('C42','debug.py','{format_macrofunction(v)}','{v.__qualname__}'),
('C42','debug.py','{k}: {format_macrofunction(v)}','{format_macrofunction(v)}'),
('C42','debug.py','        if not color:\n            return text\n',''),
('C42','debug.py','        if not color:\n            return ""\n',''),
('C42','debug.py','            output.write(maybe_colorize("    <no bindings>\\n",\n                                        ColorScheme.GREYEDOUT))\n','            pass\n'),
('C42','debug.py','def format_bindings(expander, *, globals_too=False, color=False):','def format_bindings(expander, *, globals_too=False, color=True):'),
('C42','debug.py','globals_too=False, color=True), file=sys.stderr)\n    return None','globals_too=False, color=True))\n    return None'),
('C42','debug.py','color=True), file=sys.stderr)\n    return None','color=True), file=sys.stderr)\n    return tree'),
('C42','debug.py','        if tree not in self.ignore:\n            present','        if True:\n            present'),
('C42','debug.py','            if not all(present):','            if not any(present):'),
('C42','debug.py','            if not all(present):','            if all(present):'),
('C42','debug.py','zip(self.check_fields, present) if not p]','zip(self.check_fields, present) if p]'),
('C42','debug.py','[fieldname for fieldname, p in zip(self.check_fields, present) if not p]','list(self.check_fields)'),
('C42','debug.py','[fieldname for fieldname, p in zip(self.check_fields, present) if not p]','self.check_fields'),
('C42','debug.py','        self.generic_visit(tree)\n','            return\n        self.generic_visit(tree)\n'),
('C42','debug.py','                              [fieldname for fieldname, p in zip(self.check_fields, present) if not p]))\n        self.generic_visit(tree)','                              [fieldname for fieldname, p in zip(self.check_fields, present) if not p]))\n                return\n        self.generic_visit(tree)'),
('C42','debug.py','check_fields=["lineno", "col_offset"]','check_fields=["lineno"]'),
('C42','debug.py','        self.check_fields = check_fields\n','        self.check_fields = ["lineno", "col_offset"]\n'),
('C42','debug.py','        self.ignore = ignore\n','        self.ignore = {}\n'),
('C42','colorizer.py','    return "{}{}{}".format(setcolor(colors),\n                           text,\n                           setcolor())','    return "{}{}{}".format(setcolor(colors),\n                           text,\n                           setcolor(reset=False))'),
('C42','colorizer.py','    return "{}{}{}".format(setcolor(colors),\n                           text,\n                           setcolor())','    return "{}{}".format(setcolor(colors), text)'),
('C42','colorizer.py','format(setcolor(colors),','format(setcolor(colors, reset=False),'),
('C42','colorizer.py','    out = [_setcolor(Style.RESET_ALL)] if reset else []\n    out.append(_setcolor(colors))\n','    out = [_setcolor(colors)]\n    if reset:\n        out.append(_setcolor(Style.RESET_ALL))\n'),
('C42','colorizer.py','if reset else []','if not reset else []'),
('C42','colorizer.py','if reset else []',''),
('C42','colorizer.py','def setcolor(*colors, reset=True)','def setcolor(*colors, reset=False)'),
('C42','utils.py','    code = "\\n".join(code_lines[:n])\n','    code = "\\n".join(code_lines[:n - 1])\n'),
('C42','utils.py','    code = "\\n".join(code_lines[:n])\n','    code = "\\n".join(code_lines)\n'),
('C42','utils.py','    if len(code_lines) > n:','    if len(code_lines) >= n:'),
('C42','utils.py','    if len(code_lines) > n:','    if len(code_lines) > 5:'),
('C42','utils.py','return f"{function.__module__}.{function.__qualname__}"','return f"{function.__module__}.{function.__name__}"'),
('C42','utils.py','return f"{function.__module__}.{function.__qualname__}"','return f"{function.__qualname__}.{function.__module__}"'),
('C42','utils.py','    if not function.__module__:  # Macros defined in the REPL have `__module__=None`.\n        return function.__qualname__\n','    if not function.__module__:\n        return repr(function)\n'),
('C42','utils.py','    if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):','    if not (hasattr(function, "__module__") or hasattr(function, "__qualname__")):'),
('C42','repl/utils.py','    for x in (obj, obj.__class__):','    for x in (obj,):'),
('C42','repl/utils.py','    for x in (obj, obj.__class__):','    for x in (obj.__class__, obj):'),
('C42','repl/utils.py','        except (TypeError, OSError):','        except TypeError:'),
('C42','repl/utils.py','        except (TypeError, OSError):','        except OSError:'),
('C42','repl/utils.py','            return filename, source, firstlineno','            return source, filename, firstlineno'),
('C42','repl/utils.py','    raise NotImplementedError','    raise TypeError(obj)'),
('C42','repl/utils.py','    print(inspect.cleandoc(obj.__doc__), file=file)','    print(inspect.cleandoc(obj.__doc__))'),
('C42','repl/utils.py','    print(inspect.cleandoc(obj.__doc__), file=file)','    print(inspect.cleandoc(obj.__class__.__doc__), file=file)'),
('C42','repl/utils.py','            printer(line.rstrip("\\n"))','            printer(line.strip())'),
('C42','repl/utils.py','        for line in source:','        for line in source[1:]:'),
('C42','repl/utils.py','            printer(line.rstrip("\\n"))','            if line.strip():\n                printer(line.rstrip("\\n"))'),
('C42','repl/utils.py','        printer(colorize("<no source code available>", ColorScheme.GREYEDOUT))','        pass'),
('C42','repl/utils.py','    except NotImplementedError:\n        pass\n','    except TypeError:\n        pass\n'),
('C42','repl/utils.py','    except NotImplementedError:\n        printer(','    except OSError:\n        printer('),
('C42','repl/utils.py','        return function\n','        return None\n'),
('C42','repl/utils.py','bindings[function.__name__] = function','bindings[function.__qualname__] = function'),
('C42','repl/utils.py','        if function.__name__ == "<lambda>":\n            raise TypeError("`function` must be a named function, got a lambda.")\n',''),
('C42','repl/utils.py','        if not callable(function):','        if callable(function):'),
('C42','repl/utils.py','        __macro_expander__.bindings[function.__name__] = function\n','        globals()[function.__name__] = function\n'),
('C42','astcompat.py','    if type(tree) is ast.Constant:  # Python 3.8+\n        return tree.value','    if type(tree) is ast.Constant:  # Python 3.8+\n        return tree.value or None'),
('C42','astcompat.py','    if type(tree) is ast.Constant:  # Python 3.8+\n        return tree.value','    if type(tree) is ast.Constant:  # Python 3.8+\n        return tree.kind'),
('C42','astcompat.py','    if type(tree) is ast.Constant:  # Python 3.8+\n','    if type(tree) is ast.Constant and tree.value is not None:  # Python 3.8+\n'),
('C42','astcompat.py','    raise TypeError(f"Not an AST node','    return None\n    raise TypeError(f"Not an AST node'),
('C08','expander.py','        if type(macroargs) is Tuple:','        if type(macroargs) is Tuple and macroargs.elts:'),
('C08','expander.py','        return not macroargs or isparametricmacro(self.isbound(macroname))','        return not macroargs or len(macroargs) == 1 or isparametricmacro(self.isbound(macroname))'),
('C08','expander.py','        return not macroargs or isparametricmacro(self.isbound(macroname))','        return isparametricmacro(self.isbound(macroname)) or not macroargs and not isnamemacro(self.isbound(macroname))'),
('C09','expander.py','        if not self.expander.bindings or isinstance(tree, Done):','        if not self.expander.local_bindings or isinstance(tree, Done):'),
('C09','expander.py','            for with_item in others:\n                self.visit(with_item)\n','            for with_item in others:\n                self.visit(with_item.context_expr)\n'),
('C09','expander.py','            for decorator in others:\n                self.visit(decorator)\n','            for decorator in others:\n                self.generic_visit(decorator)\n'),
('C07','expander.py','                return not (type(tree) is Name and tree.id == macroname)','                return not (type(tree) is Name)'),
('C07','expander.py','                return not (type(tree) is Name and tree.id == macroname)','                return not (tree is name)'),
('C07','expander.py','            with self._recursive_mode(False):\n                kw','            with self._recursive_mode(self.recursive):\n                kw'),
('C35','expander.py','    if not hasattr(macronode, "lineno") and not hasattr(macronode, "col_offset"):','    if not hasattr(macronode, "lineno") and not hasattr(macronode, "col_offset") or tree is None:'),
('C35','expander.py','        new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt, macroname, self.filename)','        if new_tree:\n            new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt, macroname, self.filename)'),
('C05','core.py','if isinstance(err, MacroApplicationError) and err.__cause__:','if isinstance(err, MacroApplicationError):'),
('C05','core.py','raise MacroApplicationError(msg).with_traceback(err.__traceback__) from err.__cause__','raise MacroApplicationError(msg) from err.__cause__.__cause__'),
('C06','core.py','expansion = fix_locations(expansion, target, mode="reference")','expansion = fix_locations(expansion, target, mode="update")'),
('C06','core.py','expansion = fix_ctx(expansion, copy_seen_nodes=False)','expansion = fix_ctx(expansion, copy_seen_nodes=False) if isinstance(expansion, AST) else expansion'),
('C06','core.py','    tree = fix_ctx(tree, copy_seen_nodes=True)\n','    tree = fix_ctx(tree, copy_seen_nodes=False)\n'),
('C06','core.py','        if expansion is not None:\n','        if expansion:\n'),
('C17','core.py','        bindings = self.bindings if not global_only else global_bindings','        bindings = self.local_bindings if not global_only else global_bindings'),
('C06','core.py','    for custom_postprocessor in global_postprocessors:\n        tree = custom_postprocessor(tree)\n','    for custom_postprocessor in global_postprocessors:\n        tree = custom_postprocessor(tree) or tree\n'),
('C06','core.py','    if function in global_postprocessors:\n        global_postprocessors.remove(function)','    if function in global_postprocessors:\n        del global_postprocessors[global_postprocessors.index(function):]'),
('C02','compiler.py','                delattr(package, finalcomponent)\n','                delattr(package, packagename)\n'),
('C02','compiler.py','    try:\n        yield module\n    finally:\n','    try:\n        yield module\n    except GeneratorExit:\n        raise\n    else:\n'),
('C03','compiler.py','            text = source\n','            text = source.expandtabs()\n'),
('C28','compiler.py','        if not all(isinstance(x, ast.stmt) for x in tree.body):','        if not any(isinstance(x, ast.stmt) for x in tree.body):'),
('C03','compiler.py','    if not multiphase.ismultiphase(tree):','    if not multiphase.ismultiphase(tree) or not self_module:'),
('C03','compiler.py','    check_no_markers_remaining(expansion, filename=filename)','    check_no_markers_remaining(tree, filename=filename)'),
('C28','compiler.py','    docstring = getdocstring(expansion.body)\n','    docstring = getdocstring(source.body) if isinstance(source, ast.Module) else getdocstring(expansion.body)\n'),
('C28','compiler.py','        module.__doc__ = docstring','        module.__doc__ = docstring or module.__doc__'),
('C28','compiler.py','        module.__package__ = packagename','        module.__package__ = package.__package__'),
('C04','importer.py','        if data["st_mtime_ns"] == stat_result.st_mtime_ns:','        if data["st_mtime_ns"] <= stat_result.st_mtime_ns:'),
('C04','importer.py','            stats = path_stats(origin, _stats_cache)','            stats = path_stats(origin)'),
('C04','importer.py','            mtimes.append(stats["mtime"])','            mtimes.append(int(stats["mtime"]))'),
('C04','importer.py','"mtime": max(mtimes)','"mtime": mtimes[-1] if len(mtimes) < 3 else max(mtimes)'),
('C04','importer.py','dirs[:] = [x for x in dirs if x not in ("site-packages", "dist-packages")]','dirs[:] = [x for x in dirs if x not in ("dist-packages",)]'),
('C04','importer.py','    _stats_cache[path] = result\n','    if len(mtimes) > 1: _stats_cache[path] = result\n'),
('C10','astfixers.py','            self._seen.add(id(tree))','            self._seen.add(id(tree.ctx))'),
('C10','astfixers.py','            self.withstate(tree.slice, ctxclass=Load)','            pass'),
('C10','astfixers.py','            self.withstate(tree.ifs, ctxclass=Load)','            self.withstate(tree.ifs, ctxclass=Store)'),
('C11','astfixers.py','        if "end_lineno" in tree._attributes:\n            tree.end_lineno = end_lineno','        if "end_lineno" in tree._attributes and end_lineno:\n            tree.end_lineno = end_lineno'),
('C11','astfixers.py','    if not (hasattr(reference_node, "lineno") and hasattr(reference_node, "col_offset")):','    if not (hasattr(reference_node, "lineno") and hasattr(reference_node, "end_col_offset")):'),
('C11','astfixers.py','        for child in iter_child_nodes(tree):\n            _fix(child, lineno, col_offset, end_lineno, end_col_offset)',"        for child in iter_child_nodes(tree):\n            if not hasattr(child, 'lineno') or mode != 'reference':\n                _fix(child, lineno, col_offset, end_lineno, end_col_offset)"),
('C31','activate.py','    SourceFileLoader.path_stats = stdlib_path_stats\n\n','    SourceFileLoader.path_stats = path_xstats\n\n'),
('C31','activate.py','    SourceFileLoader.source_to_code = stdlib_source_to_code\n','    SourceFileLoader.source_to_code = type(SourceFileLoader).source_to_code if False else SourceFileLoader.source_to_code\n'),
]
