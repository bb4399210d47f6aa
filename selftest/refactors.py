"""Behaviour-preserving variants: (file, old, new)."""
R = [
    ("compiler.py", '''        module_macro_bindings = find_macros(''' if False else '''    expansion = expand_macros(tree, bindings=module_macro_bindings, filename=filename)
''', '''    bb = module_macro_bindings
    expansion = _do_expand(tree, bb, filename)
''') if False else ("compiler.py", [("expansion = expand_macros(tree, bindings=module_macro_bindings, filename=filename)", "bb = module_macro_bindings\n    expansion = _do_expand(tree, bb, filename)"),
     ("def singlephase_expand(", "def _do_expand(tree, b, fn):\n    result = expand_macros(tree, filename=fn, bindings=b)\n    return result\n\n\ndef singlephase_expand(")], "helper extracted"),
    ("importer.py", [("    mtimes.append(mtime)\n", ""), ("max(mtimes)", "max(mtimes + [mtime])")], "own mtime added in the max"),
    ("expander.py", [("        original_withstmt = copy(withstmt)\n        original_withstmt.items = copy(withstmt.items)\n", "        original_withstmt = _copy_with_list(withstmt, 'items')\n"),
                     ("class MacroCollector(", "def _copy_with_list(node, fieldname):\n    other = copy(node)\n    setattr(other, fieldname, list(getattr(node, fieldname)))\n    return other\n\n\nclass MacroCollector(")], "copy helper"),
    ("expander.py", [("        tree = withstmt.body if not withstmt.items else [withstmt]\n", "        if withstmt.items:\n            tree = [withstmt]\n        else:\n            tree = withstmt.body\n"),
                     ("        kw.update({\"optional_vars\": with_item.optional_vars})\n", "        kw[\"optional_vars\"] = with_item.optional_vars\n")], "if statement, setitem"),
    ("expander.py", [("        if not (macroname and self.isbound(macroname)):\n            return False\n", "        if not macroname:\n            return False\n        macro = self.isbound(macroname)\n        if not macro:\n            return False\n"),
                     ("            return isnamemacro(self.isbound(macroname))\n        return not macroargs or isparametricmacro(self.isbound(macroname))", "            return isnamemacro(macro)\n        if not macroargs:\n            return True\n        return isparametricmacro(macro)")], "early returns"),
    ("expander.py", [("    def visit_ClassDef(self, classdef):\n        return self._visit_Decorated(classdef)\n\n    def visit_FunctionDef(self, functiondef):\n        return self._visit_Decorated(functiondef)\n\n    def visit_AsyncFunctionDef(self, functiondef):\n        return self._visit_Decorated(functiondef)\n",
                      "    def visit_ClassDef(self, classdef):\n        return self._visit_Decorated(classdef)\n\n    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef\n")], "aliases"),
    ("astfixers.py", [("        tt = type(tree)\n        if tt is Assign:\n            self.withstate(tree.targets, ctxclass=Store)\n            self.withstate(tree.value, ctxclass=Load)\n        elif tt is AnnAssign:\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.annotation, ctxclass=Load)\n            if tree.value:\n                self.withstate(tree.value, ctxclass=Load)\n        elif tt is NamedExpr:\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.value, ctxclass=Load)\n        elif tt is AugAssign:\n            # `AugStore` and `AugLoad` are for internal use only, not even\n            # meant to be exposed to the user; the compiler expects `Store`\n            # and `Load` here. https://bugs.python.org/issue39988\n            # Those internal classes are indeed deprecated in Python 3.9.\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.value, ctxclass=Load)\n\n        elif tt is Attribute:\n            # The tree's own `ctx` can be whatever, but `value` always has `Load`.\n            self.withstate(tree.value, ctxclass=Load)\n        elif tt is Subscript:\n            # The tree's own `ctx` can be whatever, but `value` and `slice` always have `Load`.\n            self.withstate(tree.value, ctxclass=Load)\n            self.withstate(tree.slice, ctxclass=Load)\n\n        elif tt is comprehension:\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.iter, ctxclass=Load)\n            self.withstate(tree.ifs, ctxclass=Load)\n\n        elif tt in (For, AsyncFor):\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.iter, ctxclass=Load)\n        elif tt is withitem:\n            self.withstate(tree.context_expr, ctxclass=Load)\n            self.withstate(tree.optional_vars, ctxclass=Store)\n\n        elif tt is Delete:\n            self.withstate(tree.targets, ctxclass=Del)\n\n        elif tt is TypeAlias:  # Python 3.12+\n            self.withstate(tree.name, ctxclass=Store)\n\n\n",
      '        for fieldname, ctxclass in _SUBTREE_CONTEXTS.get(type(tree), ()):\n            subtree = getattr(tree, fieldname)\n            if subtree:\n                self.withstate(subtree, ctxclass=ctxclass)\n\n\n_SUBTREE_CONTEXTS = {\n    Assign: (("targets", Store), ("value", Load)),\n    AnnAssign: (("target", Store), ("annotation", Load), ("value", Load)),\n    NamedExpr: (("target", Store), ("value", Load)),\n    AugAssign: (("target", Store), ("value", Load)),\n    Attribute: (("value", Load),),\n    Subscript: (("value", Load), ("slice", Load)),\n    comprehension: (("target", Store), ("iter", Load), ("ifs", Load)),\n    For: (("target", Store), ("iter", Load)),\n    AsyncFor: (("target", Store), ("iter", Load)),\n    withitem: (("context_expr", Load), ("optional_vars", Store)),\n    Delete: (("targets", Del),),\n    TypeAlias: (("name", Store),),\n}\n\n\n')], "table-driven contexts"),
    ("astfixers.py", [("        tt = type(tree)\n        if tt is Assign:\n            self.withstate(tree.targets, ctxclass=Store)\n            self.withstate(tree.value, ctxclass=Load)\n        elif tt is AnnAssign:\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.annotation, ctxclass=Load)\n            if tree.value:\n                self.withstate(tree.value, ctxclass=Load)\n        elif tt is NamedExpr:\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.value, ctxclass=Load)\n        elif tt is AugAssign:\n            # `AugStore` and `AugLoad` are for internal use only, not even\n            # meant to be exposed to the user; the compiler expects `Store`\n            # and `Load` here. https://bugs.python.org/issue39988\n            # Those internal classes are indeed deprecated in Python 3.9.\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.value, ctxclass=Load)\n\n        elif tt is Attribute:\n            # The tree's own `ctx` can be whatever, but `value` always has `Load`.\n            self.withstate(tree.value, ctxclass=Load)\n        elif tt is Subscript:\n            # The tree's own `ctx` can be whatever, but `value` and `slice` always have `Load`.\n            self.withstate(tree.value, ctxclass=Load)\n            self.withstate(tree.slice, ctxclass=Load)\n\n        elif tt is comprehension:\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.iter, ctxclass=Load)\n            self.withstate(tree.ifs, ctxclass=Load)\n\n        elif tt in (For, AsyncFor):\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.iter, ctxclass=Load)\n        elif tt is withitem:\n            self.withstate(tree.context_expr, ctxclass=Load)\n            self.withstate(tree.optional_vars, ctxclass=Store)\n\n        elif tt is Delete:\n            self.withstate(tree.targets, ctxclass=Del)\n\n        elif tt is TypeAlias:  # Python 3.12+\n            self.withstate(tree.name, ctxclass=Store)\n\n\n",
      "        if isinstance(tree, Assign):\n            self.withstate(tree.targets, ctxclass=Store)\n            self.withstate(tree.value, ctxclass=Load)\n        elif isinstance(tree, AnnAssign):\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.annotation, ctxclass=Load)\n            if tree.value:\n                self.withstate(tree.value, ctxclass=Load)\n        elif isinstance(tree, NamedExpr):\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.value, ctxclass=Load)\n        elif isinstance(tree, AugAssign):\n            # `AugStore` and `AugLoad` are for internal use only, not even\n            # meant to be exposed to the user; the compiler expects `Store`\n            # and `Load` here. https://bugs.python.org/issue39988\n            # Those internal classes are indeed deprecated in Python 3.9.\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.value, ctxclass=Load)\n\n        elif isinstance(tree, Attribute):\n            # The tree's own `ctx` can be whatever, but `value` always has `Load`.\n            self.withstate(tree.value, ctxclass=Load)\n        elif isinstance(tree, Subscript):\n            # The tree's own `ctx` can be whatever, but `value` and `slice` always have `Load`.\n            self.withstate(tree.value, ctxclass=Load)\n            self.withstate(tree.slice, ctxclass=Load)\n\n        elif isinstance(tree, comprehension):\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.iter, ctxclass=Load)\n            self.withstate(tree.ifs, ctxclass=Load)\n\n        elif isinstance(tree, (For, AsyncFor)):\n            self.withstate(tree.target, ctxclass=Store)\n            self.withstate(tree.iter, ctxclass=Load)\n        elif isinstance(tree, withitem):\n            self.withstate(tree.context_expr, ctxclass=Load)\n            self.withstate(tree.optional_vars, ctxclass=Store)\n\n        elif isinstance(tree, Delete):\n            self.withstate(tree.targets, ctxclass=Del)\n\n        elif isinstance(tree, TypeAlias):  # Python 3.12+\n            self.withstate(tree.name, ctxclass=Store)\n\n\n")], "isinstance"),
    ("unparser.py", [("    def _While(self, t):\n        self.fill(self.maybe_colorize_python_keyword(\"while \"), lineno_node=t)\n        self.dispatch(t.test)\n        self.enter()\n        self.dispatch(t.body)\n        self.leave()\n        if t.orelse:\n            self.fill(self.maybe_colorize_python_keyword(\"else\"), lineno_node=t)\n            self.enter()\n            self.dispatch(t.orelse)\n            self.leave()\n",
       "    def _block(self, body):\n        self.enter()\n        self.dispatch(body)\n        self.leave()\n\n    def _else_block(self, t):\n        if not t.orelse:\n            return\n        self.fill(self.maybe_colorize_python_keyword(\"else\"), lineno_node=t)\n        self._block(t.orelse)\n\n    def _While(self, t):\n        self.fill(self.maybe_colorize_python_keyword(\"while \"), lineno_node=t)\n        self.dispatch(t.test)\n        self._block(t.body)\n        self._else_block(t)\n")], "block helpers"),
    ("unparser.py", [("        self.write(\"(\")\n        comma = False\n        for e in t.args:\n            if comma:\n                self.write(\", \")\n            else:\n                comma = True\n            self.dispatch(e)\n        for e in t.keywords:\n            if comma:\n                self.write(\", \")\n            else:\n                comma = True\n            self.dispatch(e)\n        self.write(\")\")\n\n    def _FormattedValue(",
       "        self.write(\"(\")\n        for i, e in enumerate(t.args + t.keywords):\n            if i > 0:\n                self.write(\", \")\n            self.dispatch(e)\n        self.write(\")\")\n\n    def _FormattedValue(")], "one loop with enumerate"),
    ("unparser.py", [("        self.write(\"(\")\n        comma = False\n        for e in t.args:\n            if comma:\n                self.write(\", \")\n            else:\n                comma = True\n            self.dispatch(e)\n        for e in t.keywords:\n            if comma:\n                self.write(\", \")\n            else:\n                comma = True\n            self.dispatch(e)\n        self.write(\")\")\n\n    def _FormattedValue(",
       "        self.write(\"(\")\n        interleave(lambda: self.write(\", \"), self.dispatch, [*t.args, *t.keywords])\n        self.write(\")\")\n\n    def _FormattedValue(")], "interleave over a display"),
    ("unparser.py", [("        interleave(lambda: self.write(\", \"), self.write, t.names)\n\n    def _Nonlocal", "        self.write(\", \".join(t.names))\n\n    def _Nonlocal")], "join"),
    ("unparser.py", [("        self.write(\" \" + self.binop[t.op.__class__.__name__] + \" \")\n        self.dispatch(t.right)", "        op = self.binop[type(t.op).__name__]\n        self.write(f\" {op} \")\n        self.dispatch(t.right)")], "f-string"),
    ("unparser.py", [("        if t.conversion == 115:\n            self.write(c(\"!s\"))\n        elif t.conversion == 114:\n            self.write(c(\"!r\"))\n        elif t.conversion == 97:\n            self.write(c(\"!a\"))\n        elif t.conversion == -1:  # no formatting\n            pass\n        else:\n            raise ValueError(f\"Don't know how to unparse conversion code {t.conversion}\")\n",
       "        conversions = {115: \"!s\", 114: \"!r\", 97: \"!a\", -1: \"\"}\n        if t.conversion not in conversions:\n            raise ValueError(f\"Don't know how to unparse conversion code {t.conversion}\")\n        if conversions[t.conversion]:\n            self.write(c(conversions[t.conversion]))\n")], "conversion table"),
    ("unparser.py", [("        if t.value:\n            self.write(\" \")\n            self.dispatch(t.value)\n\n    def _Pass", "        value = t.value\n        if value is None:\n            return\n        self.write(\" \")\n        self.dispatch(value)\n\n    def _Pass")], "early return"),
    ("unparser.py", [("        while (t.orelse and len(t.orelse) == 1 and\n               isinstance(t.orelse[0], ast.If)):\n            t = t.orelse[0]\n", "        def is_elif(branch):\n            return len(branch) == 1 and type(branch[0]) is ast.If\n        while is_elif(t.orelse):\n            (t,) = t.orelse\n")], "elif predicate"),
    ("unparser.py", [("        defaults = [None] * (nposargs - len(t.defaults)) + t.defaults\n", "        missing = nposargs - len(t.defaults)\n        defaults = [None for _ in range(missing)]\n        defaults.extend(t.defaults)\n")], "padding by comprehension"),
    ("unparser.py", [("            for a, d in zip(t.kwonlyargs, t.kw_defaults):\n", "            for i in range(len(t.kwonlyargs)):\n                a, d = t.kwonlyargs[i], t.kw_defaults[i]\n")], "index loop"),
    ("unparser.py", [("        def write_pair(pair):\n            (k, v) = pair\n            if k is None:  # dictionary unpacking, `{**d}`\n                self.write(\"**\")\n            else:\n                self.dispatch(k)\n                self.write(\": \")\n            self.dispatch(v)\n        interleave(lambda: self.write(\", \"), write_pair, zip(t.keys, t.values))\n", "        first = True\n        for k, v in zip(t.keys, t.values):\n            if not first:\n                self.write(\", \")\n            first = False\n            if k is not None:\n                self.dispatch(k)\n                self.write(\": \")\n            else:\n                self.write(\"**\")\n            self.dispatch(v)\n")], "flag loop"),
    ("unparser.py", [("    def _Import(self, t):\n        self.fill(self.maybe_colorize_python_keyword(\"import \"), lineno_node=t)\n        interleave(lambda: self.write(\", \"), self.dispatch, t.names)", "    def _comma_separated(self, nodes, f=None):\n        f = f or self.dispatch\n        it = iter(nodes)\n        for node in it:\n            f(node)\n            break\n        for node in it:\n            self.write(\", \")\n            f(node)\n\n    def _Import(self, t):\n        self.fill(self.maybe_colorize_python_keyword(\"import \"), lineno_node=t)\n        self._comma_separated(t.names)")], "own interleave"),
    ("unparser.py", [("        for target in t.targets:\n            self.dispatch(target)\n            self.write(\" = \")\n        self.dispatch(t.value)", "        for subtree in [*t.targets, t.value]:\n            if subtree is not t.targets[0]:\n                self.write(\" = \")\n            self.dispatch(subtree)")], "separator before"),
    ("utils.py", [("                for j in range(len(tree.names)):\n                    if tree.names[j] == oldname:\n                        tree.names[j] = newname\n", "                tree.names = [newname if name == oldname else name for name in tree.names]\n"),
       ("                for j in range(len(tree.kwd_attrs)):\n                    if tree.kwd_attrs[j] == oldname:\n                        tree.kwd_attrs[j] = newname\n", "                for j, attr in enumerate(tree.kwd_attrs):\n                    if attr != oldname:\n                        continue\n                    tree.kwd_attrs[j] = newname\n")], "rename: comprehension, enumerate"),
    ("utils.py", [("            if T is ast.Name:\n                if tree.id == oldname:\n                    tree.id = newname\n", "            def replace_in(fieldname):\n                if getattr(tree, fieldname) == oldname:\n                    setattr(tree, fieldname, newname)\n            if T is ast.Name:\n                replace_in(\"id\")\n"),
       ("                if tree.name == oldname:\n                    tree.name = newname\n                if tree.asname == oldname:\n                    tree.asname = newname\n", "                for fieldname in (\"name\", \"asname\"):\n                    replace_in(fieldname)\n")], "rename: field helper"),
    ("utils.py", [("    class Renamer(walkers.ASTTransformer):\n        def transform(self, tree):\n", "    def new(name):\n        return newname if name == oldname else name\n\n    class Renamer(walkers.ASTTransformer):\n        def transform(self, tree):\n"),
       ("                if tree.attr == oldname:\n                    tree.attr = newname\n", "                tree.attr = new(tree.attr)\n"),
       ("                for j in range(len(tree.names)):\n                    if tree.names[j] == oldname:\n                        tree.names[j] = newname\n", "                tree.names[:] = [new(name) for name in tree.names]\n")], "rename: value helper"),
    ("utils.py", [("            T = type(tree)\n            if T is ast.Name:\n", "            T = type(tree)\n            for fieldname in _IDENTIFIER_FIELDS.get(T, ()):\n                value = getattr(tree, fieldname, None)\n                if isinstance(value, list):\n                    for j in range(len(value)):\n                        if value[j] == oldname:\n                            value[j] = newname\n                elif value == oldname:\n                    setattr(tree, fieldname, newname)\n            return self.generic_visit(tree)\n            if T is ast.Name:\n"),
       ("def rename(oldname", "_IDENTIFIER_FIELDS = {ast.Name: (\"id\",), ast.Attribute: (\"attr\",), ast.FunctionDef: (\"name\",), ast.AsyncFunctionDef: (\"name\",), ast.ClassDef: (\"name\",),\n                      ast.arg: (\"arg\",), ast.keyword: (\"arg\",), ast.ImportFrom: (\"module\",), ast.alias: (\"name\", \"asname\"), ast.ExceptHandler: (\"name\",),\n                      ast.Global: (\"names\",), ast.Nonlocal: (\"names\",), MatchAs: (\"name\",), MatchStar: (\"name\",), MatchMapping: (\"rest\",), MatchClass: (\"kwd_attrs\",),\n                      TypeVar: (\"name\",), ParamSpec: (\"name\",), TypeVarTuple: (\"name\",)}\n\n\ndef rename(oldname")], "rename: table"),
    ("utils.py", [("    class Renamer(walkers.ASTTransformer):\n        def transform(self, tree):\n            T = type(tree)\n", "    class Renamer(walkers.ASTTransformer):\n        def transform(self, tree):\n            self._rename_in(tree)\n            return self.generic_visit(tree)\n\n        def _rename_in(self, tree):\n            T = type(tree)\n"),
       ("            # Python 3.12+: `type` statement needs no special-casing here, as it uses a `Name` node for its LHS.\n            return self.generic_visit(tree)\n", "")], "rename: method extracted"),
    ("quotes.py", [("        if T is Unquote:  # `u[]`", "        def delayed(name, *args):\n            return ast.Call(_mcpyrate_quotes_attr(name), list(args), [])\n\n        if T is Unquote:  # `u[]`"),
       ("            return ast.Call(_mcpyrate_quotes_attr(\"astify\"), [x.body], [])", "            return delayed(\"astify\", x.body)"),
       ("            return ast.Call(_mcpyrate_quotes_attr(\"ast_list\"), [x.body], [])", "            return delayed(\"ast_list\", x.body)"),
       ("            return ast.Call(_mcpyrate_quotes_attr(\"lift_sourcecode\"),\n                            [x.body,\n                             ast.Constant(value=x.filename)],\n                            [])", "            return delayed(\"lift_sourcecode\", x.body, ast.Constant(value=x.filename))")], "astify: helper for delayed calls"),
    ("quotes.py", [("            return ast.List(elts=list(recurse(elt) for elt in x))", "            return ast.List(elts=[recurse(elt) for elt in x])"),
       ("            return ast.Dict(keys=list(recurse(k) for k in x.keys()),\n                            values=list(recurse(v) for v in x.values()))", "            keys = []\n            values = []\n            for k, v in x.items():\n                keys.append(recurse(k))\n                values.append(recurse(v))\n            return ast.Dict(keys=keys, values=values)")], "astify: loops rewritten"),
    ("quotes.py", [("            body, filename = tree.args[0], tree.args[1].value\n            return LiftSourcecode(body, filename)", "            body, filename_node = tree.args\n            return LiftSourcecode(body=body, filename=filename_node.value)"),
       ("            args = unastify(tree.args)\n            kwargs = {k: v for k, v in unastify(tree.keywords)}\n            node = callee(*args, **kwargs)\n            node = ast.copy_location(node, tree)\n            return node", "            kwargs = dict(unastify(tree.keywords))\n            return ast.copy_location(callee(*unastify(tree.args), **kwargs), tree)")], "unastify: arguments"),
    ("quotes.py", "        if isinstance(thing, list):\n            newthing = []\n            for item in thing:\n                if isinstance(item, SpliceNodes):\n                    doit(item.body)\n                    # Discard the `SpliceNodes` marker and splice the `list` that was contained in it.\n                    newthing.extend(item.body)\n                else:\n                    doit(item)\n                    newthing.append(item)\n            thing[:] = newthing\n", "        if isinstance(thing, list):\n            newthing = []\n            for item in thing:\n                isplice = isinstance(item, SpliceNodes)\n                items = item.body if isplice else [item]\n                doit(item.body if isplice else item)\n                newthing += items\n            thing[:] = newthing\n", "splice_ast_literals: merged branches"),
    ("quotes.py", "        key_node = tree.args[0]\n        name_node, frozen_value_node = key_node.elts\n        assert type(name_node) is ast.Constant and type(name_node.value) is str\n        assert type(frozen_value_node) is ast.Constant and type(frozen_value_node.value) is bytes\n        return (name_node.value, frozen_value_node.value)", "        name, frozen_value = (elt.value for elt in tree.args[0].elts)\n        assert type(name) is str\n        assert type(frozen_value) is bytes\n        return name, frozen_value", "is_captured_value: unpacking"),
    ("quotes.py", [("    frozen_value = pickle.dumps(value)\n    return ast.Call(_mcpyrate_quotes_attr(\"lookup_value\", force_import=True),\n                    [ast.Tuple(elts=[ast.Constant(value=name),\n                                     ast.Constant(value=frozen_value)])],\n                    [])", "    key = (name, pickle.dumps(value))\n    return ast.Call(_mcpyrate_quotes_attr(\"lookup_value\", force_import=True),\n                    [ast.Tuple(elts=[ast.Constant(value=x) for x in key])],\n                    [])")], "capture_value: key tuple"),
    ("quotes.py", [("        T = type(x)\n\n        # Compile", "        T = x.__class__\n\n        # Compile")], "astify: __class__"),
    ("coreutils.py", [("import ast\nimport importlib\n", "import ast\nimport functools\nimport importlib\n"), ("    value = mcpyrate_module\n    for name in dotted_name.split(\".\"):\n        value = ast.Attribute(value=value, attr=name)\n\n    return value\n", "    return functools.reduce(lambda value, name: ast.Attribute(value=value, attr=name), dotted_name.split(\".\"), mcpyrate_module)\n")], "_mcpyrate_attr: reduce"),
    ("quotes.py", [("def u(tree, *, syntax", "def _check_unquote(name, syntax, kinds=(\"expr\",)):\n    if syntax not in kinds:\n        raise SyntaxError(f\"`{name}` is not a {syntax} macro\")\n    if not _quotelevel.value:\n        raise SyntaxError(f\"`{name}` encountered while quotelevel < 1\")\n\n\ndef u(tree, *, syntax"),
       ("    if syntax != \"expr\":\n        raise SyntaxError(\"`u` is an expr macro only\")\n    if _quotelevel.value < 1:\n        raise SyntaxError(\"`u` encountered while quotelevel < 1\")\n", "    _check_unquote(\"u\", syntax)\n"),
       ("    if syntax not in (\"expr\", \"block\"):\n        raise SyntaxError(\"`a` is an expr and block macro only\")\n    if _quotelevel.value < 1:\n        raise SyntaxError(\"`a` encountered while quotelevel < 1\")\n", "    _check_unquote(\"a\", syntax, (\"expr\", \"block\"))\n")], "unquotes: shared checks"),
    ("quotes.py", [("    with _quotelevel.changed_by(-1):\n        tree = expander.visit_recursively(tree)\n        if _quotelevel.value > 0:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        return ASTTuple(tree)", "    return _unquote(tree, expander, invocation, ASTTuple)"),
       ("    with _quotelevel.changed_by(-1):\n        tree = expander.visit_recursively(tree)\n        if _quotelevel.value > 0:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        return ASTList(tree)", "    return _unquote(tree, expander, invocation, ASTList)"),
       ("    with _quotelevel.changed_by(-1):\n        tree = expander.visit_recursively(tree)\n        if _quotelevel.value > 0:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n        return LiftSourcecode(tree, expander.filename)", "    return _unquote(tree, expander, invocation, lambda body: LiftSourcecode(body, expander.filename))"),
       ("def u(tree, *, syntax", "def _unquote(tree, expander, invocation, marker):\n    with _quotelevel.changed_by(-1):\n        tree = expander.visit_recursively(tree)\n        outermost = _quotelevel.value == 0\n    if outermost:\n        return marker(tree)\n    return _replace_tree_in_macro_invocation(invocation, tree)\n\n\ndef u(tree, *, syntax")], "unquotes: shared body"),
    ("quotes.py", [("        if _quotelevel.value > 1:  # nested inside an outer quote?\n            # TODO: Implications when in block mode and not the only context manager in the `with`?\n            # TODO: Probably doesn't work in that case. Document that `q`, when used,\n            # TODO: should be the only ctxmgr in that particular `with`.\n            return _replace_tree_in_macro_invocation(invocation, tree)\n\n        tree = delete_markers(tree, cls=QuasiquoteSearchDone)\n\n        tree = astify(tree, expander)", "        if _quotelevel.value >= 2:\n            return _replace_tree_in_macro_invocation(invocation, tree)\n\n        tree = astify(delete_markers(tree, cls=QuasiquoteSearchDone), expander=expander)"),
       ("        out = []\n        for stmt in tree:\n            if type(stmt) is not ast.Expr:\n                raise SyntaxError(\"`a` (block mode): each item in the body must be an expression (that at run time evaluates to a statement node or iterable of statement nodes)\")\n            out.append(stmt.value)\n        return ASTLiteral(ast.List(elts=out), syntax)", "        if any(type(stmt) is not ast.Expr for stmt in tree):\n            raise SyntaxError(\"`a` (block mode): each item in the body must be an expression (that at run time evaluates to a statement node or iterable of statement nodes)\")\n        return ASTLiteral(ast.List(elts=[stmt.value for stmt in tree]), syntax)")], "q and a rearranged"),
    ("utils.py", [("        @contextmanager\n        def _set_to():\n            self.stack.append(value)\n            try:\n                yield\n            finally:\n                self.stack.pop()\n                assert self.stack  # postcondition\n        return _set_to()", "        return self._scope(value)\n\n    @contextmanager\n    def _scope(self, value):\n        self.stack.append(value)\n        try:\n            yield\n        finally:\n            del self.stack[-1]\n            assert self.stack")], "tracker: method"),
    ("utils.py", [("        self.stack = [start]\n", "        self._level = start\n"), ("        return self.stack[-1]\n    value", "        return self._level\n    value"),
       ("        def _set_to():\n            self.stack.append(value)\n            try:\n                yield\n            finally:\n                self.stack.pop()\n                assert self.stack  # postcondition\n", "        def _set_to():\n            saved, self._level = self._level, value\n            try:\n                yield\n            finally:\n                self._level = saved\n")], "tracker: number instead of stack"),
    ("utils.py", [("    def _get_value(self):\n        return self.stack[-1]\n    value = property(fget=_get_value, doc=\"The current level. Read-only. Use `set_to` or `change_by` to change.\")", "    @property\n    def value(self):\n        \"\"\"The current level. Read-only. Use `set_to` or `change_by` to change.\"\"\"\n        return self.stack[-1]")], "tracker: property decorator"),
    ("quotes.py", [("    cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently\n    if cachekey not in _lookup_cache:\n        # Keep `frozen_value` alive, so that its `id` will not be reused while the entry exists.\n        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))\n    return _lookup_cache[cachekey][1]", "    cachekey = (name, id(frozen_value))\n    entry = _lookup_cache.get(cachekey)\n    if entry is None:\n        entry = _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))\n    _, value = entry\n    return value")], "lookup_value: get"),
    ("quotes.py", [("    cachekey = (name, id(frozen_value))  # id() so each capture instance behaves independently\n    if cachekey not in _lookup_cache:\n        # Keep `frozen_value` alive, so that its `id` will not be reused while the entry exists.\n        _lookup_cache[cachekey] = (frozen_value, pickle.loads(frozen_value))\n    return _lookup_cache[cachekey][1]", "    cachekey = (id(frozen_value), name)\n    try:\n        return _lookup_cache[cachekey].value\n    except KeyError:\n        value = pickle.loads(frozen_value)\n        _lookup_cache[cachekey] = _Entry(frozen_value, value)\n        return value"),
      ("_lookup_cache = {}\n", "class _Entry:\n    def __init__(self, frozen_value, value):\n        self.frozen_value = frozen_value\n        self.value = value\n\n\n_lookup_cache = {}\n")], "lookup_value: try and entry class"),
    ("quotes.py", [("    if unique_name not in global_bindings:\n        global_bindings[unique_name] = pickle.loads(frozen_macro)\n    return ast.Name(id=unique_name)", "    try:\n        global_bindings[unique_name]\n    except KeyError:\n        global_bindings[unique_name] = pickle.loads(frozen_macro)\n    return ast.Name(unique_name)")], "lookup_macro: try"),
    ("quotes.py", [("    name, frozen_value = key\n", "    name = key[0]\n    frozen_value = key[1]\n"), ("    frozen_macro = pickle.dumps(macro)\n    name = macro.__name__\n    return lookup_macro((name, gensym(name), frozen_macro))", "    return lookup_macro(_macro_key(macro, macro.__name__))"),
       ("    frozen_macro = pickle.dumps(macro)\n    name = scrub_uuid(name)\n    return ast.Call(_mcpyrate_quotes_attr(\"lookup_macro\"),\n                    [ast.Tuple(elts=[ast.Constant(value=name),\n                                     ast.Constant(value=gensym(name)),\n                                     ast.Constant(value=frozen_macro)])],\n                    [])", "    name, unique_name, frozen_macro = _macro_key(macro, scrub_uuid(name))\n    return ast.Call(_mcpyrate_quotes_attr(\"lookup_macro\"),\n                    [ast.Tuple(elts=[ast.Constant(value=name),\n                                     ast.Constant(value=unique_name),\n                                     ast.Constant(value=frozen_macro)])],\n                    [])"),
       ("def capture_macro(macro, name):", "def _macro_key(macro, name):\n    return name, gensym(name), pickle.dumps(macro)\n\n\ndef capture_macro(macro, name):")], "capture: key helper"),
    ("utils.py", [("    def generate():\n        unique = str(uuid.uuid4()).replace(\"-\", \"\")\n        return f\"{basename}{unique}\"\n    sym = generate()\n", ""), ("    while sym in _previous_gensyms:\n        sym = generate()  # pragma: no cover\n", "    while True:\n        sym = basename + uuid.uuid4().hex\n        if sym not in _previous_gensyms:\n            break\n")], "gensym: while True"),
    ("utils.py", [("    def generate():\n        unique = str(uuid.uuid4()).replace(\"-\", \"\")\n        return f\"{basename}{unique}\"\n", ""), ("    sym = generate()\n", "    sym = _fresh(basename)\n"), ("        sym = generate()  # pragma", "        sym = _fresh(basename)  # pragma"), ("_previous_gensyms = set()\n", "_previous_gensyms = set()\ndef _fresh(prefix):\n    return \"{}{}\".format(prefix, str(uuid.uuid4()).replace(\"-\", \"\"))\n")], "gensym: helper and format"),
    ("utils.py", [("    if basename is None:\n        basename = \"gensym_\"\n    elif len(basename):\n        basename = basename + \"_\"\n    # else basename = \"\"\n", "    prefix = \"gensym_\" if basename is None else f\"{basename}_\" if basename else \"\"\n"), ("{basename}{unique}", "{prefix}{unique}")], "gensym: conditional expression"),
    ("utils.py", [("    sym = generate()\n    # The uuid spec does not guarantee no collisions, only a vanishingly small chance.\n    while sym in _previous_gensyms:\n        sym = generate()  # pragma: no cover\n", "    while (sym := generate()) in _previous_gensyms:\n        pass\n")], "gensym: walrus"),
    ("utils.py", [("_previous_gensyms = set()\n", "_previous_gensyms = {}\n"), ("_previous_gensyms.add(sym)", "_previous_gensyms[sym] = True")], "gensym: dict register"),
    ("coreutils.py", [("        bindings[name.asname or name.name] = macro", "        target = name.name if name.asname is None else name.asname\n        bindings[target] = macro")], "get_macros: conditional"),
    ("coreutils.py", [("    for name in macroimport.names[1:]:  # skip the \"macros\" in `from ... import macros, ...`\n", "    _, *names = macroimport.names\n    for name in names:\n")], "get_macros: star unpacking"),
    ("expander.py", [("    stmts_to_delete = []\n    bindings = {}\n    for index, statement in enumerate(tree.body):\n        if ismacroimport(statement):\n", "    bindings = {}\n    new_body = []\n    for statement in tree.body:\n        if not ismacroimport(statement):\n            new_body.append(statement)\n        else:\n"),
      ("                    if dummies is not None:  # had location info?\n                        tree.body[index] = dummies[0]\n                    else:\n                        stmts_to_delete.append(index)\n", "                    if dummies is not None:\n                        new_body.append(dummies[0])\n"),
      ("                    tree.body[index] = copy_location(Import(names=[thealias]),\n                                                     statement)\n", "                    new_body.append(copy_location(Import(names=[thealias]), statement))\n            else:\n                new_body.append(statement)\n"),
      ("    for index in reversed(stmts_to_delete):\n        tree.body.pop(index)\n", "    tree.body[:] = new_body\n")], "find_macros: new body"),
    ("expander.py", [("    for index in reversed(stmts_to_delete):", "    for index in sorted(stmts_to_delete, reverse=True):"), ("        tree.body.pop(index)\n", "        del tree.body[index]\n")], "find_macros: sorted deletion"),
    ("expander.py", [("        if ismacroimport(statement):\n            module_absname, more", "        if not ismacroimport(statement):\n            continue\n        if True:\n            module_absname, more")], "find_macros: continue"),
    ("expander.py", [("                    thealias = copy_location(alias(name=module_absname, asname=None),\n                                             statement)\n                    tree.body[index] = copy_location(Import(names=[thealias]),\n                                                     statement)", "                    tree.body[index] = _plain_import(module_absname, statement)"), ("def find_macros(", "def _plain_import(name, original):\n    names = [copy_location(alias(name=name, asname=None), original)]\n    return copy_location(Import(names=names), original)\n\n\ndef find_macros(")], "find_macros: helper"),
    ("coreutils.py", [("    if isinstance(statement, ast.ImportFrom):\n        firstimport = statement.names[0]\n        if firstimport.name == magicname and firstimport.asname is None:\n            return True\n    return False", "    if not isinstance(statement, ast.ImportFrom):\n        return False\n    first = statement.names[0]\n    return first.name == magicname and first.asname is None")], "ismacroimport: expression"),
    ("coreutils.py", [("        try:\n            macro = getattr(module, name.name)\n        except AttributeError as err:\n", "        if not hasattr(module, name.name):\n            err = None\n"), ("            raise ImportError(f\"{loc}\\ncannot import name '{name.name}' from module {module_absname}\") from err\n", "            raise ImportError(f\"{loc}\\ncannot import name '{name.name}' from module {module_absname}\") from err\n        macro = getattr(module, name.name)\n")], "get_macros: hasattr"),
    ("coreutils.py", [("            approx_sourcecode = unparse_with_fallbacks(macroimport, debug=True, color=True)\n            loc = format_location(filename, macroimport, approx_sourcecode)\n            raise ModuleNotFoundError(f\"{loc}\\nNo module named {module_absname}\") from err", "            raise ModuleNotFoundError(f\"{_use_site(filename, macroimport)}\\nNo module named {module_absname}\") from err"), ("def get_macros(", "def _use_site(filename, stmt):\n    text = unparse_with_fallbacks(stmt, debug=True, color=True)\n    return format_location(filename, stmt, text)\n\n\ndef get_macros(")], "get_macros: location helper"),
    ("coreutils.py", [("        if root_path == path or root_path in path.parents:", "        if path.is_relative_to(root_path):")], "match: is_relative_to"),
    ("coreutils.py", [("        if root_path == path or root_path in path.parents:", "        if root_path in (path, *path.parents):")], "match: tuple"),
    ("coreutils.py", [("        if root_path == path or root_path in path.parents:", "        if absolute_filename == str(root_path) or absolute_filename.startswith(str(root_path).rstrip(os.path.sep) + os.path.sep):")], "match: text with separator"),
    ("coreutils.py", [("    def sortkey(root_path):\n        return -len(root_path.parts), str(root_path)\n", ""), ("key=sortkey)", "key=lambda p: (-len(p.parts), str(p)))")], "match: lambda"),
    ("coreutils.py", [("    def sortkey(root_path):\n        return -len(root_path.parts), str(root_path)\n", "    roots = [pathlib.Path(s).expanduser().resolve() for s in sys.path]\n    roots.sort(key=lambda p: len(p.parts), reverse=True)\n"), ("    for root_path in sorted((pathlib.Path(s).expanduser().resolve() for s in sys.path), key=sortkey):", "    for root_path in roots:")], "match: list.sort"),
    ("coreutils.py", [("    for root_path in sorted((pathlib.Path(s).expanduser().resolve() for s in sys.path), key=sortkey):\n        if root_path == path or root_path in path.parents:\n            return root_path\n", "    roots = {pathlib.Path(s).expanduser().resolve() for s in sys.path}\n    for candidate in [path, *path.parents]:\n        if candidate in roots:\n            return candidate\n")], "match: candidates"),
    ("coreutils.py", [("    for root_path in sorted((pathlib.Path(s).expanduser().resolve() for s in sys.path), key=sortkey):\n        if root_path == path or root_path in path.parents:\n            return root_path\n", "    found = [r for r in (pathlib.Path(s).expanduser().resolve() for s in sys.path) if r == path or r in path.parents]\n    if found:\n        return min(found, key=sortkey)\n")], "match: min of the found"),
    ("coreutils.py", [("    relative_path = absolute_filename[len(str(root_path)):]\n    if relative_path.startswith(os.path.sep):\n        relative_path = relative_path[len(os.path.sep):]\n    return root_path, relative_path", "    rest = absolute_filename[len(str(root_path)):]\n    return root_path, rest.lstrip(os.path.sep)")], "relativize: lstrip"),
    ("coreutils.py", [("    package_dotted_name = relative_path.replace(os.path.sep, \".\")\n", "    package_dotted_name = \".\".join(relative_path.split(os.path.sep))\n")], "resolve: split and join"),
    ("coreutils.py", [("    package_dotted_name = relative_path.replace(os.path.sep, \".\")\n", "    package_dotted_name = \".\".join(pathlib.Path(relative_path).parts)\n"), ("    if not relative_path:", "    if relative_path == \"\":")], "resolve: parts"),
    ("coreutils.py", [("    absolute_filename = str(pathlib.Path(filename).expanduser().resolve())\n    root_path =", "    absolute_filename = _canonical(filename)\n    root_path ="), ("    absolute_filename = str(pathlib.Path(filename).expanduser().resolve())\n    # Match", "    absolute_filename = _canonical(filename)\n    # Match"), ("def relativize(", "def _canonical(filename):\n    return str(pathlib.Path(filename).expanduser().resolve())\n\n\ndef relativize(")], "canonical helper"),
    ("splicing.py", [("                if not self.first:\n                    return deepcopy(expr)\n                self.first = False\n                return expr", "                return deepcopy(expr)")], "splice_expression: always copies"),
    ("splicing.py", [("                if not self.first:\n                    return deepcopy(body)\n                self.first = False\n                return body\n            return self.generic_visit(tree)", "                result = body if self.first else deepcopy(body)\n                self.first = False\n                return result\n            self.generic_visit(tree)\n            return tree")], "splice_statements: conditional"),
    ("splicing.py", [("    def ispastehere(tree):\n        return type(tree) is ast.Name and tree.id == tag\n", ""), ("            if ispastehere(tree):\n                if not self.first:\n                    return deepcopy(expr)\n", "            if isinstance(tree, ast.Name) and tree.id == tag:\n                if not self.first:\n                    return deepcopy(expr)\n")], "splice_expression: inlined test"),
    ("splicing.py", [("        def __init__(self):\n            self.first = True\n            super().__init__()\n\n        def transform(self, tree):\n            if ispastehere(tree):\n                if not self.first:\n                    return deepcopy(expr)\n                self.first = False\n                return expr", "        def transform(self, tree):\n            if ispastehere(tree):\n                if self.state.used:\n                    return deepcopy(expr)\n                self.state.used = True\n                return expr"), ("ExpressionSplicer().visit", "ExpressionSplicer(used=False).visit")], "splice_expression: walker state"),
    ("splicing.py", [("    class ExpressionSplicer(ASTTransformer):\n        def __init__(self):\n            self.first = True\n            super().__init__()\n\n        def transform(self, tree):\n            if ispastehere(tree):\n                if not self.first:\n                    return deepcopy(expr)\n                self.first = False\n                return expr\n            return self.generic_visit(tree)\n\n    return ExpressionSplicer().visit(template)\n", "    return _Splicer(ispastehere, expr).visit(template)\n"), ("    class StatementSplicer(ASTTransformer):\n        def __init__(self):\n            self.first = True\n            super().__init__()\n\n        def transform(self, tree):\n            if ispastehere(tree):\n                if not self.first:\n                    return deepcopy(body)\n                self.first = False\n                return body\n            return self.generic_visit(tree)\n\n    return StatementSplicer().visit(template)\n", "    return _Splicer(ispastehere, body).visit(template)\n"), ("def splice_expression(", "class _Splicer(ASTTransformer):\n    def __init__(self, isplaceholder, content):\n        self.isplaceholder = isplaceholder\n        self.content = content\n        self.first = True\n        super().__init__()\n\n    def transform(self, tree):\n        if self.isplaceholder(tree):\n            if not self.first:\n                return deepcopy(self.content)\n            self.first = False\n            return self.content\n        return self.generic_visit(tree)\n\n\ndef splice_expression(")], "one splicer class"),
    ("splicing.py", [("    if isinstance(body, ast.AST):\n        body = [body]\n    if isinstance(template, ast.AST):\n        template = [template]\n    if not body:\n        raise ValueError(\"expected at least one statement in `body`\")\n    if not template:\n        return body\n\n    def isp", "    body = _aslist(body)\n    template = _aslist(template)\n    if len(body) == 0:\n        raise ValueError(\"expected at least one statement in `body`\")\n    if len(template) == 0:\n        return body\n\n    def isp"), ("def splice_statements(", "def _aslist(x):\n    return [x] if isinstance(x, ast.AST) else x\n\n\ndef splice_statements(")], "splice_statements: aslist"),
    ("splicing.py", [("    return (docstring +\n            futureimports +\n            user_magic_all +\n            template_dialect_imports + user_dialect_imports +\n            template_macro_imports + user_macro_imports +\n            finalbody)", "    return [*docstring, *futureimports, *user_magic_all,\n            *template_dialect_imports, *user_dialect_imports,\n            *template_macro_imports, *user_macro_imports,\n            *finalbody]")], "splice_dialect: unpacking"),
    ("splicing.py", [("    return (docstring +\n            futureimports +\n            user_magic_all +\n            template_dialect_imports + user_dialect_imports +\n            template_macro_imports + user_macro_imports +\n            finalbody)", "    out = list(docstring)\n    out.extend(futureimports)\n    out.extend(user_magic_all)\n    out += template_dialect_imports + user_dialect_imports\n    out += template_macro_imports + user_macro_imports\n    out += finalbody\n    return out")], "splice_dialect: extend"),
    ("splicing.py", [("    template, template_dialect_imports = extract_macroimports(template, magicname=\"dialects\")\n    template, template_macro_imports = extract_macroimports(template)\n    body, user_dialect_imports = extract_macroimports(body, magicname=\"dialects\")\n    body, user_macro_imports = extract_macroimports(body)\n", "    body, user_dialect_imports = extract_macroimports(body, magicname=\"dialects\")\n    body, user_macro_imports = extract_macroimports(body, magicname=\"macros\")\n    template, template_dialect_imports = extract_macroimports(template, magicname=\"dialects\")\n    template, template_macro_imports = extract_macroimports(template)\n")], "splice_dialect: order of extraction"),
    ("splicing.py", [("    # Combine user and template docstrings if both are defined.\n    if user_docstring and template_docstring:\n", "    docstring = _combine(user_docstring, template_docstring)\n    if False:\n"), ("        docstring = [new_docstring]\n    else:\n        docstring = user_docstring or template_docstring\n", "        docstring = [new_docstring]\n"), ("def splice_dialect(", "def _combine(user_docstring, template_docstring):\n    if not (user_docstring and template_docstring):\n        return user_docstring or template_docstring\n    sep = \"\\n\" + (\"-\" * 79) + \"\\n\"\n    text = f\"{getdocstring(user_docstring)}{sep}{getdocstring(template_docstring)}\"\n    node = ast.copy_location(ast.Expr(value=ast.Constant(value=text)), user_docstring[0])\n    fix_locations(node, user_docstring[0], mode=\"reference\")\n    return [node]\n\n\ndef splice_dialect(")], "splice_dialect: docstring helper"),
    ("splicing.py", [("    if lineno is not None and col_offset is not None:\n        srcloc_dummynode = ast.Constant(value=None)\n        srcloc_dummynode.lineno = lineno\n        srcloc_dummynode.col_offset = col_offset\n    else:\n        srcloc_dummynode = body[0]\n", "    if lineno is None or col_offset is None:\n        srcloc_dummynode = body[0]\n    else:\n        srcloc_dummynode = ast.Constant(value=None, lineno=lineno, col_offset=col_offset)\n")], "splice_dialect: keyword location"),
    ("splicing.py", [("                if ismacroimport(tree, magicname):\n                    self.collect(tree)\n                    return None\n                return self.generic_visit(tree)", "                if not ismacroimport(tree, magicname=magicname):\n                    self.generic_visit(tree)\n                    return tree\n                self.collect(tree)")], "extractor: flipped"),
    ("splicing.py", [("    for stmt in template:\n        fix_locations(stmt, srcloc_dummynode, mode=\"overwrite\")\n", "    fix_locations(template, srcloc_dummynode, mode=\"overwrite\")\n")], "splice_dialect: list located"),
    ("splicing.py", [("    body, user_magic_all = extract_magic_all(body)\n    template, ignored_template_magic_all = extract_magic_all(template)\n", "    body, user_magic_all = _extract(body, lambda tree: _ismagicall(tree), False)\n    template, _ = _extract(template, lambda tree: _ismagicall(tree), False)\n"), ("def splice_dialect(", "def _ismagicall(tree):\n    if not (type(tree) is ast.Assign and len(tree.targets) == 1):\n        return False\n    target = tree.targets[0]\n    return type(target) is ast.Name and target.id == \"__all__\"\n\n\ndef _extract(tree, predicate, deep):\n    class Extractor(ASTTransformer):\n        def transform(self, tree):\n            if predicate(tree):\n                self.collect(tree)\n                return None\n            if deep:\n                return self.generic_visit(tree)\n            return tree\n    w = Extractor()\n    w.visit(tree)\n    return tree, w.collected\n\n\ndef splice_dialect(")], "extract: generic"),
    ("dialects.py", [("        matches = _dialectimport.finditer(text)\n        try:\n            while True:\n                match = next(matches)\n                statement = match.group(0).strip()\n                if statement not in self._seen:  # apply each unique dialect-import once\n                    self._seen.add(statement)\n                    lineno = 1 + text[0:match.start()].count(\"\\n\")  # https://stackoverflow.com/a/48647994\n                    col_offset = 0  # TODO: extract the correct column offset\n                    break\n        except StopIteration:\n            return None\n", "        for match in _dialectimport.finditer(text):\n            statement = match.group().strip()\n            if statement in self._seen:\n                continue\n            self._seen.add(statement)\n            lineno = text.count(\"\\n\", 0, match.start()) + 1\n            col_offset = 0\n            break\n        else:\n            return None\n")], "finder: for loop"),
    ("dialects.py", [("        while True:\n            theimport = find_dialectimport(content)\n            if theimport:\n                module_absname, bindings, lineno, col_offset = theimport\n            else:  # no more dialects\n                break\n", "        while True:\n            theimport = find_dialectimport(content)\n            if not theimport:\n                break\n            module_absname, bindings, lineno, col_offset = theimport\n")], "transform: guard"),
    ("dialects.py", [("        while True:\n            theimport = find_dialectimport(content)\n            if theimport:\n                module_absname, bindings, lineno, col_offset = theimport\n            else:  # no more dialects\n                break\n", "        while (theimport := find_dialectimport(content)) is not None:\n            module_absname, bindings, lineno, col_offset = theimport\n")], "transform: walrus"),
    ("dialects.py", [("                try:\n                    transformer_method = getattr(dialect, transform)\n                except AttributeError as err:\n                    raise ImportError(f\"Dialect `{module_absname}.{dialectname}` missing required transformer method `{transform}`\") from err\n\n                try:\n                    result = transformer_method(content)\n                except Exception as err:\n                    raise ImportError(f\"Unexpected exception in dialect transformer `{module_absname}.{dialectname}.{transform}`\") from err\n", "                result = self._apply(dialect, f\"{module_absname}.{dialectname}\", transform, content)\n"), ("    def postprocess_ast(self, tree, dialect_instances):", "    def _apply(self, dialect, name, transform, content):\n        try:\n            method = getattr(dialect, transform)\n        except AttributeError as err:\n            raise ImportError(f\"Dialect `{name}` missing required transformer method `{transform}`\") from err\n        try:\n            return method(content)\n        except Exception as err:\n            raise ImportError(f\"Unexpected exception in dialect transformer `{name}.{transform}`\") from err\n\n    def postprocess_ast(self, tree, dialect_instances):")], "transform: helper"),
    ("dialects.py", [("                if result is NotImplemented:\n                    continue  # no step taken; proceed to next binding\n\n                if not result:\n                    raise ImportError(f\"Dialect transformer `{module_absname}.{dialectname}.{transform}` returned an empty result.\")\n                content = result\n                self._step += 1\n\n                if self.debugmode:", "                if result is not NotImplemented:\n                    if not result:\n                        raise ImportError(f\"Dialect transformer `{module_absname}.{dialectname}.{transform}` returned an empty result.\")\n                    content = result\n                    self._step += 1\n\n                if result is not NotImplemented and self.debugmode:")], "transform: nested"),
    ("dialects.py", [("        for index, statement in enumerate(tree.body):\n            if ismacroimport(statement, magicname=\"dialects\"):\n                break\n        else:\n            return None\n", "        index = next((k for k, stmt in enumerate(tree.body) if ismacroimport(stmt, magicname=\"dialects\")), None)\n        if index is None:\n            return None\n        statement = tree.body[index]\n")], "finder ast: next"),
    ("dialects.py", [("        content = tree\n        for dialect in dialect_instances:\n", "        content = tree\n        instances = list(dialect_instances)\n        for dialect in instances:\n")], "postprocess: copy"),
    ("dialects.py", [("        content = tree\n        for dialect in dialect_instances:", "        for dialect in dialect_instances:"), ("                result = transformer_method(content)\n            except Exception as err:\n                raise ImportError(f\"Unexpected exception in dialect transformer `{format_macrofunction(dialect)}", "                result = transformer_method(tree)\n            except Exception as err:\n                raise ImportError(f\"Unexpected exception in dialect transformer `{format_macrofunction(dialect)}"), ("            content = result\n            self._step += 1\n\n            if self.debugmode:\n                msg = f\"{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}after {c(CS.DIALECTTRANSFORMERNAME)}{format_macrofunction(dialect)}.postprocess_ast {c(CS.HEADING1)}(step {self._step}):{c()}\\n\"\n                print(_message_header + msg, file=sys.stderr)\n                print(format_for_display(content)", "            tree = result\n            self._step += 1\n\n            if self.debugmode:\n                msg = f\"{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}after {c(CS.DIALECTTRANSFORMERNAME)}{format_macrofunction(dialect)}.postprocess_ast {c(CS.HEADING1)}(step {self._step}):{c()}\\n\"\n                print(_message_header + msg, file=sys.stderr)\n                print(format_for_display(tree)"), ("        return content\n\n    def find_dialectimport_source", "        return tree\n\n    def find_dialectimport_source")], "postprocess: reuse param"),
    ("dialects.py", [("_dialectimport = re.compile(r\"^from[ \\t]+([.0-9a-zA-Z_]+)[ \\t]+import dialects,[ \\t]+([^(\\\\\\n]+)$\",\n                            flags=re.MULTILINE)", "_pattern = r\"^from[ \\t]+(?P<module>[.\\w]+)[ \\t]+import dialects,[ \\t]+(?P<names>[^\\n\\\\(]+)$\"\n_dialectimport = re.compile(_pattern, re.M)")], "pattern: named groups"),
    ("coreutils.py", [("    k = 0\n    while k < len(body) and isfutureimport(body[k]):\n        k += 1\n    return docstring, body[:k], body[k:]", "    futureimports = []\n    rest = list(body)\n    while rest and isfutureimport(rest[0]):\n        futureimports.append(rest.pop(0))\n    return docstring, futureimports, rest")], "split: pop"),
    ("coreutils.py", [("    k = 0\n    while k < len(body) and isfutureimport(body[k]):\n        k += 1\n    return docstring, body[:k], body[k:]", "    for k, stmt in enumerate(body):\n        if not isfutureimport(stmt):\n            return docstring, body[:k], body[k:]\n    return docstring, body[:], []")], "split: for"),
    ("coreutils.py", [("    if getdocstring(body) is not None:\n        docstring, *body = body\n        docstring = [docstring]\n    else:\n        docstring = []\n", "    n = 0 if getdocstring(body) is None else 1\n    docstring, body = body[:n], body[n:]\n")], "split: slices"),
    ("coreutils.py", [("    docstring, futureimports, body = split_futureimports(body)\n    return docstring + futureimports + stmts + body", "    docstring, futureimports, rest = split_futureimports(body)\n    return [*docstring, *futureimports, *stmts, *rest]")], "inject: star"),
    ("coreutils.py", [("    docstring, futureimports, body = split_futureimports(body)\n    return docstring + futureimports + stmts + body", "    docstring, futureimports, _ = split_futureimports(body)\n    k = len(docstring) + len(futureimports)\n    return body[:k] + stmts + body[k:]")], "inject: position"),
    ("coreutils.py", [("    return isinstance(tree, ast.ImportFrom) and tree.module == \"__future__\"", "    if type(tree) is not ast.ImportFrom:\n        return False\n    return tree.module == \"__future__\"")], "isfuture: guard"),
    ("multiphase.py", [("            if isfutureimport(stmt):\n                thisphase.append(stmt)\n            remaining.append(stmt)\n    tree.body[:] = remaining\n", "            remaining.append(stmt)\n            if isfutureimport(stmt):\n                thisphase.append(stmt)\n    tree.body = remaining\n")], "extract: order"),
    ("multiphase.py", [("            thisphase.extend(stmt.body)\n            lift(stmt)\n        else:\n", "            thisphase += stmt.body\n            lift(stmt)\n            continue\n        if True:\n")], "extract: augmented"),
    ("multiphase.py", [("            remaining.extend(deepcopy(withphase.body))", "            for s in withphase.body:\n                remaining.append(deepcopy(s))")], "extract: copy one by one"),
    ("multiphase.py", [("                macroarg.value -= 1\n", "                macroarg.value = original_phase - 1\n")], "extract: number from phase"),
    ("multiphase.py", [("            remaining.append(deepcopy(withphase))", "            lowered = deepcopy(withphase)\n            remaining.append(lowered)")], "extract: lowered"),
    ("multiphase.py", [("    maxn = None\n    for stmt in tree.body:\n        n = iswithphase(stmt, filename=filename)\n        if maxn is None or (n is not None and n > maxn):\n            maxn = n\n    return maxn", "    return max((iswithphase(stmt, filename=filename) or 0 for stmt in tree.body), default=None)")], "highest: max"),
    ("multiphase.py", [("    if not isinstance(n, int) or n < 1:\n        return False\n\n    return n", "    if isinstance(n, int) and n > 0:\n        return n\n    return False")], "accepted: positive form"),
    ("multiphase.py", [("        for k in range(n, -1, -1):", "        for k in reversed(range(n + 1)):")], "driver: reversed"),
    ("multiphase.py", [("                    expansion = compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)\n                    break\n\n                # Compile", "                    return compiler.singlephase_expand(phase_k_tree, filename=filename, self_module=self_module, dexpander=dexpander)\n\n                # Compile"), ("                pass\n\n    return expansion", "                pass\n")], "driver: return"),
    ("multiphase.py", [("                tgt = ast.Name(id=\"__phase__\", ctx=ast.Store(), lineno=1, col_offset=1)\n                val = ast.Constant(value=k, lineno=1, col_offset=13)\n                assignment = ast.Assign(targets=[tgt], value=val, lineno=1, col_offset=1)\n", "                assignment = _phase_assignment(k)\n"), ("def multiphase_expand(", "def _phase_assignment(k):\n    name = ast.Name(id=\"__phase__\", ctx=ast.Store(), lineno=1, col_offset=1)\n    return ast.Assign(targets=[name], value=ast.Constant(value=k, lineno=1, col_offset=13), lineno=1, col_offset=1)\n\ndef multiphase_expand(")], "driver: helper"),
    ("compiler.py", [("    if not (filename and filename.endswith(\".py\")):\n        if isinstance(source, (ast.AST, list)):\n            source = unparse(source)\n    expansion", "    if isinstance(source, (ast.AST, list)) and not _is_source_file(filename):\n        source = unparse(source)\n    expansion"), ("def _compile(", "def _is_source_file(filename):\n    return bool(filename) and filename.endswith(\".py\")\n\ndef _compile(")], "compile: helper for file"),
    ("compiler.py", [("    if not (filename and filename.endswith(\".py\")):\n        if isinstance(source, (ast.AST, list)):\n            source = unparse(source)\n    expansion", "    if isinstance(source, (ast.AST, list)):\n        if not filename or not filename.endswith(\".py\"):\n            source = unparse(source)\n    expansion")], "compile: tests swapped"),
    ("compiler.py", [("    code, _ignored_docstring = _compile(source, filename, optimize, self_module)\n    return code", "    return _compile(source, filename, optimize, self_module)[0]")], "compile: index"),
    ("compiler.py", [("    filename = module.__file__\n    self_module = module.__name__\n", ""), ("code, docstring = _compile(source, filename=filename, self_module=self_module, optimize=optimize)", "code, docstring = _compile(source, module.__file__, optimize, module.__name__)")], "run: no locals"),
    ("compiler.py", [("        expansion = singlephase_expand(tree, filename=filename, self_module=self_module, dexpander=dexpander)\n    else", "        params = {\"filename\": filename, \"self_module\": self_module}\n        expansion = singlephase_expand(tree, dexpander=dexpander, **params)\n    else")], "expand: kwargs"),
    ("importer.py", [("    return compiler.compile(data, filename=path, optimize=_optimize, self_module=self.name)", "    module_name = self.name\n    return compiler.compile(data, path, _optimize, module_name)")], "hook: positional"),
    ("compiler.py", [("    if dotted_name.find(\".\") != -1:\n        packagename, finalcomponent = dotted_name.rsplit(\".\", maxsplit=1)\n        package = sys.modules.get(packagename, None)\n\n        if not package:", "    if \".\" in dotted_name:\n        packagename, _, finalcomponent = dotted_name.rpartition(\".\")\n        package = sys.modules.get(packagename)\n        if package is None:")], "create: rpartition"),
    ("compiler.py", [("        path = dotted_name.split(\".\")\n        if not all(component.isidentifier() for component in path):\n", "        if any(not part.isidentifier() for part in dotted_name.split(\".\")):\n")], "create: any not"),
    ("compiler.py", [("    if not filename:\n        if dotted_name:\n            filename = f\"<dynamically created module '{dotted_name}'>\"\n        else:\n            filename = f\"<dynamically created module {uuid}>\"\n", "    if not filename:\n        filename = f\"<dynamically created module '{dotted_name}'>\" if dotted_name else f\"<dynamically created module {uuid}>\"\n")], "create: conditional"),
    ("compiler.py", [("    if module is None:\n        module = create_module()\n    elif isinstance(module, str):\n        dotted_name = module\n        try:\n            module = sys.modules[dotted_name]\n        except KeyError:\n            err", "    if module is None:\n        module = create_module()\n    elif isinstance(module, str):\n        dotted_name = module\n        if dotted_name in sys.modules:\n            module = sys.modules[dotted_name]\n        else:\n            err")], "run: in"),
    ("compiler.py", [("        code = source\n        module.__doc__ = None\n", "        code, docstring = source, None\n"), ("        module.__doc__ = docstring\n", ""), ("    exec(code, module.__dict__)", "    module.__doc__ = docstring\n    exec(code, vars(module))")], "run: docstring once"),
    ("utils.py", [("    if type(body[0]) is ast.Expr and type(body[0].value) in (ast.Constant, ast.Str):\n        docstring_node = body[0].value  # Expr -> Expr.value\n        if type(docstring_node) is ast.Constant:\n            return docstring_node.value if isinstance(docstring_node.value, str) else None\n        # TODO: remove ast.Str once we bump minimum language version to Python 3.8\n        else:  # ast.Str\n            return docstring_node.s\n    return None", "    first = body[0]\n    if not isinstance(first, ast.Expr) or not isinstance(first.value, ast.Constant):\n        return None\n    value = first.value.value\n    return value if isinstance(value, str) else None")], "docstring: simpler"),
    ("repl/console.py", [("            sys.modules[_magic_module_name].__dict__.clear()\n            sys.modules[_magic_module_name].__dict__.update(self.locals)  # for self-macro-imports\n", "            namespace = sys.modules[_magic_module_name].__dict__\n            namespace.clear()\n            namespace.update(self.locals)  # for self-macro-imports\n"), ("            sys.modules[_magic_module_name].__dict__.update(self.magic_module_metadata)\n            bindings", "            namespace.update(self.magic_module_metadata)\n            bindings")], "console: local"),
    ("repl/console.py", [("        except ModuleNotFoundError as err:  # during macro module lookup\n", "        except ImportError as err:  # during macro module lookup\n"), ("        except ImportError as err:  # during macro lookup in a successfully imported module\n            self.write(f\"{err.__class__.__name__}: {str(err)}\\n\")\n            return False  # erroneous input\n", "")], "console: one clause"),
    ("repl/iconsole.py", [("            if bindings:\n                self._ipyextension._macro_bindings_changed = True\n                self.expander.bindings.update(bindings)\n", "            self._merge(bindings)\n"), ("    def visit(self, tree):\n", "    def _merge(self, bindings):\n        if not bindings:\n            return\n        self.expander.bindings.update(bindings)\n        self._ipyextension._macro_bindings_changed = True\n\n    def visit(self, tree):\n")], "iconsole: helper"),
    ("repl/iconsole.py", [("            new_tree = self.expander.visit(tree)\n            new_tree = global_postprocess(new_tree)\n", "            new_tree = global_postprocess(self.expander.visit(tree))\n")], "iconsole: nested"),
    ("repl/console.py", [("            if not (hasattr(function, \"__module__\") and hasattr(function, \"__qualname__\")):\n                continue\n            if not function.__module__:    # Macros defined in the REPL have `__module__=None`.\n                continue\n", "            if not (hasattr(function, '__module__') and hasattr(function, '__qualname__') and function.__module__):\n                continue\n")], "console: one test"),
    ("repl/console.py", [("        if not self._macro_bindings_changed:\n            return\n        self._macro_bindings_changed = False\n", "        changed, self._macro_bindings_changed = self._macro_bindings_changed, False\n        if not changed:\n            return\n")], "console: swap"),
    ("repl/console.py", [("        self.runcode(code)\n        self._refresh_macro_functions()\n        return False  # Successfully compiled. `runcode` takes care of any runtime failures.\n", "        try:\n            self.runcode(code)\n        finally:\n            self._refresh_macro_functions()\n        return False\n")], "console: finally"),
    ("repl/macropython.py", [("        try:\n            spec.loader.exec_module(module)\n        except Exception as err:\n            sys.modules[\"__main__\"] = original_main\n            if isinstance(err, MacroApplicationError):\n", "        try:\n            spec.loader.exec_module(module)\n        except Exception as err:\n            _restore_main(original_main)\n            if isinstance(err, MacroApplicationError):\n"), ("def import_module_as_main(", "def _restore_main(module):\n    sys.modules[\"__main__\"] = module\n\ndef import_module_as_main(")], "runner: helper"),
    ("repl/macropython.py", [("        if sys.path[0] != containing_directory:\n            sys.path.insert(0, containing_directory)\n", "        _add_to_path(containing_directory)\n"), ("        if sys.path[0] != cwd:\n            sys.path.insert(0, cwd)\n", "        _add_to_path(cwd)\n"), ("def main():", "def _add_to_path(directory):\n    if directory != sys.path[0]:\n        sys.path.insert(0, directory)\n\ndef main():")], "runner: path helper"),
    ("repl/macropython.py", [("            module_name = module_name[:-3]", "            module_name = module_name.removesuffix(\".py\")")], "runner: removesuffix"),
("activate.py",[("def activate():","_active = False\n\ndef activate():"),("    SourceFileLoader.source_to_code = source_to_xcode\n","    global _active\n    if _active:\n        return\n    _active = True\n    SourceFileLoader.source_to_code = source_to_xcode\n"),("    SourceFileLoader.source_to_code = stdlib_source_to_code\n","    global _active\n    if not _active:\n        return\n    _active = False\n    SourceFileLoader.source_to_code = stdlib_source_to_code\n")],"flag"),
("activate.py",[("    SourceFileLoader.source_to_code = source_to_xcode\n","    _install(source_to_xcode, path_xstats)\n    return\n"),("def activate():","def _install(code, stats):\n    SourceFileLoader.source_to_code, SourceFileLoader.path_stats = code, stats\n\ndef activate():"),("    SourceFileLoader.path_stats = path_xstats\n",""),("    SourceFileLoader.path_stats = stdlib_path_stats\n",""),("    SourceFileLoader.source_to_code = stdlib_source_to_code\n","    _install(stdlib_source_to_code, stdlib_path_stats)\n")],"helper"),
("activate.py",[("def activate():","_orig = {\"source_to_code\": SourceFileLoader.source_to_code, \"path_stats\": SourceFileLoader.path_stats}\ndef activate():"),("    SourceFileLoader.source_to_code = stdlib_source_to_code\n    SourceFileLoader.path_stats = stdlib_path_stats\n","    for k, v in _orig.items():\n        setattr(SourceFileLoader, k, v)\n")],"dict of originals"),
("importer.py",[("    if path in _stdlib_sourcefile_paths or not path.endswith(\".py\"):\n        return _stdlib_path_stats(self, path)\n    return path_stats(path)","    is_py = path.endswith(\".py\")\n    if is_py and path not in _stdlib_sourcefile_paths:\n        return path_stats(path)\n    return _stdlib_path_stats(self, path)")],"inverted"),
("importer.py",[("    paths = set()\n    for root, dirs, files in os.walk(stdlib_dir):","    found = set()\n    for root, dirs, files in os.walk(stdlib_dir):"),("        for filename in files:\n            if filename[-3:] == \".py\":\n                paths.add(os.path.join(root, filename))\n    return paths","        found.update(os.path.join(root, f) for f in files if f.endswith(\".py\"))\n    return found")],"update"),
("activate.py",[("stdlib_source_to_code = SourceFileLoader.source_to_code\nstdlib_path_stats = SourceFileLoader.path_stats\nactivate()","activate()"),("def activate():","stdlib_source_to_code = SourceFileLoader.source_to_code\nstdlib_path_stats = SourceFileLoader.path_stats\n\ndef activate():")],"moved captures"),
("pycachecleaner.py",[("    paths = []\n    for root, dirs, files in os.walk(path):\n        if \"__pycache__\" in dirs and not os.path.islink(os.path.join(root, \"__pycache__\")):\n            paths.append(os.path.join(root, \"__pycache__\"))\n    return paths","    return [os.path.join(root, \"__pycache__\") for root, dirs, _ in os.walk(path) if \"__pycache__\" in dirs and not os.path.islink(os.path.join(root, \"__pycache__\"))]")],"comprehension"),
("pycachecleaner.py",[("        if \"__pycache__\" in dirs and not os.path.islink(os.path.join(root, \"__pycache__\")):\n            paths.append(os.path.join(root, \"__pycache__\"))","        if \"__pycache__\" not in dirs:\n            continue\n        candidate = os.path.join(root, \"__pycache__\")\n        if os.path.islink(candidate):\n            continue\n        paths.append(candidate)")],"early continue"),
("pycachecleaner.py",[("        if \"__pycache__\" in dirs and not os.path.islink(os.path.join(root, \"__pycache__\")):\n            paths.append(os.path.join(root, \"__pycache__\"))","        for d in dirs:\n            if d == \"__pycache__\" and not os.path.islink(os.path.join(root, d)):\n                paths.append(os.path.join(root, d))")],"loop over dirs"),
("pycachecleaner.py",[("        _delete_directory_recursively(x)","        shutil.rmtree(x)"),("import os\n","import os\nimport shutil\n")],"rmtree"),
("pycachecleaner.py",[("        for x in files:\n            try:\n                os.unlink(os.path.join(root, x))\n            except FileNotFoundError:\n                pass\n","        for x in files:\n            _try(os.unlink, os.path.join(root, x))\n"),("def _delete_directory_recursively","def _try(f, p):\n    try:\n        f(p)\n    except FileNotFoundError:\n        pass\n\ndef _delete_directory_recursively")],"helper"),
("pycachecleaner.py",[("                if os.path.islink(os.path.join(root, x)):  # a symlink to a directory\n                    os.unlink(os.path.join(root, x))\n                    continue\n                os.rmdir(os.path.join(root, x))","                p = os.path.join(root, x)\n                (os.unlink if os.path.islink(p) else os.rmdir)(p)")],"conditional function"),
("pycachecleaner.py",[("        for x in files:\n            try:\n                os.unlink(os.path.join(root, x))\n            except FileNotFoundError:\n                pass\n","        for x in files:\n            with contextlib.suppress(FileNotFoundError):\n                os.unlink(os.path.join(root, x))\n"),("import os\n","import contextlib\nimport os\n")],"suppress"),
("repl/macropython.py",[("        if not opts.dry_run:\n            deletepycachedirs(opts.path_to_clean)\n        else:\n            for x in getpycachedirs(opts.path_to_clean):\n                print(x)\n        sys.exit(0)","        _clean(opts)\n        sys.exit(0)"),("def main():","def _clean(opts):\n    if opts.dry_run:\n        print(*getpycachedirs(opts.path_to_clean), sep=\"\\n\")\n        return\n    deletepycachedirs(opts.path_to_clean)\n\ndef main():")],"helper"),
("walkers.py",[("        newstate = self._subtree_overrides.pop(id(tree), None)\n        if newstate is not None:  # note an empty `Bunch` is falsy\n            self._stack.append(newstate)\n        try:\n            if isinstance(tree, list):\n                for elt in tree:\n                    self.visit(elt)\n                return\n            return self.examine(tree)\n        finally:\n            if newstate is not None:\n                self._stack.pop()","        key = id(tree)\n        overridden = key in self._subtree_overrides\n        if overridden:\n            self._stack.append(self._subtree_overrides.pop(key))\n        try:\n            if not isinstance(tree, list):\n                return self.examine(tree)\n            for node in tree:\n                self.visit(node)\n        finally:\n            if overridden:\n                del self._stack[-1]")],"membership"),
("walkers.py",[("        newstate = self.state.copy()\n        newstate.update(**bindings)\n","        newstate = self._derived(bindings)\n"),("    def collect(self, value):","    def _derived(self, bindings):\n        state = self.state.copy()\n        state.update(**bindings)\n        return state\n\n    def collect(self, value):")],"helper"),
("walkers.py",[("                new_tree = utils.flatten(self.visit(elt) for elt in tree)\n                if not new_tree:\n                    new_tree = []  # preserve the type of `tree`; an empty list shouldn't turn into `None`\n                tree[:] = new_tree\n","                tree[:] = utils.flatten([self.visit(elt) for elt in tree])\n")],"simplified"),
("utils.py",[("        if isinstance(elt, list):\n            sublst = flatten(elt) if recursive else elt\n            out.extend(sublst)\n        elif elt is not None:\n            out.append(elt)\n    return out","        if elt is None:\n            continue\n        if not isinstance(elt, list):\n            out.append(elt)\n            continue\n        if recursive:\n            elt = flatten(elt)\n        out += elt\n    return out")],"flatten"),
("bunch.py",[("        return Bunch(**{k: v for k, v in self._data.items()})","        return type(self)(**self._data)")],"copy"),
("bunch.py",[("            return self._data[name]\n        except KeyError as err:\n            raise AttributeError(f\"{type(self).__name__} object has no attribute '{name}'\") from err","            return self._data[name]\n        except KeyError:\n            msg = f\"{type(self).__name__} object has no attribute '{name}'\"\n            raise AttributeError(msg) from None")],"raise"),
("walkers.py",[("        if isinstance(tree, list):\n            for elt in tree:\n                self._subtree_overrides[id(elt)] = newstate\n        else:\n            self._subtree_overrides[id(tree)] = newstate\n","        nodes = tree if isinstance(tree, list) else [tree]\n        for node in nodes:\n            self._subtree_overrides[id(node)] = newstate\n")],"nodes"),
("markers.py",[("            if isinstance(tree, cls):\n                self.collect(tree)\n            self.generic_visit(tree)","            found = isinstance(tree, cls)\n            if found:\n                self.collect(tree)\n            return self.generic_visit(tree)")],"flag"),
("markers.py",[("            if isinstance(tree, cls):\n                if tree.body is None:  # an empty marker\n                    return None\n                return self.visit(tree.body)\n            return self.generic_visit(tree)","            if not isinstance(tree, cls):\n                return self.generic_visit(tree)\n            content = tree.body\n            if content is None:\n                return None\n            return self.visit(content)")],"inverted"),
("markers.py",[("    cls = cls or ASTMarker\n","    if cls is None:\n        cls = ASTMarker\n"),("    if remaining_markers:\n","    if not remaining_markers:\n        return\n    if True:\n")],"early return"),
("markers.py",[("    if remaining_markers:\n        codes","    if remaining_markers:\n        msg = _report(remaining_markers, filename)\n        raise core.MacroExpansionError(msg)\n        codes"),("def check_no_markers_remaining","def _report(nodes, filename):\n    locations = [utils.format_location(filename, n, utils.format_context(n, n=5)) for n in nodes]\n    return f\"{filename}: AST markers remaining after expansion:\\n\" + \"\\n\\n\".join(locations)\n\ndef check_no_markers_remaining")],"helper"),
("markers.py",[("    class ASTMarkerCollector(walkers.ASTVisitor):\n        def examine(self, tree):\n            if isinstance(tree, cls):\n                self.collect(tree)\n            self.generic_visit(tree)\n    w = ASTMarkerCollector()","    w = _Collector(cls=cls)"),("def get_markers","class _Collector(walkers.ASTVisitor):\n    def examine(self, tree):\n        if isinstance(tree, self.state.cls):\n            self.collect(tree)\n        self.generic_visit(tree)\n\ndef get_markers")],"module level"),
("expander.py",[("            if new_tree is None:\n                # Expression slots in the AST cannot be empty, but we can make\n                # something that evaluates to `None` at run-time, and get\n                # correct coverage while at it.\n                new_tree = _make_coverage_dummy_expr(subscript)\n        else:\n            new_tree = self.generic_visit(subscript)\n        return new_tree","            if new_tree is not None:\n                return new_tree\n            return _make_coverage_dummy_expr(subscript)\n        return self.generic_visit(subscript)")],"early return"),
("expander.py",[("    if tree is None:\n        tree = []\n    elif isinstance(tree, AST):\n        tree = [tree]\n","    if isinstance(tree, AST):\n        tree = [tree]\n    tree = list(tree or [])\n")],"or"),
("expander.py",[("    tree.insert(0, Done(dummy))  #","    tree = [Done(dummy)] + tree\n    #")],"concat"),
("expander.py",[("    tree.insert(0, Done(dummy))  #","    return [Done(dummy), *tree]\n    #")],"star"),
("expander.py",[("    if tree is None:\n        tree = []\n    elif isinstance(tree, AST):\n        tree = [tree]\n","    if tree is None:\n        stmts = []\n    elif isinstance(tree, AST):\n        stmts = [tree]\n    else:\n        stmts = list(tree)\n"),("    tree.insert(0, Done(dummy))  #","    stmts.insert(0, Done(dummy))\n    return stmts\n    #")],"stmts"),
("expander.py",[("    v = copy_location(Constant(value=f\"{filename}:{macronode.lineno} invoked macro '{macroname}'\"),\n                      macronode)\n    t = copy_location(Name(id=\"_mcpyrate_coverage\", ctx=Store()),\n                      macronode)\n    dummy = copy_location(Assign(targets=[t], value=v), macronode)","    def at(n):\n        return copy_location(n, macronode)\n    v = at(Constant(value=f\"{filename}:{macronode.lineno} invoked macro '{macroname}'\"))\n    t = at(Name(id=\"_mcpyrate_coverage\", ctx=Store()))\n    dummy = at(Assign(targets=[t], value=v))")],"at"),
("expander.py",[("    if not hasattr(macronode, \"lineno\") and not hasattr(macronode, \"col_offset\"):\n        return tree","    located = hasattr(macronode, \"lineno\") or hasattr(macronode, \"col_offset\")\n    if not located:\n        return tree")],"flag"),
("expander.py",[("        new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt, macroname, self.filename)\n","        return _insert_coverage_dummy_stmt(new_tree, withstmt, macroname=macroname, filename=self.filename)\n")],"return"),
("expander.py",[("def _insert_coverage_dummy_stmt(tree, macronode","def _covered(tree, macronode"),("new_tree = _insert_coverage_dummy_stmt(new_tree, innermost","new_tree = _covered(new_tree, innermost"),("new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt","new_tree = _covered(new_tree, withstmt"),("_insert_coverage_dummy_stmt(None, statement","_covered(None, statement")],"rename"),
("expander.py",[("def _insert_coverage_dummy_stmt(tree, macronode","def covered(tree, macronode"),("new_tree = _insert_coverage_dummy_stmt(new_tree, innermost","new_tree = covered(new_tree, innermost"),("new_tree = _insert_coverage_dummy_stmt(new_tree, withstmt","new_tree = covered(new_tree, withstmt"),("_insert_coverage_dummy_stmt(None, statement","covered(None, statement")],"rename public"),
("metatools.py",[("from .expander import MacroExpander, namemacro, parametricmacro\n","from . import expander as _expander\nfrom .expander import namemacro, parametricmacro\nMacroExpander = _expander.MacroExpander\n")],"alias"),
("debug.py",[("    c, CS = setcolor, ColorScheme\n","    c = setcolor\n    CS = ColorScheme\n")],"CS"),
("quotes.py",[("def _mcpyrate_quotes_attr(attr, *, force_import=False):","def _quotes_attr(attr, *, force_import=False):"),("    return ast.Call(_mcpyrate_quotes_attr(\"lookup_value\", force_import=True),","    return ast.Call(_quotes_attr(\"lookup_value\", force_import=True),"),("# --------------------------------------------------------------------------------","_mcpyrate_quotes_attr = _quotes_attr\n# ----")],"rename wrapper"),
("quotes.py",[("    return _mcpyrate_attr(f\"quotes.{attr}\", force_import=force_import)","    return _mcpyrate_attr(\"quotes.\" + attr, force_import=force_import)")],"plus"),
("metatools.py",[("    return ast.Call(_mcpyrate_metatools_attr(runtime_operator),\n                    [],\n                    [","    callee = _mcpyrate_metatools_attr(runtime_operator)\n    return ast.Call(callee,\n                    [],\n                    [")],"callee"),
("coreutils.py",[("        if submodule_dotted_name:\n            modulename_to_import = f\"mcpyrate.{submodule_dotted_name}\"\n        else:\n            modulename_to_import = \"mcpyrate\"","        modulename_to_import = \"mcpyrate\"\n        if submodule_dotted_name:\n            modulename_to_import += \".\" + submodule_dotted_name")],"plus"),
("debug.py",[("            while mc.collected:\n                step += 1\n","            while True:\n                if not mc.collected:\n                    break\n                step += 1\n")],"while True"),
("debug.py",[("                tree = expander.visit_once(tree)  # -> Done(body=...)\n                tree = tree.body\n","                tree = expander.visit_once(tree).body\n")],"one line"),
("debug.py",[("                tree = expander.visit_once(tree)  # -> Done(body=...)\n                tree = tree.body\n","                done = expander.visit_once(tree)\n                tree = done.body\n")],"local"),
("debug.py",[("                mc.clear()\n                mc.visit(tree)\n","                mc = MacroCollector(expander)\n                mc.visit(tree)\n")],"new collector"),
("debug.py",[("                mc.clear()\n                mc.visit(tree)\n","                mc.clear()\n                mc.visit(tree)\n                if not mc.collected:\n                    return\n")],"early return"),
("debug.py",[("            with expander.debughook(print_step):\n                doit()\n        else:\n            doit()\n","            with expander.debughook(print_step):\n                doit()\n\n        if not print_details:\n            doit()\n")],"two ifs"),
("core.py",[("        if self._debughook:\n            oldid","        if self._debughook is not None:\n            oldid"),("        if self._debughook:\n            self","        if self._debughook is not None:\n            self")],"noop"),
("core.py",[("        if self._debughook:\n            self._debughook(oldid","        hook = self._debughook\n        if hook:\n            hook(oldid")],"local hook"),
("core.py",[("            oldid = id(target)\n            oldtree = deepcopy(target)  # including the macro invocation itself\n","            oldid, oldtree = id(target), deepcopy(target)\n")],"tuple"),
("dialects.py",[("        if self.debugmode:\n            plural = \"s\" if self._step != 1 else \"\"\n            msg = f\"{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}completed all dialect {c(CS.TRANSFORMERKIND)}{kind}","        if self.debugmode:\n            plural = \"\" if self._step == 1 else \"s\"\n            msg = f\"{c(CS.SOURCEFILENAME)}{self.filename} {c(CS.HEADING1)}completed all dialect {c(CS.TRANSFORMERKIND)}{kind}")],"plural"),
("multiphase.py",[("                if debug:\n                    print(unparse_with_fallbacks(phase_k_tree, debug=True, color=True), file=sys.stderr)\n","                if debug:\n                    text = unparse_with_fallbacks(phase_k_tree, debug=True, color=True)\n                    print(text, file=sys.stderr)\n")],"text"),
('utils.py', [('            lineno = get_lineno(node)\n            if lineno:\n                return lineno\n    elif isinstance(tree, list)', '            found = get_lineno(node)\n            if found is not None:\n                return found\n    elif isinstance(tree, list)')], 'is not None'),
('utils.py', [('    if hasattr(tree, "lineno"):\n        return tree.lineno\n    elif', '    lineno = getattr(tree, "lineno", None)\n    if lineno is not None:\n        return lineno\n    if')], 'getattr'),
('utils.py', [("    elif isinstance(tree, ast.AST):  # look inside AST nodes\n        # Note `iter_fields` ignores attribute fields such as line numbers and column offsets,\n        # so we don't recurse into those.\n        for fieldname, node in ast.iter_fields(tree):\n            lineno = get_lineno(node)\n            if lineno:\n                return lineno\n    elif isinstance(tree, list):  # look inside statement suites\n        for node in tree:\n            lineno = get_lineno(node)\n            if lineno:\n                return lineno\n    return None\n", '    if isinstance(tree, ast.AST):\n        nodes = [node for _, node in ast.iter_fields(tree)]\n    elif isinstance(tree, list):\n        nodes = tree\n    else:\n        nodes = []\n    for node in nodes:\n        lineno = get_lineno(node)\n        if lineno:\n            return lineno\n    return None\n')], 'one loop'),
('utils.py', [('        for node in tree:\n            lineno = get_lineno(node)\n            if lineno:\n                return lineno\n    return None\n', '        return next((n for n in map(get_lineno, tree) if n), None)\n    return None\n')], 'next'),
('utils.py', [('    if sourcecode:\n        sep = " " if "\\n" not in sourcecode else "\\n"\n        source_with_sep = f"{sep}{sourcecode}"\n    else:\n        source_with_sep = ""\n\n    return f\'{colorize(filename, ColorScheme.SOURCEFILENAME)}:{get_lineno(tree)}:{source_with_sep}\'', '    location = f\'{colorize(filename, ColorScheme.SOURCEFILENAME)}:{get_lineno(tree)}:\'\n    if not sourcecode:\n        return location\n    if "\\n" in sourcecode:\n        return location + "\\n" + sourcecode\n    return location + " " + sourcecode')], 'early'),
('utils.py', [('    code_lines = unparser.unparse_with_fallbacks(tree, debug=True, color=True).split("\\n")\n    code = "\\n".join(code_lines[:n])\n    if len(code_lines) > n:\n        code += "\\n" + colorize("...", ColorScheme.GREYEDOUT)\n    return code', '    text = unparser.unparse_with_fallbacks(tree, debug=True, color=True)\n    lines = text.split("\\n")\n    shown = lines[:n]\n    if n < len(lines):\n        shown.append(colorize("...", ColorScheme.GREYEDOUT))\n    return "\\n".join(shown)')], 'append'),
('utils.py', [('    code_lines = unparser.unparse_with_fallbacks(tree, debug=True, color=True).split("\\n")\n    code = "\\n".join(code_lines[:n])\n    if len(code_lines) > n:\n', '    code_lines = unparser.unparse_with_fallbacks(tree, debug=True, color=True).split("\\n")\n    nlines = len(code_lines)\n    code = "\\n".join(code_lines[:n])\n    if nlines > n:\n')], 'nlines'),
('utils.py', [('    if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):\n        return repr(function)\n    if not function.__module__:  # Macros defined in the REPL have `__module__=None`.\n        return function.__qualname__\n    return f"{function.__module__}.{function.__qualname__}"', '    if hasattr(function, "__module__") and hasattr(function, "__qualname__"):\n        module = function.__module__\n        return f"{module}.{function.__qualname__}" if module else function.__qualname__\n    return repr(function)')], 'positive'),
('utils.py', [('    if not (hasattr(function, "__module__") and hasattr(function, "__qualname__")):\n        return repr(function)\n    if not function.__module__:  # Macros defined in the REPL have `__module__=None`.\n        return function.__qualname__\n    return f"{function.__module__}.{function.__qualname__}"', '    try:\n        module, name = function.__module__, function.__qualname__\n    except AttributeError:\n        return repr(function)\n    return name if not module else ".".join((module, name))')], 'try'),
('unparser.py', [('    try:\n        text = unparse(tree, debug=debug, color=color, expander=expander)\n    except UnparserError as err:\n        text = str(err)\n    except Exception as err:', '    try:\n        return unparse(tree, debug=debug, color=color, expander=expander)\n    except UnparserError as err:\n        return str(err)\n    except Exception as err:'), ('        text = f"Internal error in unparser: {type(err)}: {str(err)}"\n    return text', '        return f"Internal error in unparser: {type(err)}: {err}"')], 'returns'),
('unparser.py', [('    except UnparserError as err:\n        text = str(err)\n    except Exception as err:', '    except Exception as err:\n        if isinstance(err, UnparserError):\n            return str(err)')], 'isinstance'),
('unparser.py', [('    try:\n        text = unparse(tree, debug=debug, color=color, expander=expander)\n', '    options = {"debug": debug, "color": color, "expander": expander}\n    try:\n        text = unparse(tree, **options)\n')], 'options'),
('astdumper.py', [('            colorized_fields = [(maybe_colorize(k, ColorScheme.FIELDNAME),\n                                 maybe_colorize_value(v))\n                                for k, v in fields]\n            return "".join([\n                maybe_colorize(tree.__class__.__name__, ColorScheme.NODETYPE),\n                "(",\n                separator().join((f"{k}={v}" for k, v in colorized_fields)),\n                ")"])\n', '            parts = [f"{maybe_colorize(k, ColorScheme.FIELDNAME)}={maybe_colorize_value(v)}" for k, v in fields]\n            name = maybe_colorize(tree.__class__.__name__, ColorScheme.NODETYPE)\n            return f"{name}({separator().join(parts)})"\n')], 'parts'),
('astdumper.py', [('            fields = [(k, recurse(v, previndent + moreindent + len(f"{k}="))) for k, v in iter_fields(tree)]\n', '            fields = []\n            for k, v in iter_fields(tree):\n                indent = previndent + moreindent + len(k) + 1\n                fields.append((k, recurse(v, indent)))\n')], 'loop'),
('astdumper.py', [('            if items:\n                items[0] = "[" + items[0].lstrip()\n                items[-1] = items[-1] + "]"\n                return separator().join(items)\n            return "[]"\n', '            return "[" + separator().join(items) + "]"\n')], 'bracket'),
('astdumper.py', [('        def separator():\n            if multiline:\n                return f",\\n{(previndent + moreindent) * \' \'}"\n            return ", "\n', '        def separator():\n            return ",\\n" + " " * (previndent + moreindent) if multiline else ", "\n')], 'ifexp'),
('astdumper.py', [('    def recurse(tree, previndent=0):\n        def sep', '    def recurse(tree, previndent=0):\n        if not isinstance(tree, (AST, list)):\n            return repr(tree)\n        def sep'), ('        elif isinstance(tree, list):\n', '        else:\n'), ('            return "[]"\n\n        return repr(tree)\n', '            return "[]"\n')], 'order'),
('astdumper.py', [('            if include_attributes and tree._attributes:\n', '            if include_attributes:\n')], 'no test'),
('astdumper.py', [('        raise TypeError(f"expected AST, got {tree.__class__.__name__!r}")', '        raise TypeError("expected AST, got " + repr(type(tree).__name__))')], 'message'),
('metatools.py', [('    keys = list(astify(k) for k in expander.bindings.keys())\n    values = list(capture_value(v, k) for k, v in expander.bindings.items())\n    return ast.Dict(keys=keys, values=values)', '    keys = []\n    values = []\n    for k, v in expander.bindings.items():\n        keys.append(astify(k))\n        values.append(capture_value(v, k))\n    return ast.Dict(keys=keys, values=values)')], 'one loop'),
('metatools.py', [('    keys = list(astify(k) for k in expander.bindings.keys())\n    values = list(capture_value(v, k) for k, v in expander.bindings.items())\n    return ast.Dict(keys=keys, values=values)', '    pairs = [(astify(k), capture_value(v, k)) for k, v in expander.bindings.items()]\n    return ast.Dict(keys=[k for k, _ in pairs], values=[v for _, v in pairs])')], 'pairs'),
('metatools.py', [('    keys = list(astify(k) for k in expander.bindings.keys())', '    bindings = expander.bindings\n    keys = [astify(k) for k in bindings]'), ('    values = list(capture_value(v, k) for k, v in expander.bindings.items())', '    values = [capture_value(bindings[k], k) for k in bindings]')], 'by key'),
('metatools.py', [('    if syntax == "expr":\n        return expands(tree, syntax=syntax, **kw)\n    else:\n        assert syntax == "block"\n        assert type(tree) is ast.Assign\n        # The asname was meant for `q`. The quoted code is the RHS, which is an expression.\n        tree.value = expands(tree.value, syntax="expr", **kw)\n        return tree', '    if syntax == "block":\n        tree.value = expands(tree.value, syntax="expr", **kw)\n        return tree\n    return expands(tree, syntax=syntax, **kw)')], 'flip'),
('metatools.py', [('        kw = dict(kw)\n        kw["optional_vars"] = None\n        tree.value = expandr(tree.value, syntax=syntax, **kw)', '        newkw = {**kw, "optional_vars": None}\n        tree.value = expandr(tree.value, syntax=syntax, **newkw)')], 'newkw'),
('metatools.py', [('        kw = dict(kw)\n        kw["optional_vars"] = None\n        tree.value = expandr(tree.value, syntax=syntax, **kw)', '        kw.pop("optional_vars", None)\n        tree.value = expandr(tree.value, syntax=syntax, optional_vars=None, **kw)')], 'pop'),
('metatools.py', [('    return ast.Call(_mcpyrate_metatools_attr(runtime_operator),\n                    [],\n                    [ast.keyword("bindings", macro_bindings(None, syntax="name", expander=expander)),\n                     ast.keyword("filename", astify(expander.filename)),\n                     ast.keyword("tree", tree)])', '    bindings = macro_bindings(None, syntax="name", expander=expander)\n    return ast.Call(_mcpyrate_metatools_attr(runtime_operator),\n                    [bindings, astify(expander.filename), tree],\n                    [])')], 'positional'),
('metatools.py', [('    if macroname == "expandr":\n        runtime_operator = "runtime_expand"\n    elif macroname == "expand1r":\n        runtime_operator = "runtime_expand1"\n    else:\n        raise ValueError(f"Unknown macroname \'{macroname}\'; valid: \'expandr\', \'expand1r\'")\n', '    runtime_operator = {"expandr": "runtime_expand", "expand1r": "runtime_expand1"}[macroname]\n')], 'table'),
('metatools.py', [('    invalid_args = [node for node in args if type(node) is not ast.Name]\n    if invalid_args:\n        invalid_args_str = ", ".join(unparse_with_fallbacks(node, color=True, debug=True)\n                                     for node in invalid_args)\n', '    invalid_args = []\n    for node in args:\n        if type(node) is not ast.Name:\n            invalid_args.append(node)\n    if len(invalid_args) > 0:\n        invalid_args_str = ", ".join(unparse_with_fallbacks(node, color=True, debug=True)\n                                     for node in invalid_args)\n')], 'loop'),
('metatools.py', [('    invalid_args = [node for node in args if type(node) is not ast.Name]\n    if invalid_args:\n', '    if not all(type(node) is ast.Name for node in args):\n        invalid_args = [node for node in args if type(node) is not ast.Name]\n')], 'all'),
('metatools.py', [('    macros = [expander.bindings[name_node.id] for name_node in args]\n\n    # Then map the macro functions to *all* their names in `expander`:\n    macro_bindings = extract_bindings(expander.bindings, *macros)\n    return MacroExpander(macro_bindings, filename=expander.filename).visit(tree)', '    macros = {expander.bindings[name_node.id] for name_node in args}\n    selected = {name: macro for name, macro in expander.bindings.items() if macro in macros}\n    return MacroExpander(selected, filename=expander.filename).visit(tree)')], 'inlined'),
('metatools.py', [('    macros = [expander.bindings[name_node.id] for name_node in args]\n\n    # Then map the macro functions to *all* their names in `expander`:\n    macro_bindings = extract_bindings(expander.bindings, *macros)\n    return MacroExpander(macro_bindings, filename=expander.filename).visit(tree)', '    macros = []\n    for name_node in args:\n        macros.append(expander.bindings[name_node.id])\n    sub_expander = MacroExpander(extract_bindings(expander.bindings, *macros), expander.filename)\n    return sub_expander.visit_recursively(tree)')], 'loop2'),
('metatools.py', [('    if not args:\n        raise SyntaxError("expected a comma', '    if len(args) == 0:\n        raise SyntaxError("expected a comma')], 'len'),
('metatools.py', [('    if syntax == "block" and kw[\'optional_vars\'] is not None:\n        raise SyntaxError("`expands` (block mode) does not take an asname")\n', '    if syntax == "block":\n        asname = kw["optional_vars"]\n        if asname is not None:\n            raise SyntaxError("`expands` (block mode) does not take an asname")\n')], 'nest'),
('metatools.py', [('    if syntax == "block" and kw[\'optional_vars\'] is not None:\n        raise SyntaxError("`expands` (block mode) does not take an asname")\n', '    if kw.get(\'optional_vars\') is not None and syntax == "block":\n        raise SyntaxError("`expands` (block mode) does not take an asname")\n')], 'get'),
('metatools.py', [('    expander_node = ast.Call(_mcpyrate_metatools_attr("MacroExpander"),\n                             [],\n                             [ast.keyword("bindings", macro_bindings(None, syntax="name", expander=expander)),\n                              ast.keyword("filename", astify(expander.filename))])', '    expander_node = _make_expander(expander)'), ('# --------------------------------------------------------------------------------\n\n@parametricmacro\ndef stepr(', '# --------------------------------------------------------------------------------\n\ndef _make_expander(expander):\n    return ast.Call(_mcpyrate_metatools_attr("MacroExpander"),\n                             [],\n                             [ast.keyword("bindings", macro_bindings(None, syntax="name", expander=expander)),\n                              ast.keyword("filename", astify(expander.filename))])\n\n\n@parametricmacro\ndef stepr(')], 'helper'),
('utils.py', [('    functions = set(functions)\n    return {name: function for name, function in bindings.items() if function in functions}', '    out = {}\n    for name, function in bindings.items():\n        if function in functions:\n            out[name] = function\n    return out')], 'loop'),
('utils.py', [('    functions = set(functions)\n    return {name: function for name, function in bindings.items() if function in functions}', '    return {name: bindings[name] for name in bindings if bindings[name] in functions}')], 'bykey'),
('metatools.py', [('    tree = q(tree, syntax=syntax, **kw)\n    if syntax == "expr":\n        return expandr(tree, syntax=syntax, **kw)\n', '    quoted = q(tree, syntax=syntax, **kw)\n    if syntax == "expr":\n        return expandr(quoted, syntax="expr", **kw)\n    tree = quoted\n    if False:\n        pass\n')], 'names'),
("bunch.py",[("return len(self._data)","return self._data.__len__()")],"len"),
("bunch.py",[("return self._data.__contains__(name)","return name in self._data")],"contains"),
("bunch.py",[("return self._data.__iter__()","return iter(self._data)")],"iter"),
("bunch.py",[("return self[name] if name in self else default","return self._data.get(name, default)")],"get"),
("bunch.py",[("return self[name] if name in self else default","if name in self._data:\n            return self._data[name]\n        return default")],"get2"),
("bunch.py",[("return self[name] if name in self else default","try:\n            return self._data[name]\n        except KeyError:\n            return default")],"get3"),
("bunch.py",[("return Bunch(**{k: v for k, v in self._data.items()})","return Bunch(**self._data)")],"copy"),
("bunch.py",[("return Bunch(**{k: v for k, v in self._data.items()})","return bunchify(dict(self._data))")],"copy2"),
("bunch.py",[("return Bunch(**{k: v for k, v in self._data.items()})","new = Bunch()\n        new._data.update(self._data)\n        return new")],"copy3"),
("bunch.py",[("self._data = other.copy()._data","self._data = dict(other._data)")],"rep"),
("bunch.py",[("self._data = other.copy()._data","newdata = {}\n        for k, v in other.items():\n            newdata[k] = v\n        self._data = newdata")],"rep2"),
("bunch.py",[("return self._data.__getitem__(name)","return self._data[name]"),("return self._data.__setitem__(name, value)","self._data[name] = value"),("return self._data.__delitem__(name)","del self._data[name]")],"items"),
("bunch.py",[("return other == self._data","return self._data == other"),("return other != self._data","return not (self == other)")],"eq"),
("bunch.py",[("    if not all(x.isidentifier() for x in d):\n        invalid_keys = [x for x in d if not x.isidentifier()]\n","    invalid_keys = [x for x in d if not x.isidentifier()]\n    if invalid_keys:\n")],"ids"),
("bunch.py",[("    if not all(isinstance(d, cls) for cls in _virtual_bases):\n","    if any(not isinstance(d, cls) for cls in _virtual_bases):\n")],"any"),
("bunch.py",[("    if not all(isinstance(d, cls) for cls in _virtual_bases):\n        raise","    for cls in _virtual_bases:\n        if isinstance(d, cls):\n            continue\n        raise")],"loop"),
("bunch.py",[("    if isinstance(d, Bunch):\n        return d\n","    if not isinstance(d, Bunch):\n        return _wrap(d)\n    return d\n\ndef _wrap(d):\n")],"wrap"),
("bunch.py",[('        if name in ("_data", "_reserved_names"):\n            return super().__setattr__(name, value)\n        if name in self._reserved_names:  # prevent shadowing get, pop, et al.\n            raise AttributeError(f"Cannot write to reserved attribute \'{name}\'")\n        self._data[name] = value','        if name == "_data" or name == "_reserved_names":\n            object.__setattr__(self, name, value)\n        elif name not in self._reserved_names:\n            self._data[name] = value\n        else:\n            raise AttributeError(f"Cannot write to reserved attribute \'{name}\'")')],"setattr"),
("bunch.py",[("        self._reserved_names = []\n        self._reserved_names = dir(self)","        self._reserved_names = []\n        self._reserved_names = frozenset(dir(self))")],"res"),
("bunch.py",[("        self._data.update(**bindings)","        for k, v in bindings.items():\n            self._data[k] = v")],"upd"),
("bunch.py",[("        return self._data.pop(name, *default)","        data = self._data\n        value = data.pop(name, *default)\n        return value")],"pop"),
("debug.py",[("bindings = expander.bindings if globals_too else expander.local_bindings","if globals_too:\n        bindings = expander.bindings\n    else:\n        bindings = expander.local_bindings")],"scope"),
("debug.py",[("            for k, v in sorted(bindings.items()):\n                k = maybe_colorize(k, ColorScheme.MACRONAME)\n","            for name in sorted(bindings):\n                v = bindings[name]\n                k = maybe_colorize(name, ColorScheme.MACRONAME)\n")],"bykeys"),
("debug.py",[("                output.write(f\"    {k}: {format_macrofunction(v)}\\n\")\n","                line = \"    \" + k + \": \" + format_macrofunction(v) + \"\\n\"\n                output.write(line)\n")],"concat"),
("debug.py",[("    with io.StringIO() as output:\n        output.write(f\"{c(CS.HEADING1)}Macro bindings for {c(CS.SOURCEFILENAME)}{expander.filename}{c(CS.HEADING1)}:{c()}\\n\")\n        if not bindings:\n            output.write(maybe_colorize(\"    <no bindings>\\n\",\n                                        ColorScheme.GREYEDOUT))\n        else:\n            for k, v in sorted(bindings.items()):\n                k = maybe_colorize(k, ColorScheme.MACRONAME)\n                output.write(f\"    {k}: {format_macrofunction(v)}\\n\")\n        return output.getvalue()\n","    lines = [f\"{c(CS.HEADING1)}Macro bindings for {c(CS.SOURCEFILENAME)}{expander.filename}{c(CS.HEADING1)}:{c()}\\n\"]\n    if not bindings:\n        lines.append(maybe_colorize(\"    <no bindings>\\n\", ColorScheme.GREYEDOUT))\n    for k, v in sorted(bindings.items()):\n        k = maybe_colorize(k, ColorScheme.MACRONAME)\n        lines.append(f\"    {k}: {format_macrofunction(v)}\\n\")\n    return \"\".join(lines)\n")],"lines"),
("debug.py",[("            present = [hasattr(tree, x) for x in self.check_fields]\n            if not all(present):\n","            missing = [x for x in self.check_fields if not hasattr(tree, x)]\n            if missing:\n"),("                              [fieldname for fieldname, p in zip(self.check_fields, present) if not p]))","                              missing))")],"missing"),
("debug.py",[("            present = [hasattr(tree, x) for x in self.check_fields]\n            if not all(present):\n","            if any(not hasattr(tree, x) for x in self.check_fields):\n"),("                              [fieldname for fieldname, p in zip(self.check_fields, present) if not p]))","                              [x for x in self.check_fields if not hasattr(tree, x)]))")],"any"),
("debug.py",[("            present = [hasattr(tree, x) for x in self.check_fields]\n            if not all(present):\n","            missing = []\n            for x in self.check_fields:\n                if not hasattr(tree, x):\n                    missing.append(x)\n            if len(missing) > 0:\n"),("                              [fieldname for fieldname, p in zip(self.check_fields, present) if not p]))","                              missing))")],"loop"),
("debug.py",[("        if tree not in self.ignore:\n            present = [hasattr(tree, x) for x in self.check_fields]\n","        if tree in self.ignore:\n            self.generic_visit(tree)\n            return\n        if True:\n            present = [hasattr(tree, x) for x in self.check_fields]\n")],"early"),
("colorizer.py",[('    return "{}{}{}".format(setcolor(colors),\n                           text,\n                           setcolor())','    return setcolor(*colors) + str(text) + setcolor()')],"plus"),
("colorizer.py",[('    return "{}{}{}".format(setcolor(colors),\n                           text,\n                           setcolor())','    return f"{setcolor(*colors)}{text}{setcolor()}"')],"fstr"),
("colorizer.py",[("    out = [_setcolor(Style.RESET_ALL)] if reset else []\n    out.append(_setcolor(colors))\n    return \"\".join(out)","    prefix = _setcolor(Style.RESET_ALL) if reset else \"\"\n    return prefix + _setcolor(colors)")],"prefix"),
("colorizer.py",[("    out = [_setcolor(Style.RESET_ALL)] if reset else []\n    out.append(_setcolor(colors))\n    return \"\".join(out)","    out = \"\"\n    if reset:\n        out += Style.RESET_ALL\n    for color in colors:\n        out += _setcolor(color)\n    return out")],"acc"),
("utils.py",[('    code = "\\n".join(code_lines[:n])\n    if len(code_lines) > n:\n','    shown = code_lines[0:n]\n    code = "\\n".join(shown)\n    if not (len(code_lines) <= n):\n')],"cut"),
("utils.py",[('    code = "\\n".join(code_lines[:n])\n    if len(code_lines) > n:\n','    code = "\\n".join(code_lines[:n])\n    if code_lines[n:]:\n')],"cut2"),
("utils.py",[('    if not function.__module__:  # Macros defined in the REPL have `__module__=None`.\n        return function.__qualname__\n    return f"{function.__module__}.{function.__qualname__}"','    prefix = f"{function.__module__}." if function.__module__ else ""\n    return prefix + function.__qualname__')],"prefix2"),
("utils.py",[('    if not function.__module__:  # Macros defined in the REPL have `__module__=None`.\n        return function.__qualname__\n    return f"{function.__module__}.{function.__qualname__}"','    return ".".join(x for x in (function.__module__, function.__qualname__) if x)')],"join2"),
("repl/utils.py",[('    for x in (obj, obj.__class__):  # TODO: other places to fall back to?\n        try:\n            filename = inspect.getsourcefile(x)\n            source, firstlineno = inspect.getsourcelines(x)\n            return filename, source, firstlineno\n        except (TypeError, OSError):\n            continue\n    raise NotImplementedError','    def attempt(x):\n        filename = inspect.getsourcefile(x)\n        source, firstlineno = inspect.getsourcelines(x)\n        return filename, source, firstlineno\n    try:\n        return attempt(obj)\n    except (TypeError, OSError):\n        pass\n    try:\n        return attempt(type(obj))\n    except (TypeError, OSError):\n        raise NotImplementedError')],"attempt"),
("repl/utils.py",[('    file = file or sys.stderr\n    printer = partial(print, file=file, end=end)\n    try:\n        filename, source, firstlineno = _get_source(obj)\n        printer(colorize(f"{filename}:{firstlineno}", ColorScheme.SOURCEFILENAME))\n    except NotImplementedError:\n        pass\n','    if file is None:\n        file = sys.stderr\n    def printer(s):\n        print(s, file=file, end=end)\n    try:\n        filename, _, firstlineno = _get_source(obj)\n    except NotImplementedError:\n        pass\n    else:\n        printer(colorize(f"{filename}:{firstlineno}", ColorScheme.SOURCEFILENAME))\n')],"docp"),
("repl/utils.py",[('    if not hasattr(obj, "__doc__") or not obj.__doc__:\n        printer(colorize("<no docstring>", ColorScheme.GREYEDOUT))\n        return\n    print(inspect.cleandoc(obj.__doc__), file=file)','    docstring = getattr(obj, "__doc__", None)\n    if docstring:\n        print(inspect.cleandoc(docstring), file=file)\n    else:\n        printer(colorize("<no docstring>", ColorScheme.GREYEDOUT))')],"docs"),
("repl/utils.py",[('        for line in source:\n            printer(line.rstrip("\\n"))\n','        for line in (x.rstrip("\\n") for x in source):\n            printer(line)\n')],"lines2"),
("repl/utils.py",[('        __macro_expander__.bindings[function.__name__] = function\n','        name = function.__name__\n        __macro_expander__.bindings[name] = function\n')],"def1"),
("repl/utils.py",[('        __macro_expander__.bindings[function.__name__] = function\n','        __macro_expander__.bindings.update({function.__name__: function})\n')],"def2"),
("astcompat.py",[("    if type(tree) is ast.Constant:  # Python 3.8+\n        return tree.value\n    # up to Python 3.7\n    elif type(tree) is ast.NameConstant:","    T = type(tree)\n    if T in (ast.Constant, ast.NameConstant):  # Python 3.8+\n        return tree.value\n    # up to Python 3.7\n    elif type(tree) is ast.NameConstant:")],"const"),
("core.py",[("        global_postprocessors.remove(function)","        del global_postprocessors[global_postprocessors.index(function)]")],"delone"),
("core.py",[("        global_postprocessors.remove(function)","        i = global_postprocessors.index(function)\n        del global_postprocessors[i:i + 1]")],"delslice"),
("core.py",[("        global_postprocessors.remove(function)","        global_postprocessors[:] = [f for f in global_postprocessors if f != function]")],"rebuild"),
("core.py",[("    if function in global_postprocessors:\n        global_postprocessors.remove(function)","    if function not in global_postprocessors:\n        return\n    global_postprocessors.pop(global_postprocessors.index(function))")],"pop"),
("core.py",[("    if function in global_postprocessors:\n        global_postprocessors.remove(function)","    try:\n        global_postprocessors.remove(function)\n    except ValueError:\n        pass")],"try"),
("expander.py",[("        if not self.expander.bindings or isinstance(tree, Done):\n            return\n        if tree is None:\n            return\n        if isinstance(tree, list):","        if tree is None or isinstance(tree, Done):\n            return\n        if not self.expander.bindings:\n            return\n        if isinstance(tree, list):")],"collorder"),
("expander.py",[("                return not (type(tree) is Name and tree.id == macroname)","                if type(tree) is not Name:\n                    return True\n                return tree.id != macroname")],"ismod"),
("expander.py",[("        if not self.expander.bindings or isinstance(tree, Done):","        if len(self.expander.bindings) == 0 or isinstance(tree, Done):")],"len0"),
("expander.py",[("        if not self.expander.bindings or isinstance(tree, Done):","        if not (self.expander.local_bindings or self.expander.bindings) or isinstance(tree, Done):")],"either"),
("expander.py",[("                return not (type(tree) is Name and tree.id == macroname)","                return not (type(tree) is Name and tree.id in (macroname,))")],"ismodin"),
("compiler.py",[("if not all(isinstance(x, ast.stmt) for x in tree.body):","if any(not isinstance(x, ast.stmt) for x in tree.body):")],"anynot"),
("compiler.py",[("if not all(isinstance(x, ast.stmt) for x in tree.body):","invalid_inputs = [x for x in tree.body if not isinstance(x, ast.stmt)]\n        if invalid_inputs:")],"listinv"),
("compiler.py",[("        module.__package__ = packagename","        module.__package__ = package.__name__")],"pkgname"),
("compiler.py",[("    docstring = getdocstring(expansion.body)","    body = expansion.body\n    docstring = getdocstring(body)")],"docb"),
]
