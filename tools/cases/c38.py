T = "build/html/manips/template.py"


def b(name, *edits):
    return ("bug", name, [(T,) + e for e in edits])


def s(name, *edits):
    return ("same", name, [(T,) + e for e in edits])


PUSH = """        self.stack.append(self.current_frame)
        self.current_frame = StackFrame(relpath=parsed_args[1], variables=dict())
        return []"""
POP = """        assert self.stack, "Stack is empty"
        self.current_frame = self.stack.pop()
        return []"""
DEF = "        self.current_frame.variables[key] = val\n"
IMP = """        for key, val in imp.variables.items():
            result.append(
                tkn.HTMLToken(
                    type="Comment", data=f"[STACK: {json.dumps(['define', key, val])}]"
                )
            )
"""
OPEN = """        result.append(
            tkn.HTMLToken(
                type="Comment", data=f"[STACK: {json.dumps(['push', imp.relpath])}]"
            )
        )
"""
CONT = """        with open(os.path.join(self.context.folder, imp.relpath), "r") as f:
            tokens = list(tokenize(f, fragment=True))
            result.extend(tokens)
"""
CLOSE = """        result.append(
            tkn.HTMLToken(type="Comment", data=f"[STACK: {json.dumps(['pop'])}]")
        )
"""
FRAME = "variables=dict())\n        return []"
BAL = """        assert not self.stack, "stack should be empty"
        return BuildFileResult("""
SBAL = """        assert not self.stack, "stack should be empty"
        return ScanFileResult("""
RET = """        assert key in self.current_frame.variables, f"{key} is not defined"
        assert isinstance(
            self.current_frame.variables[key], (str, int, float)
        ), f"{key} is not trivially retrievable"
        as_raw_text = str(self.current_frame.variables[key])
"""

CASES = [
    b("new scope inherits a copy", (FRAME, FRAME.replace("dict()", "dict(self.current_frame.variables)"))),
    b("new scope shares the variables", (FRAME, FRAME.replace("dict()", "self.current_frame.variables"))),
    b("push keeps nothing", (PUSH, PUSH.replace("self.stack.append(self.current_frame)", "self.stack.append(StackFrame(relpath=self.current_frame.relpath, variables=dict()))"))),
    b("push saves the new frame", (PUSH, """        self.current_frame = StackFrame(relpath=parsed_args[1], variables=dict())
        self.stack.append(self.current_frame)
        return []""")),
    b("pop from the front", (POP, POP.replace("self.stack.pop()", "self.stack.pop(0)"))),
    b("pop ignores empty stack", (POP, "        if self.stack:\n            self.current_frame = self.stack.pop()\n        return []")),
    b("pop keeps the frame's variables", (POP, """        assert self.stack, "Stack is empty"
        last = self.current_frame
        self.current_frame = self.stack.pop()
        self.current_frame.variables.update(last.variables)
        return []""")),
    b("pop does not restore", (POP, """        assert self.stack, "Stack is empty"
        self.stack.pop()
        return []""")),
    b("pop only restores path", (POP, """        assert self.stack, "Stack is empty"
        self.current_frame.relpath = self.stack.pop().relpath
        return []""")),
    b("define in the outermost frame", (DEF, "        frame = self.stack[0] if self.stack else self.current_frame\n        frame.variables[key] = val\n")),
    b("define in the including frame", (DEF, DEF + "        if self.stack:\n            self.stack[-1].variables[key] = val\n")),
    b("define only once", (DEF, "        if key not in self.current_frame.variables and not self.stack:\n            self.current_frame.variables[key] = val\n")),
    b("retrieve falls back to outer frame", (RET, "        frame = self.current_frame\n        if key not in frame.variables and self.stack:\n            frame = self.stack[-1]\n" + RET.replace("self.current_frame", "frame"))),
    b("pop before the content", (CONT, ""), (CLOSE, CLOSE + CONT)),
    b("content before push", (OPEN, CONT + OPEN), (CONT + CLOSE, CLOSE)),
    b("defines before push", (OPEN, ""), (IMP, IMP + OPEN)),
    b("defines after the content", (IMP, ""), (CONT, CONT + IMP)),
    b("no scope without variables", (OPEN, "        if imp.variables:\n" + OPEN.replace("\n        ", "\n            ").replace("        result", "            result", 1)), (CLOSE, "        if imp.variables:\n" + CLOSE.replace("\n        ", "\n            ").replace("        result", "            result", 1))),
    b("pop forgotten with several variables", (CLOSE, "        if len(imp.variables) < 2:\n            result.append(\n                tkn.HTMLToken(type=\"Comment\", data=f\"[STACK: {json.dumps(['pop'])}]\")\n            )\n")),
    b("a push per variable", (IMP, IMP.replace("        for key, val in imp.variables.items():\n", "        for key, val in imp.variables.items():\n" + "            result.append(tkn.HTMLToken(type=\"Comment\", data=f\"[STACK: {json.dumps(['push', imp.relpath])}]\"))\n", 1))),
    b("last variable not given", (IMP, IMP.replace("imp.variables.items()", "list(imp.variables.items())[:-1]"))),
    b("only first variable given", (IMP, IMP.rstrip("\n") + "\n            break\n")),
    b("value swapped for key", (IMP, IMP.replace("['define', key, val]", "['define', key, key]"))),
    b("build accepts open scopes", (BAL, BAL.replace('        assert not self.stack, "stack should be empty"\n', ""))),
    b("build accepts one open scope", (BAL, BAL.replace("assert not self.stack", "assert len(self.stack) <= 1"))),
    b("scan accepts open scopes", (SBAL, SBAL.replace('        assert not self.stack, "stack should be empty"\n', ""))),
    b("build closes what is left", (BAL, BAL.replace('        assert not self.stack, "stack should be empty"\n', "        while self.stack:\n            self.current_frame = self.stack.pop()\n"))),
    b("push into itself when same file", (PUSH, "        if parsed_args[1] == self.current_frame.relpath:\n            self.stack.append(self.current_frame)\n            return []\n" + PUSH)),
    b("stack commands ignored in templates", ("        stack_command = self.try_get_command(PREPROCESSOR_STACK_ACTION_RULE, node)\n        if stack_command is not None:\n            return True\n", "        stack_command = self.try_get_command(PREPROCESSOR_STACK_ACTION_RULE, node)\n        if stack_command is not None:\n            return len(self.stack) < 2\n")),
    b("define needs text value", ("        if len(parsed_args) != 3:\n", "        if len(parsed_args) != 3 or not isinstance(parsed_args[2], str):\n")),
    b("variables added to the current frame", ("        return TemplateImport(\n", "        variables = {**self.current_frame.variables, **variables}\n        return TemplateImport(\n")),
    b("rule without spaces", (r'\[\s*STACK\s*:\s+(?P<args>.*)\]\s*$")', r'\[\s*STACK\s*:\s+(?P<args>\S*)\]\s*$")')),
    b("shared default", ("    variables: Dict[str, Any]\n    \"\"\"The variables defined", "    variables: Dict[str, Any]\n    \"\"\"The variables defined"), (FRAME, FRAME.replace("variables=dict()", "variables=self.blank")), ("        self.stack: List[StackFrame] = []\n", "        self.stack: List[StackFrame] = []\n        self.blank: Dict[str, Any] = {}\n")),

    s("frames in one list", ("""        self.stack: List[StackFrame] = []
        self.current_frame: StackFrame = StackFrame(
            relpath=self.relpath, variables=dict()
        )
""", """        self.frames: List[StackFrame] = [StackFrame(relpath=self.relpath, variables={})]
"""), (PUSH, "        self.frames.append(StackFrame(relpath=parsed_args[1], variables={}))\n        return []"), (POP, "        assert len(self.frames) > 1, \"Stack is empty\"\n        self.frames.pop()\n        return []"), ("self.current_frame", "self.frames[-1]", 1), ("assert not self.stack", "assert len(self.frames) == 1", 1)),
    s("raise instead of assert", (POP, """        if not self.stack:
            raise ValueError("Stack is empty")
        self.current_frame = self.stack.pop()
        return []"""), (BAL, """        if len(self.stack) > 0:
            raise ValueError("stack should be empty")
        return BuildFileResult(""")),
    s("balance helper", (BAL, "        self._check_balanced()\n        return BuildFileResult("), (SBAL, "        self._check_balanced()\n        return ScanFileResult("), ("    def scan_result(self)", "    def _check_balanced(self) -> None:\n        assert not self.stack, \"stack should be empty\"\n\n    def scan_result(self)")),
    s("command helper", (OPEN, "        result.append(self._command('push', imp.relpath))\n"), (IMP, "        for key, val in imp.variables.items():\n            result.append(self._command('define', key, val))\n"), (CLOSE, "        result.append(self._command('pop'))\n"), ("    def is_stack_push(", "    def _command(self, *args) -> tkn.HTMLToken:\n        return tkn.HTMLToken(type=\"Comment\", data=f\"[STACK: {json.dumps(list(args))}]\")\n\n    def is_stack_push(")),
    s("list display", ("        result = []\n" + OPEN + IMP, """        result = [
            tkn.HTMLToken(
                type="Comment", data="[STACK: " + json.dumps(["push", imp.relpath]) + "]"
            ),
            *[
                tkn.HTMLToken(
                    type="Comment", data="[STACK: " + json.dumps(["define", key, val]) + "]"
                )
                for key, val in imp.variables.items()
            ],
        ]
""")),
    s("content read first", ("        result = []\n" + OPEN, CONT.replace("            result.extend(tokens)\n", "") + "        result = []\n" + OPEN), (CONT + CLOSE, "        result.extend(tokens)\n" + CLOSE)),
    s("no early list", (CONT, """        with open(os.path.join(self.context.folder, imp.relpath), "r") as f:
            result.extend(tokenize(f, fragment=True))
""")),
    s("walrus dispatch", ("""        stack_command = self.try_get_command(PREPROCESSOR_STACK_ACTION_RULE, node)
        if stack_command is not None:
            return True

        template_command = self.try_get_command(PREPROCESSOR_TEMPLATE_ACTION_RULE, node)
        if template_command is not None:
            return True

        return False
""", """        return any(
            self.try_get_command(rule, node) is not None
            for rule in (
                PREPROCESSOR_STACK_ACTION_RULE,
                PREPROCESSOR_TEMPLATE_ACTION_RULE,
            )
        )
""")),
    s("dict literal", (FRAME, FRAME.replace("dict()", "{}"))),
    s("default factory", ("    variables: Dict[str, Any]\n    \"\"\"The variables defined", "    variables: Dict[str, Any] = field(default_factory=dict)\n    \"\"\"The variables defined"), ("import dataclass\n", "import dataclass, field\n"), (PUSH, PUSH.replace(", variables=dict()", ""))),
    s("retrieve via local", (RET, """        variables = self.current_frame.variables
        if key not in variables:
            raise AssertionError(f"{key} is not defined")
        value = variables[key]
        assert isinstance(value, (str, int, float)), f"{key} is not trivially retrievable"
        as_raw_text = str(value)
""")),
    s("define via update", (DEF, "        self.current_frame.variables.update({key: val})\n")),
    s("stack dispatch by name", ("""        if self.is_stack_push(parsed_args):
            return self.handle_stack_push(parsed_args)

        if self.is_stack_pop(parsed_args):
            return self.handle_stack_pop()
""", """        if self.is_stack_pop(parsed_args):
            return self.handle_stack_pop()

        if self.is_stack_push(parsed_args):
            return self.handle_stack_push(parsed_args)
""")),
    s("variables resolved in comprehension", ("""        for var_key in list(variables.keys()):
            var_val = variables[var_key]
            if (
                isinstance(var_val, dict)
                and var_val.get("type") == "variable"
                and isinstance(var_val.get("name"), str)
            ):
                desired_variable_name = var_val.get("name")
                if desired_variable_name in self.current_frame.variables:
                    variables[var_key] = self.current_frame.variables[
                        desired_variable_name
                    ]
""", """        variables = {key: self._resolve(val) for key, val in variables.items()}
"""), ("    def try_get_command(", """    def _resolve(self, val):
        if (
            not isinstance(val, dict)
            or val.get("type") != "variable"
            or not isinstance(val.get("name"), str)
        ):
            return val
        return self.current_frame.variables.get(val["name"], val)

    def try_get_command(""")),
]
CASES += [
    b("define in outer scopes as well", ("        self.current_frame.variables[key] = val\n", "        self.current_frame.variables[key] = val\n        for frame in self.stack:\n            frame.variables.setdefault(key, val)\n")),
    s("define with update", ("        self.current_frame.variables[key] = val\n", "        self.current_frame.variables.update({key: val})\n")),
]
TPL = "build/html/manips/template.py"
CASES += [
("bug","scope of an empty template stays open",[(TPL,'''        result.append(
            tkn.HTMLToken(type="Comment", data=f"[STACK: {json.dumps(['pop'])}]")
        )
''','''        if tokens:
            result.append(
                tkn.HTMLToken(type="Comment", data=f"[STACK: {json.dumps(['pop'])}]")
            )
''')]),
]

CASES += [("same", 'r9: template commands walrus', [('build/html/manips/template.py', '        stack_command = self.try_get_command(PREPROCESSOR_STACK_ACTION_RULE, node)\n        if stack_command is not None:\n            return True\n\n        template_command = self.try_get_command(PREPROCESSOR_TEMPLATE_ACTION_RULE, node)\n        if template_command is not None:\n            return True\n\n        return False\n', '        return any(\n            self.try_get_command(rule, node) is not None\n            for rule in (\n                PREPROCESSOR_STACK_ACTION_RULE,\n                PREPROCESSOR_TEMPLATE_ACTION_RULE,\n            )\n        )\n')])]

CASES += [("same", 'r9: template stack comment helper', [('build/html/manips/template.py', '        result = []\n        result.append(\n            tkn.HTMLToken(\n                type="Comment", data=f"[STACK: {json.dumps([\'push\', imp.relpath])}]"\n            )\n        )\n        for key, val in imp.variables.items():\n            result.append(\n                tkn.HTMLToken(\n                    type="Comment", data=f"[STACK: {json.dumps([\'define\', key, val])}]"\n                )\n            )\n        with open(os.path.join(self.context.folder, imp.relpath), "r") as f:\n            tokens = list(tokenize(f, fragment=True))\n            result.extend(tokens)\n        result.append(\n            tkn.HTMLToken(type="Comment", data=f"[STACK: {json.dumps([\'pop\'])}]")\n        )\n        return result\n', '        with open(os.path.join(self.context.folder, imp.relpath), "r") as f:\n            tokens = list(tokenize(f, fragment=True))\n\n        return [\n            self.stack_comment("push", imp.relpath),\n            *[\n                self.stack_comment("define", key, val)\n                for key, val in imp.variables.items()\n            ],\n            *tokens,\n            self.stack_comment("pop"),\n        ]\n\n    @staticmethod\n    def stack_comment(*args) -> tkn.HTMLToken:\n        return tkn.HTMLToken(\n            type="Comment", data="[STACK: " + json.dumps(list(args)) + "]"\n        )\n')])]

CASES += [("same", 'r9: template variables comprehension', [('build/html/manips/template.py', '        for var_key in list(variables.keys()):\n            var_val = variables[var_key]\n            if (\n                isinstance(var_val, dict)\n                and var_val.get("type") == "variable"\n                and isinstance(var_val.get("name"), str)\n            ):\n                desired_variable_name = var_val.get("name")\n                if desired_variable_name in self.current_frame.variables:\n                    variables[var_key] = self.current_frame.variables[\n                        desired_variable_name\n                    ]\n\n        return TemplateImport(\n            relpath=command_path_rel_project_root, variables=variables\n        )\n', '        return TemplateImport(\n            relpath=command_path_rel_project_root,\n            variables={key: self.resolve(val) for key, val in variables.items()},\n        )\n\n    def resolve(self, value: Any) -> Any:\n        """A reference to a variable of the current frame becomes its value"""\n        if not isinstance(value, dict) or value.get("type") != "variable":\n            return value\n        name = value.get("name")\n        if isinstance(name, str) and name in self.current_frame.variables:\n            return self.current_frame.variables[name]\n        return value\n')])]
