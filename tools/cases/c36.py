CB = "build/css/builder.py"
HB = "build/html/builder.py"
JB = "build/js/builder.py"
YM = "build/js/yield_manipulator.py"
HI = "build/js/manips/hash_imports.py"
TH = "build/js/manips/type_hints.py"
OI = "build/css/manips/outline_image_data.py"
VU = "build/css/manips/version_urls.py"

LOOP = """        stack = [token]
        while stack:
            token = stack.pop(0)
            if self.mark is None:
                for manipulator in self.manipulators:
                    if manipulator.start_mark(token):
                        self.mark = manipulator
                        break

                if self.mark is None:
                    self.output.append(token)
                    continue

            replacement_tokens = self.mark.continue_mark(token)
            if replacement_tokens is not None:
                stack = replacement_tokens + stack
                self.mark = None"""
CONS = """        output = self.output
        self.output = []
        return output"""
REPL = "                stack = replacement_tokens + stack\n"


def b(name, f, *edits):
    return ("bug", name, [(f,) + e for e in edits])


def s(name, f, *edits):
    return ("same", name, [(f,) + e for e in edits])


GIVE1 = """        if node["type"] != CSSTokenType.string:
            self.skip_next_url_function = True
            result = self.stack
            self.stack = None
            self.state = None
            return result
"""
SM = """        if self.state == "replacing":
            res = self.stack
            self.state = "unmarked"
            self.stack = None
            return res
"""
CM = """            if e.value is False:
                res = self.stack
                self.state = "unmarked"
                self.stack = None
                self.generator = None
                return res
"""

CASES = [
    b("css builder takes from the end", CB, ("stack.pop(0)", "stack.pop()")),
    b("html builder puts the replacement behind", HB, (REPL, "                stack = stack + replacement_tokens\n")),
    b("js builder extends the replacement in place", JB, (REPL, "                replacement_tokens.extend(stack)\n                stack = replacement_tokens\n")),
    b("css builder extends the stack in place", CB, (REPL, "                stack.extend(replacement_tokens)\n")),
    b("html builder drops what follows", HB, (REPL, "                stack = replacement_tokens\n")),
    b("css builder only non-empty replacement counts", CB, ("if replacement_tokens is not None:", "if replacement_tokens:")),
    b("html builder pops the step's own list", HB, (REPL, "                if not stack:\n                    stack = replacement_tokens\n                else:\n                    stack = replacement_tokens + stack\n")),
    b("css builder writes out the replacement unprocessed", CB, (REPL, "                self.output.extend(replacement_tokens)\n")),
    b("css builder keeps the mark", CB, ("                stack = replacement_tokens + stack\n                self.mark = None", "                stack = replacement_tokens + stack\n                if not stack:\n                    self.mark = None")),
    b("html builder no break", HB, ("                        self.mark = manipulator\n                        break\n", "                        self.mark = manipulator\n")),
    b("js builder append while marked", JB, ("            replacement_tokens = self.mark", "            if len(self.output) > 0:\n                self.output.append(token)\n            replacement_tokens = self.mark")),
    b("css builder does not clear output", CB, (CONS, "        return list(self.output)")),
    b("css builder clears what it returned", CB, (CONS, "        output = self.output\n        self.output.clear()\n        return output")),
    b("html builder inserts output at front", HB, ("self.output.append(token)", "self.output.insert(0, token)")),
    b("html builder first manipulator skipped", HB, ("for manipulator in self.manipulators:\n", "for manipulator in self.manipulators:\n                    if token is stack:\n                        continue\n")),
    b("css builder passes over a marked token", CB, ("                        self.mark = manipulator\n                        break\n", "                        self.mark = manipulator\n                        break\n                else:\n                    self.output.append(token)\n")),
    b("html builder returns early after replacement", HB, ("                self.mark = None", "                self.mark = None\n                if not replacement_tokens:\n                    return", 1)),
    b("html builder loop reversed replacement", HB, (REPL, "                for t in replacement_tokens:\n                    stack.insert(0, t)\n")),
    b("html builder extendleft not reversed", HB, (LOOP, LOOP.replace("stack = [token]", "stack = deque([token])").replace("stack.pop(0)", "stack.popleft()").replace("stack = replacement_tokens + stack", "stack.extendleft(replacement_tokens)")), ("from typing import", "from collections import deque\nfrom typing import")),
    b("yield base appends twice", YM, ("            self.state = \"marking\"\n            return None", "            self.state = \"marking\"\n            self.stack.append(node)\n            return None")),
    b("yield base starts with an empty stack", YM, ("            self.stack = [node]\n", "            self.stack = []\n")),
    b("yield base appends after sending", YM, ("        self.stack.append(node)\n        try:\n            self.generator.send(node)\n", "        try:\n            self.generator.send(node)\n            self.stack.append(node)\n")),
    b("yield base no skipping", YM, ("            self.state = \"skipping\"\n", "            self.state = \"marking\"\n")),
    b("yield base gives up with all but last", YM, (CM, CM.replace("res = self.stack", "res = self.stack[:-1]"))),
    b("yield base stays in marking", YM, (CM, CM.replace('                self.state = "unmarked"\n', ""))),
    b("yield base replacing returns the node too", YM, (SM, SM.replace("return res", "return res + [node]"))),
    b("yield base replacing not finished", YM, (SM, SM.replace('            self.state = "unmarked"\n', ""))),
    b("yield base loses immediate replacement", YM, ('            self.state = "replacing"\n            self.stack = e.value\n', '            self.state = "replacing"\n            self.stack = [node]\n')),
    b("yield base gives up when empty", YM, ("            if e.value is False:\n                res", "            if not e.value:\n                res")),
    b("yield base drops the token it gave up on", YM, ("            if e.value is False:\n                return False\n", "            if e.value is False:\n                self.stack = []\n                self.state = \"replacing\"\n                return True\n")),
    b("hash imports drops a token", HI, ("return self.stack[:-1] + [", "return self.stack[:-2] + [")),
    b("hash imports duplicates the last", HI, ("return self.stack[:-1] + [", "return self.stack + [")),
    b("hash imports bad import without the stack", HI, ("        ] + self.stack\n", "        ] + self.stack[1:]\n")),
    b("hash imports bad import loses the last token", HI, ("        ] + self.stack\n", "        ] + self.stack[:-1]\n")),
    b("type hints loses the last token", TH, ("            self.stack[-1],\n", "")),
    b("type hints repeats the last token", TH, ("serialize_many(self.stack[:-1])", "serialize_many(self.stack)")),
    b("type hints drops first token", TH, ("serialize_many(self.stack[:-1])", "serialize_many(self.stack[1:-1])")),
    b("image data gives up without the first", OI, (GIVE1, GIVE1.replace("result = self.stack", "result = self.stack[1:]"))),
    b("image data gives up with the last only", OI, (GIVE1, GIVE1.replace("result = self.stack", "result = [node]"))),
    b("image data appends twice", OI, ("        if node[\"type\"] != CSSTokenType.string:\n", "        if node[\"type\"] != CSSTokenType.string:\n            self.stack.append(node)\n")),
    b("image data appends at start too", OI, ("        self.stack = []\n        return True", "        self.stack = [node]\n        return True")),
    b("image data stale stack", OI, ("        self.stack = []\n        return True", "        self.stack = self.stack or []\n        return True"), (GIVE1, GIVE1.replace("            self.stack = None\n", ""))),

    s("css builder deque", CB, (LOOP, LOOP.replace("stack = [token]", "stack = deque([token])").replace("stack.pop(0)", "stack.popleft()").replace("stack = replacement_tokens + stack", "stack.extendleft(reversed(replacement_tokens))")), ("from typing import", "from collections import deque\nfrom typing import")),
    s("html builder find helper", HB, (LOOP, """        stack = [token]
        while stack:
            token = stack.pop(0)
            if self.mark is None:
                self.mark = self._find(token)
            if self.mark is None:
                self.output.append(token)
                continue

            replacement_tokens = self.mark.continue_mark(token)
            if replacement_tokens is None:
                continue
            self.mark = None
            stack = list(replacement_tokens) + stack

    def _find(self, token):
        for manipulator in self.manipulators:
            if manipulator.start_mark(token):
                return manipulator
        return None""")),
    s("html builder for else", HB, (LOOP, """        stack = [token]
        while len(stack) > 0:
            token = stack.pop(0)
            if self.mark is None:
                for manipulator in self.manipulators:
                    if manipulator.start_mark(token):
                        self.mark = manipulator
                        break
                else:
                    self.output.append(token)
                    continue

            replacement_tokens = self.mark.continue_mark(token)
            if replacement_tokens is not None:
                stack = [*replacement_tokens, *stack]
                self.mark = None""")),
    s("js builder next()", JB, (LOOP, """        stack = [token]
        while stack:
            token = stack.pop(0)
            if self.mark is None:
                self.mark = next((m for m in self.manipulators if m.start_mark(token)), None)
                if self.mark is None:
                    self.output.append(token)
                    continue

            replacement_tokens = self.mark.continue_mark(token)
            if replacement_tokens is not None:
                stack = replacement_tokens + stack
                self.mark = None""")),
    s("css builder recursion", CB, (LOOP, """        if self.mark is None:
            for manipulator in self.manipulators:
                if manipulator.start_mark(token):
                    self.mark = manipulator
                    break
            if self.mark is None:
                self.output.append(token)
                return
        replacement_tokens = self.mark.continue_mark(token)
        if replacement_tokens is not None:
            self.mark = None
            for t in replacement_tokens:
                self.handle_token(t)""")),
    s("css builder reversed stack", CB, (LOOP, LOOP.replace("stack.pop(0)", "stack.pop()").replace("stack = replacement_tokens + stack", "stack.extend(reversed(replacement_tokens))"))),
    s("css builder slices", CB, (LOOP, LOOP.replace("token = stack.pop(0)", "token, stack = stack[0], stack[1:]"))),
    s("css builder index and splice", CB, (LOOP, LOOP.replace("token = stack.pop(0)", "token = stack[0]\n            del stack[0]"))),
    s("css builder slice assignment", CB, (REPL, "                stack[0:0] = replacement_tokens\n")),
    s("html builder copies out", HB, (CONS, "        output = list(self.output)\n        self.output.clear()\n        return output")),
    s("html builder swap", HB, (CONS, "        output, self.output = self.output, []\n        return output")),
    s("html builder mark local", HB, (LOOP, LOOP.replace("replacement_tokens = self.mark.continue_mark(token)", "mark = self.mark\n            replacement_tokens = mark.continue_mark(token)"))),
    s("html builder process helper", HB, (LOOP, """        pending = [token]
        while pending:
            token = pending.pop(0)
            replacement = self._process(token)
            if replacement is not None:
                pending = replacement + pending

    def _process(self, token):
        if self.mark is None:
            for manipulator in self.manipulators:
                if manipulator.start_mark(token):
                    self.mark = manipulator
                    break
            if self.mark is None:
                self.output.append(token)
                return None
        replacement = self.mark.continue_mark(token)
        if replacement is not None:
            self.mark = None
        return replacement""")),
    s("html builder insert at index", HB, (REPL, "                for i, t in enumerate(replacement_tokens):\n                    stack.insert(i, t)\n")),
    s("yield base finish helper", YM, (CM, "            if e.value is False:\n                return self._finish(self.stack)\n"), ("    @abc.abstractmethod\n    def handle(", "    def _finish(self, tokens):\n        self.state = \"unmarked\"\n        self.stack = None\n        self.generator = None\n        return tokens\n\n    @abc.abstractmethod\n    def handle(")),
    s("yield base match order", YM, (SM, ""), ("        self.stack.append(node)\n        try:", SM + "\n        self.stack.append(node)\n        try:")),
    s("yield base else clause", YM, ("""        try:
            next(generator)
            if node["type"] == JSTokenType.eof:
                raise RuntimeError(f"{self.__class__}.handle yielded on EOF")

            self.state = "skipping"
            self.stack = [node]
            self.generator = generator
            return True
        except StopIteration as e:
            if e.value is False:
                return False
""", """        try:
            generator.send(None)
        except StopIteration as e:
            result = e.value
        else:
            if node["type"] == JSTokenType.eof:
                raise RuntimeError(f"{self.__class__}.handle yielded on EOF")
            self.generator = generator
            self.stack = [node]
            self.state = "skipping"
            return True

        if True:
            if result is False:
                return False
"""), ("""            if not isinstance(e.value, (list, tuple)):
                raise TypeError(
                    f"handle must return a list or False, not {type(e.value)} ({e.value=})"
                )

            self.state = "replacing"
            self.stack = e.value
            return True""", """            if not isinstance(result, (list, tuple)):
                raise TypeError(
                    f"handle must return a list or False, not {type(result)} ({result=})"
                )

            self.state = "replacing"
            self.stack = result
            return True""")),
    s("yield base states renamed", YM, ('"replacing"', '"ready"', 1), ('"skipping"', '"first"', 1)),
    s("yield base tuple", YM, ("                res = self.stack\n                self.state", "                res = list(self.stack)\n                self.state")),
    s("hash imports star", HI, ("""        return self.stack[:-1] + [
            JSToken(type=JSTokenType.string_literal, value=new_import_path)
        ]""", """        replaced = JSToken(type=JSTokenType.string_literal, value=new_import_path)
        return [*self.stack[:-1], replaced]""")),
    s("hash imports copy and set last", HI, ("""        return self.stack[:-1] + [
            JSToken(type=JSTokenType.string_literal, value=new_import_path)
        ]""", """        result = list(self.stack)
        result[-1] = JSToken(type=JSTokenType.string_literal, value=new_import_path)
        return result""")),
    s("hash imports pop last", HI, ("""        return self.stack[:-1] + [
            JSToken(type=JSTokenType.string_literal, value=new_import_path)
        ]""", """        result = list(self.stack)
        result.pop()
        result.append(JSToken(type=JSTokenType.string_literal, value=new_import_path))
        return result""")),
    s("hash imports bad comment first", HI, ("        return [\n            JSToken(\n                type=JSTokenType.comment,", "        out = [\n            JSToken(\n                type=JSTokenType.comment,"), ("        ] + self.stack\n", "        ]\n        out.extend(self.stack)\n        return out\n")),
    s("type hints locals", TH, ("""        return [
            JSToken(type=JSTokenType.comment, value=serialize_many(self.stack[:-1])),
            self.stack[-1],
        ]""", """        *line, last = self.stack
        hidden = JSToken(type=JSTokenType.comment, value=serialize_many(line))
        return [hidden, last]""")),
    s("type hints token variable", TH, ("            self.stack[-1],\n", "            token,\n")),
    s("image data give up helper", OI, (GIVE1, "        if node[\"type\"] != CSSTokenType.string:\n            return self._give_up()\n"), ("    def scan_result(self)", "    def _give_up(self):\n        self.skip_next_url_function = True\n        result = self.stack\n        self.stack = None\n        self.state = None\n        return result\n\n    def scan_result(self)")),
    s("image data list of two", OI, (GIVE1, GIVE1.replace("result = self.stack", "result = [self.stack[0], node]"))),
    s("image data start with the node", OI, ("        self.stack = []\n        return True", "        self.stack = [node]\n        return True"), ("        self.stack.append(node)\n\n        if self.state == \"expecting_url\":", "        if self.state != \"expecting_url\":\n            self.stack.append(node)\n\n        if self.state == \"expecting_url\":")),
]

HT = "build/html/tokenizer.py"
TRY = """                try:
                    close_comment_idx = data.index("-->")
                except ValueError:
                    yield token
                    yield next_token
                    continue
"""
LOOPH = """    tokens = iter(walker(doc))
    while True:
        try:
            token = next(tokens)
        except StopIteration:
            break
"""
CASES += [
    b("type hint loses terminator", TH, ("            JSToken(type=JSTokenType.comment, value=serialize_many(self.stack[:-1])),\n            self.stack[-1],\n", "            JSToken(type=JSTokenType.comment, value=serialize_many(self.stack).rstrip()),\n")),
    b("html remainder which is blank", HT, ("                if remainder:\n", "                if remainder.strip():\n")),
    b("html unclosed comment loses bracket", HT, (TRY, TRY.replace("                    yield token\n", ""))),
    b("html lookahead dropped", HT, ("            yield token\n            yield next_token\n            continue\n\n        yield token", "            yield token\n            continue\n\n        yield token")),
    b("html last bracket dropped", HT, ("            except StopIteration:\n                yield token\n                break\n", "            except StopIteration:\n                break\n")),
    b("html bracket falls through", HT, ("            yield token\n            yield next_token\n            continue\n\n        yield token", "            yield token\n            yield next_token\n\n        yield token")),
    b("html comment remainder from the wrong end", HT, ("data.index(\"-->\")", "data.rindex(\"--\")")),
    b("html comment cut short", HT, ("data=data[3:close_comment_idx]", "data=data[4:close_comment_idx]")),
    s("html find", HT, (TRY, """                close_comment_idx = data.find("-->")
                if close_comment_idx < 0:
                    yield token
                    yield next_token
                    continue
""")),
    s("html for loop", HT, (LOOPH, "    tokens = iter(walker(doc))\n    for token in tokens:\n")),
    s("html next with default", HT, (LOOPH, """    tokens = iter(walker(doc))
    while True:
        token = next(tokens, None)
        if token is None:
            break
""")),
    s("html partition", HT, ("                    yield next_token\n                    continue\n\n                yield HTMLToken(", "                    yield next_token\n                    continue\n\n                body, _, rest = data[3:].partition(\"-->\")\n                yield HTMLToken("), ("data=data[3:close_comment_idx]", "data=body"), ("remainder = data[close_comment_idx + 3 :]", "remainder = rest")),
    s("html predicate helper", HT, ("        if token[\"type\"] == \"Characters\" and token[\"data\"] == \"<\":", "        if _is_text(token, \"<\"):"), ("def tokenize(f", "def _is_text(token, data):\n    return token[\"type\"] == \"Characters\" and token[\"data\"] == data\n\n\ndef tokenize(f")),
    s("html pending token", HT, (LOOPH, """    pending = None
    tokens = iter(walker(doc))
    while True:
        try:
            token = next(tokens) if pending is None else pending
            pending = None
        except StopIteration:
            break
"""), ("            yield token\n            yield next_token\n            continue\n\n        yield token", "            yield token\n            pending = next_token\n            continue\n\n        yield token")),
    ("bug", "outline: white space is lost", [("build/html/manips/outline.py", """        self.outlining_to.write(node["data"])
        return None""", """        if node["type"] == "Characters":
            self.outlining_to.write(node["data"])
        return None""")]),
    ("same", "outline: empty text not written", [("build/html/manips/outline.py", """        self.outlining_to.write(node["data"])
        return None""", """        if node["data"]:
            self.outlining_to.write(node["data"])
        return None""")]),
    ("same", "outline: text first", [("build/html/manips/outline.py", """        if node["type"] == "EndTag":
            self.outlining_to.close()""", """        if node["type"] in ("Characters", "SpaceCharacters"):
            self.outlining_to.write(node["data"])
            return None

        if node["type"] == "EndTag":
            self.outlining_to.close()""")]),
]

CASES += [("same", 'r8: canonical table', [('build/html/manips/link_rel_canonical.py', '        if node["name"] == "link":\n            rel = node["data"].get((None, "rel"))\n            if rel == "canonical":\n                return TagToReplace(\n                    name="link",\n                    attr="href",\n                    other_tags=None,\n                )\n            return None\n\n        if node["name"] == "meta":\n            property = node["data"].get((None, "property"))\n            if property == "og:url":\n                return TagToReplace(\n                    name="meta",\n                    attr="content",\n                    other_tags=None,\n                )\n            return None\n\n        return None\n', '        for name, kind, value, attr in (\n            ("link", "rel", "canonical", "href"),\n            ("meta", "property", "og:url", "content"),\n        ):\n            if node["name"] == name and node["data"].get((None, kind)) == value:\n                return TagToReplace(name=name, attr=attr, other_tags=None)\n\n        return None\n')])]

CASES += [("same", 'r8: canonical path helper', [('build/html/manips/link_rel_canonical.py', '        href = node["data"].get((None, tag.attr))\n        new_href = None\n        if href is None:\n            path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]\n            path = path_relative_to_public.replace(os.path.sep, "/")\n            new_href = f"https://{host}/{path}"\n        else:\n            new_href = f"https://{host}{href}"\n\n        new_tags = tag.other_tags.copy()\n        new_tags[tag.attr] = new_href\n        new_tags = dict((k, new_tags[k]) for k in sorted(new_tags.keys()))\n        new_node = tkn.empty_tag(tag.name, new_tags)\n        return [new_node]\n', '        href = node["data"].get((None, tag.attr), self._own_path())\n        tags = {**tag.other_tags, tag.attr: "https://" + host + href}\n        return [tkn.empty_tag(tag.name, {k: tags[k] for k in sorted(tags)})]\n\n    def _own_path(self) -> str:\n        return "/" + self.relpath[PUBLIC_PREFIX_LENGTH:].replace(os.path.sep, "/")\n')])]
