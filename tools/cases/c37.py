CSS = "build/css/tokenizer.py"; JS = "build/js/tokenizer.py"; IC = "build/css/manips/icons/tokenizer.py"; IO = "build/ioutil.py"
CASES = [
    # ---- bugs
    ("bug", "css comment: end not seen", [(CSS, """        if peeked is None:
            return None
        if peeked == "*/":""", """        if peeked == "*/":"""), (CSS, """        comment += fp.read(1)
""", """        comment += fp.read(1) or ""
""")]),
    ("bug", "css comment end compares with empty", [(CSS, """        if peeked is None:
            return None
        if peeked == "*/":""", """        if peeked == "":
            return None
        if peeked == "*/":"""), (CSS, """        comment += fp.read(1)
""", """        consumed = fp.read(1)
        if consumed:
            comment += consumed
""")]),
    ("bug", "css string: escape at the end only peeked", [(CSS, """            if len(peek_2) == 1:
                fp.read(1)
                continue
""", """            if len(peek_2) == 1:
                continue
""")]),
    ("bug", "css string: escaped newline not consumed", [(CSS, """            if peek_2[1] == "\\n":
                fp.read(2)
                continue
""", """            if peek_2[1] == "\\n":
                continue
""")]),
    ("bug", "css hyphen which starts an escape", [(CSS, """            peekable.read(1)
            yield CSSToken(type=CSSTokenType.delim, value="-")
            continue
""", """            if peek_3 is not None and len(peek_3) > 1:
                peekable.read(1)
            yield CSSToken(type=CSSTokenType.delim, value="-")
            continue
""")]),
    ("bug", "css url: bad url left in place", [(CSS, """            _consume_remnants_of_bad_url(fp)
            return CSSToken(type=CSSTokenType.bad_url)
""", """            if _is_non_printable(peeked):
                continue
            _consume_remnants_of_bad_url(fp)
            return CSSToken(type=CSSTokenType.bad_url)
""")]),
    ("bug", "css url whitespace skipped by looking", [(CSS, """        if _is_whitespace(peeked):
            fp.read(1)
            continue
""", """        if _is_whitespace(peeked):
            continue
""")]),
    ("bug", "css url without end", [(CSS, """        if peeked is None or peeked == "":
            # parse error
            return CSSToken(type=CSSTokenType.url, value=value)

        if peeked == ")":""", """        if peeked == ")":"""), (CSS, """            value += _consume_escaped_code_point(fp)
            continue

        value += fp.read(1)


def _consume_rem""", """            value += _consume_escaped_code_point(fp)
            continue

        value += fp.read(1) or ""


def _consume_rem""")]),
    ("bug", "css remnants without end", [(CSS, """        if consumed is None or consumed == "" or consumed == ")":
            return

        if _is_valid_escape(consumed + fp.peek(1)):""", """        if consumed == ")":
            return

        if consumed and fp.peek(1) and _is_valid_escape(consumed + fp.peek(1)):""")]),
    ("bug", "css number sign accepted but not read", [(CSS, """    if peeked in "+-":
        repr += fp.read(1)

    while True:""", """    while True:""")]),
    ("bug", "css number test looks further than the reading", [(CSS, """    if three[0] == ".":
        return three[1].isdigit()

    return three[0].isdigit()""", """    if three[0] == ".":
        return three[1].isdigit() or three[1] in "eE"

    return three[0].isdigit()""")]),
    ("bug", "css ident start wider than ident", [(CSS, """    return char.isalpha() or ord(char) >= 0x0080 or char == "_"
""", """    return char.isalpha() or ord(char) >= 0x0080 or char in "_$"
"""), (CSS, """    return _is_ident_start_codepoint(char) or char.isdigit() or char == "-"
""", """    return char.isalnum() or ord(char) >= 0x0080 or char in "_-"
""")]),
    ("bug", "css digits: isnumeric in the test only", [(CSS, """    if three[0] == ".":
        return three[1].isdigit()

    return three[0].isdigit()""", """    if three[0] == ".":
        return three[1].isdigit()

    return three[0].isnumeric()"""), (CSS, """        peeked = fp.peek(1)
        if peeked is None:
            if repr in "+-" or repr == "":
                return None
            return int(repr), res_type
        if not peeked.isdigit():
            break
""", """        peeked = fp.peek(1)
        if peeked is None:
            if repr in "+-" or repr == "":
                return None
            return int(repr), res_type
        if peeked not in "0123456789":
            break
"""), (CSS, """        if peeked.isdigit():
            yield _consume_numeric_token(peekable)""", """        if peeked.isnumeric():
            yield _consume_numeric_token(peekable)""")]),
    ("bug", "css ident: invalid escape loops", [(CSS, """            result += _consume_escaped_code_point(fp)
            continue

        break

    return result""", """            result += _consume_escaped_code_point(fp)
            continue

        if peeked == "\\\\":
            continue
        break

    return result""")]),
    ("bug", "css ident sequence with -- but ident stops", [(CSS, """    return _is_ident_start_codepoint(char) or char.isdigit() or char == "-"
""", """    return _is_ident_start_codepoint(char) or char.isdigit()
""")]),
    ("bug", "css final delim not read", [(CSS, "        peekable.read(1)\n        yield CSSToken(type=CSSTokenType.delim, value=peeked)", "        yield CSSToken(type=CSSTokenType.delim, value=peeked)")]),
    ("bug", "css whitespace: form feed seen but not skipped", [(CSS, """    while _is_whitespace(fp.peek(1)):
        res += fp.read(1)
""", """    while peeked := fp.peek(1):
        if peeked == "\\t":
            continue
        if not _is_whitespace(peeked):
            break
        res += fp.read(1)
""")]),
    ("bug", "css url spaces until the quote", [(CSS, """            peek_2 = fp.peek(2)
            if peek_2 is None or len(peek_2) < 2 or not _is_whitespace(peek_2):
                break
            fp.read(1)
""", """            peek_2 = fp.peek(2)
            if peek_2 is not None and not _is_whitespace(peek_2):
                break
            fp.read(1)
""")]),
    ("bug", "hex escape digits by count of peek", [(CSS, """        while len(hex_digits) < 6 and _is_hex_digit(fp.peek(1)):
            hex_digits += fp.read(1)
""", """        while len(hex_digits) < 6:
            if _is_hex_digit(fp.peek(1)):
                hex_digits += fp.read(1)
""")]),
    ("bug", "js multi line comment end", [(JS, """    while (peeked := peekable.peek(2)) and peeked != "*/":
        res += peekable.read(1)

    if peeked == "*/":""", """    while (peeked := peekable.peek(2)) != "*/":
        res += peekable.read(1) or ""

    if peeked == "*/":""")]),
    ("bug", "js single line comment end", [(JS, """    while (peeked := peekable.peek(1)) and not _is_newline(peeked):
        res += peekable.read(1)
    return""", """    while not _is_newline(peekable.peek(1) or " "):
        res += peekable.read(1) or ""
    return""")]),
    ("bug", "js string: unterminated", [(JS, """        if not peeked or _is_newline(peeked):
            return JSToken(type=JSTokenType.invalid, value=quote + res)
        if peeked == quote:""", """        if peeked is not None and _is_newline(peeked):
            return JSToken(type=JSTokenType.invalid, value=quote + res)
        if peeked == quote:"""), (JS, """                else:
                    res += escaped
        else:
            res += peekable.read(1)""", """                else:
                    res += escaped
        else:
            res += peekable.read(1) or \"\"""")]),
    ("bug", "js string: line continuation", [(JS, """                peekable.read(1)
                peeked = peekable.peek(1)
                if not peeked:
                    return JSToken(type=JSTokenType.invalid, value=quote + res + "\\\\")
""", """                peeked = peekable.peek(2)[1:]
                if not peeked:
                    return JSToken(type=JSTokenType.invalid, value=quote + res + "\\\\")
                if _is_newline(peeked):
                    continue
                peekable.read(1)
""")]),
    ("bug", "js identifier: escapes tested, not read", [(JS, """        if peeked == "\\\\" and _is_unicode_escape_sequence(peekable.peek(10)[1:]):
            peekable.read(1)
            res += _consume_unicode_escape_sequence(peekable)
        elif not res""", """        if peeked == "\\\\" and _is_unicode_escape_sequence(peekable.peek(10)[1:]):
            res += _consume_unicode_escape_sequence(peekable) or ""
        elif not res""")]),
    ("bug", "js braces escape without end", [(JS, """            peeked = peekable.peek(1)
            if not peeked:
                return None
            if peeked == "}":
                break
            res += peekable.read(1)

        peekable.read(1)
""", """            peeked = peekable.peek(1)
            if peeked == "}":
                break
            res += peekable.read(1) or ""

        peekable.read(1)
""")]),
    ("bug", "js four digit escape without end", [(JS, """        peeked = peekable.peek(1)
        if not peeked:
            return None

        if peeked not in string.hexdigits:
            return None
        res += peekable.read(1)

    return chr(int(res, 16))""", """        peeked = peekable.peek(1)
        if peeked and peeked not in string.hexdigits:
            return None
        res += peekable.read(1) or ""

    return chr(int(res, 16))""")]),
    ("bug", "js regex class end", [(JS, """        if not peeked or _is_newline(peeked):
            return JSToken(type=JSTokenType.invalid, value="/" + res)
        if group_level == 0""", """        if peeked and _is_newline(peeked) and group_level == 0:
            return JSToken(type=JSTokenType.invalid, value="/" + res)
        if group_level == 0"""), (JS, """            group_level += 1
        res += peekable.read(1)
    flags""", """            group_level += 1
        res += peekable.read(1) or ""
    flags""")]),
    ("bug", "js regex flags at the end", [(JS, """        if peeked is None or peeked not in "igmsuyd":
            break
        flags += peekable.read(1)
""", """        if peeked and peeked not in "igmsuyd":
            break
        flags += peekable.read(1) or ""
""")]),
    ("bug", "js slash alone", [(JS, """        if peeked == "/":
            yield _consume_regex(peekable)
            continue
""", """        if peeked == "/":
            if peekable.peek(2) == "/=":
                yield JSToken(type=JSTokenType.invalid, value="/=")
                continue
            yield _consume_regex(peekable)
            continue
""")]),
    ("bug", "js newline token not read", [(JS, """        if _is_newline(peeked):
            peekable.read(1)
            yield""", """        if _is_newline(peeked):
            if peeked == "\\n":
                peekable.read(1)
            yield""")]),
    ("bug", "js invalid not read", [(JS, "yield JSToken(type=JSTokenType.invalid, value=peekable.read(1))", "yield JSToken(type=JSTokenType.invalid, value=peekable.peek(1))")]),
    ("bug", "js quote given to the wrong reader", [(JS, """    quote = peekable.read(1)
    res = ""
    while True:
        peeked = peekable.peek(1)""", """    quote = peekable.peek(1)
    res = ""
    if peekable.peek(2) == quote * 2:
        return JSToken(type=JSTokenType.string_literal, value=res)
    peekable.read(1)
    while True:
        peeked = peekable.peek(1)""")]),
    ("bug", "icons comment loop on peek", [(IC, """    while consumed := fp.read(1):
        if consumed == "\\n":
            break
        res += consumed
""", """    while fp.peek(1) != "\\n":
        res += fp.read(1) or ""
""")]),
    ("bug", "icons colon not read", [(IC, """            yield IconToken(type=IconTokenType.colon, value=None)
            peekable.read(1)
            continue
""", """            yield IconToken(type=IconTokenType.colon, value=None)
            if peekable.peek(2) != ": ":
                continue
            peekable.read(1)
            continue
""")]),
    ("bug", "icons ident start differs", [(IC, """        if _is_ident_start_codepoint(peeked):
            yield _consume_ident_like(peekable)
            continue
""", """        if _is_ident_start_codepoint(peeked) or peeked == "\\\\":
            yield _consume_ident_like(peekable)
            continue
""")]),
    ("bug", "icons plus as number", [(IC, """            if _is_number(peekable.peek(3)):
                yield _consume_number(peekable)
                continue
            peekable.read(1)
            yield IconToken(type=CSSTokenType.delim, value="+")
            continue
""", """            if _is_number(peekable.peek(3)):
                yield _consume_number(peekable)
                continue
            if peekable.peek(2) is not None and len(peekable.peek(2)) == 2:
                peekable.read(1)
            yield IconToken(type=CSSTokenType.delim, value="+")
            continue
""")]),
    ("bug", "input: empty at the end", [(IO, """        if len(res) == 0:
            return None

        attempted_peek_length = n""", """        attempted_peek_length = n"""), (IO, """            if len(res) == n or len(res) == old_actual_peek_length:
                return res""", """            if len(res) == n or len(res) == old_actual_peek_length:
                return res""")]),
    ("bug", "input: empty text at the end", [(IO, """        if self.seen_eof:
            if not self.buffer:
                return None

            if n == -1 or len(self.buffer) <= n:
                return self.buffer
""", """        if self.seen_eof:
            if n == -1 or len(self.buffer) <= n:
                return self.buffer
"""), (IO, """        if len(res) == 0:
            return None

        attempted_peek_length = n""", """        attempted_peek_length = n""")]),
    ("bug", "input: asks for more forever", [(IO, """            if len(res) == n or len(res) == old_actual_peek_length:
                return res""", """            if len(res) == n:
                return res""")]),
    ("bug", "input: reading asks for more forever", [(IO, """            additional = self._read(n - len(res))
            if additional is None:
                return res
            res += additional
""", """            additional = self._read(n - len(res))
            if additional is not None:
                res += additional
""")]),
    ("bug", "input: what was read stays", [(IO, """        if len(self.buffer) >= n:
            res = self.buffer[:n]
            self.buffer = self.buffer[n:]
            return res

        new_data""", """        if len(self.buffer) >= n:
            return self.buffer[:n]

        new_data""")]),
    ("bug", "input: what was read stays at the end", [(IO, """            if n == -1 or len(self.buffer) <= n:
                res = self.buffer
                self.buffer = ""
                return res
""", """            if n == -1 or len(self.buffer) <= n:
                return self.buffer
""")]),
    # ---- the same behaviour
    ("same", "css loop written out", [(CSS, """    while peeked := peekable.peek(1):
        if (comment := _consume_comment(peekable)) is not None:
            yield comment
            continue
""", """    while True:
        peeked = peekable.peek(1)
        if not peeked:
            break
        comment = _consume_comment(peekable)
        if comment is not None:
            yield comment
            continue
""")]),
    ("same", "css single characters by a table", [(CSS, """        if peeked == "(":
            peekable.read(1)
            yield CSSToken(type=CSSTokenType.left_parens)
            continue

        if peeked == ")":
            peekable.read(1)
            yield CSSToken(type=CSSTokenType.right_parens)
            continue
""", """        if peeked in SINGLE:
            yield CSSToken(type=SINGLE[peekable.read(1)])
            continue
"""), (CSS, """WHITESPACE_CHARACTERS = "\\n\\t "
""", """WHITESPACE_CHARACTERS = "\\n\\t "

SINGLE = {"(": CSSTokenType.left_parens, ")": CSSTokenType.right_parens}
""")]),
    ("same", "css elif chain", [(CSS, """        if peeked == ":":
            peekable.read(1)
            yield CSSToken(type=CSSTokenType.colon)
            continue

        if peeked == ";":
            peekable.read(1)
            yield CSSToken(type=CSSTokenType.semicolon)
            continue
""", """        if peeked == ":" or peeked == ";":
            peekable.read(1)
            if peeked == ":":
                yield CSSToken(type=CSSTokenType.colon)
            else:
                yield CSSToken(type=CSSTokenType.semicolon)
            continue
""")]),
    ("same", "css helper for delim", [(CSS, """            peekable.read(1)
            yield CSSToken(type=CSSTokenType.delim, value="-")
            continue
""", """            yield _delim(peekable)
            continue
"""), (CSS, """def _consume_comment(fp""", """def _delim(fp):
    return CSSToken(type=CSSTokenType.delim, value=fp.read(1))


def _consume_comment(fp""")]),
    ("same", "css ident start by ranges", [(CSS, """    return char.isalpha() or ord(char) >= 0x0080 or char == "_"
""", """    if char == "_":
        return True
    if "a" <= char <= "z" or "A" <= char <= "Z":
        return True
    return 0x80 <= ord(char)
""")]),
    ("same", "css number by a helper", [(CSS, """        if not peeked.isdigit():
            break
        repr += fp.read(1)

    peek_2""", """        if peeked.isdigit():
            repr += fp.read(1)
        else:
            break

    peek_2""")]),
    ("same", "css digits helper", [(CSS, """        repr += fp.read(2)
        res_type = "number"
        while True:
            peeked = fp.peek(1)
            if peeked is None:
                return float(repr), res_type
            if not peeked.isdigit():
                break
            repr += fp.read(1)

    peek_3""", """        repr += fp.read(2)
        res_type = "number"
        repr += _digits(fp)
        if fp.peek(1) is None:
            return float(repr), res_type

    peek_3"""), (CSS, """def _consume_number(""", """def _digits(fp):
    res = ""
    while (c := fp.peek(1)) is not None and c.isdigit():
        res += fp.read(1)
    return res


def _consume_number(""")]),
    ("same", "css string with else", [(CSS, """            if len(peek_2) == 1:
                fp.read(1)
                continue

            if peek_2[1] == "\\n":
                fp.read(2)
                continue

            fp.read(1)
            value += _consume_escaped_code_point(fp)
            continue

        value += fp.read(1)


def _consume_esc""", """            if len(peek_2) == 1:
                fp.read(1)
            elif peek_2[1] == "\\n":
                fp.read(2)
            else:
                fp.read(1)
                value += _consume_escaped_code_point(fp)
        else:
            value += fp.read(1)


def _consume_esc""")]),
    ("same", "css number by startswith", [(CSS, """    if three[0] in "+-":
        return three[1].isdigit() or (three[1] == "." and three[2].isdigit())

    if three[0] == ".":
        return three[1].isdigit()

    return three[0].isdigit()""", """    rest = three[1:] if three.startswith(("+", "-")) else three
    if rest[0] == ".":
        return rest[1].isdigit()
    return rest[0].isdigit()""")]),
    ("same", "js comment with a flag", [(JS, """    while (peeked := peekable.peek(2)) and peeked != "*/":
        res += peekable.read(1)

    if peeked == "*/":
        peekable.read(2)
""", """    done = False
    while not done:
        peeked = peekable.peek(2)
        if not peeked:
            done = True
        elif peeked == "*/":
            peekable.read(2)
            done = True
        else:
            res += peekable.read(1)
""")]),
    ("same", "js whitespace by reading", [(JS, """    while (peeked := peekable.peek(1)) and _is_whitespace(peeked):
        res += peekable.read(1)

    if res:""", """    for ch in iter(lambda: peekable.peek(1), None):
        if not _is_whitespace(ch):
            break
        res += peekable.read(1)

    if res:""")]),
    ("same", "js identifier split", [(JS, """        elif not res and is_id_start(peeked):
            res += peekable.read(1)
        elif res and (peeked in "$\\u200C\\u200D" or is_id_continue(peeked)):
            res += peekable.read(1)
        else:
            break
""", """        else:
            if res:
                fits = peeked in "$\\u200C\\u200D" or is_id_continue(peeked)
            else:
                fits = is_id_start(peeked)
            if not fits:
                break
            res += peekable.read(1)
""")]),
    ("same", "js escapes by a table", [(JS, """                if escaped == "n":
                    res += "\\n"
                elif escaped == "r":""", """                if escaped in {"n": 1}:
                    res += "\\n"
                elif escaped == "r":""")]),
    ("same", "js hexdigits of its own", [(JS, """        if peeked not in string.hexdigits:
            return None
        res += peekable.read(1)""", """        if not _hex(peeked):
            return None
        res += peekable.read(1)"""), (JS, """def _consume_string_literal(""", """def _hex(ch):
    return ch in string.hexdigits


def _consume_string_literal(""")]),
    ("same", "js bound methods", [(JS, """    peekable.read(1)
    group_level = 0
    res = ""
    while True:
        peeked = peekable.peek(1)""", """    read, peek = peekable.read, peekable.peek
    read(1)
    group_level = 0
    res = ""
    while True:
        peeked = peek(1)"""), (JS, """            res += peekable.read(2)
            continue
        if group_level > 0""", """            res += read(2)
            continue
        if group_level > 0""")]),
    ("same", "js counted digits", [(JS, """    while len(res) < 4:
        peeked = peekable.peek(1)""", """    left = 4
    while left > 0:
        left -= 1
        peeked = peekable.peek(1)""")]),
    ("same", "icons read first", [(IC, """            yield IconToken(type=IconTokenType.colon, value=None)
            peekable.read(1)
            continue
""", """            peekable.read(1)
            yield IconToken(type=IconTokenType.colon, value=None)
            continue
""")]),
    ("same", "icons punctuation table", [(IC, """        if peeked == "{":
            yield IconToken(type=IconTokenType.open_curly_bracket, value=None)
            peekable.read(1)
            continue

        if peeked == "}":
            yield IconToken(type=IconTokenType.close_curly_bracket, value=None)
            peekable.read(1)
            continue
""", """        kind = PUNCTUATION.get(peeked)
        if kind is not None:
            yield IconToken(type=kind, value=None)
            peekable.read(1)
            continue
"""), (IC, """def _consume_whitespace(""", """PUNCTUATION = {
    "{": IconTokenType.open_curly_bracket,
    "}": IconTokenType.close_curly_bracket,
}


def _consume_whitespace(""")]),
    ("same", "icons comment with peek", [(IC, """    while consumed := fp.read(1):
        if consumed == "\\n":
            break
        res += consumed
""", """    while True:
        ch = fp.read(1)
        if ch in (None, "\\n"):
            break
        res += ch
""")]),
    ("same", "input: loop written otherwise", [(IO, """            res = self._peek(new_peek_length)
            if len(res) == n or len(res) == old_actual_peek_length:
                return res
            attempted_peek_length = new_peek_length""", """            res = self._peek(new_peek_length)
            got = len(res)
            if got == n:
                return res
            if got <= old_actual_peek_length:
                return res
            attempted_peek_length = new_peek_length""")]),
    ("same", "input: take helper", [(IO, """        if len(self.buffer) >= n:
            res = self.buffer[:n]
            self.buffer = self.buffer[n:]
            return res

        new_data""", """        if len(self.buffer) >= n:
            return self._take(n)

        new_data"""), (IO, """    def peek(self, n: int = 1) -> Optional[str]:
        \"\"\"Returns without advancing the next n characters. If n is -1, then
        returns all remaining characters.

        If we're at EOF, returns None.
        \"\"\"
        if self.seen_eof:""", """    def _take(self, n: int) -> str:
        res, self.buffer = self.buffer[:n], self.buffer[n:]
        return res

    def peek(self, n: int = 1) -> Optional[str]:
        \"\"\"Returns without advancing the next n characters. If n is -1, then
        returns all remaining characters.

        If we're at EOF, returns None.
        \"\"\"
        if self.seen_eof:""")]),
    ("same", "input: read loop by or", [(IO, """            additional = self._read(n - len(res))
            if additional is None:
                return res
            res += additional
""", """            additional = self._read(n - len(res))
            if not additional:
                break
            res += additional
""")]),
]

CASES += [("same", 'r7: css builder next', [('build/css/builder.py', '                for manipulator in self.manipulators:\n                    if manipulator.start_mark(token):\n                        self.mark = manipulator\n                        break\n\n                if self.mark is None:\n                    self.output.append(token)\n                    continue\n\n            replacement_tokens = self.mark.continue_mark(token)\n            if replacement_tokens is not None:\n                stack = replacement_tokens + stack\n                self.mark = None', '                self.mark = next(\n                    (m for m in self.manipulators if m.start_mark(token)), None\n                )\n\n                if self.mark is None:\n                    self.output.append(token)\n                    continue\n\n            replacement_tokens = self.mark.continue_mark(token)\n            if replacement_tokens is not None:\n                stack = replacement_tokens + stack\n                self.mark = None')])]

CASES += [("same", 'r7: html builder helper', [('build/html/builder.py', '            if self.mark is None:\n                for manipulator in self.manipulators:\n                    if manipulator.start_mark(token):\n                        self.mark = manipulator\n                        break\n\n                if self.mark is None:\n                    self.output.append(token)\n                    continue\n\n            replacement_tokens = self.mark.continue_mark(token)\n            if replacement_tokens is not None:\n                stack = replacement_tokens + stack\n                self.mark = None', '            mark = self.mark or self._find_mark(token)\n            if mark is None:\n                self.output.append(token)\n                continue\n\n            replacement_tokens = mark.continue_mark(token)\n            if replacement_tokens is None:\n                self.mark = mark\n            else:\n                self.mark = None\n                stack[:0] = replacement_tokens\n\n    def _find_mark(self, token: HTMLToken) -> Optional[HTMLManipulator]:\n        for manipulator in self.manipulators:\n            if manipulator.start_mark(token):\n                return manipulator\n        return None')])]
