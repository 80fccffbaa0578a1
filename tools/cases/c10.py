CS="build/css/serializer.py"; JS="build/js/serializer.py"; CT="build/css/tokenizer.py"; JT="build/js/tokenizer.py"; O="build/css/manips/outline_image_data.py"
CASES=[
("bug","bracket lost",[(CS,'''    elif token["type"] == CSSTokenType.right_square_bracket:
        return "]"
''','')]),
("bug","cdo lost",[(CS,'''    elif token["type"] == CSSTokenType.cdo:
        return "<!--"
''','')]),
("bug","unit lost",[(CS,'str(token["value"]) + token["unit"]','str(token["value"]) + "px"')]),
("bug","flags lost",[(JS,"""f"/{token['value']}/{token['extra']}\"""","""f"/{token['value']}/\"""")]),
("bug","integers only",[(CS,'''    elif token["type"] == CSSTokenType.percentage:
        return str(token["value"]) + "%"''','''    elif token["type"] == CSSTokenType.percentage:
        return str(int(token["value"])) + "%"''')]),
("bug","lower case idents",[(CS,'''    elif token["type"] == CSSTokenType.ident:
        return token["value"]''','''    elif token["type"] == CSSTokenType.ident:
        return token["value"].lower()''')]),
("bug","new keyword",[(JT,'''    "import": JSTokenType.keyword_import,
''','''    "import": JSTokenType.keyword_import,
    "export": JSTokenType.keyword_export,
'''),("build/js/token.py",'''    eof = "EOF"''','''    keyword_export = "Export"
    """Value is None"""
    eof = "EOF"''')]),
("bug","line terminator unknown",[(JS,'''    elif token["type"] == JSTokenType.line_terminator:
        return "\\n"
''','')]),
("bug","bad string content",[(CS,'''        return serialize_string(token["value"], '"')[:-1]''','''        return '"\\n\'''')]),
("bug","control characters dropped",[(CS,'''            res += "\\\\" + hex(char_ord)[2:] + " "
            continue''','''            continue''')]),
("bug","comment text lost",[(CS,'''"/*" + token["value"] + "*/"''','''"/**/"''')]),
("bug","raises for odd values",[(CS,'''    elif token["type"] == CSSTokenType.delim:
        return token["value"]''','''    elif token["type"] == CSSTokenType.delim and token["value"] in ".#:>+~*-/=@<|^$!%&,":
        return token["value"]''')]),
("bug","whitespace collapsed",[(CS,'''    if token["type"] == CSSTokenType.whitespace:
        return token["value"]''','''    if token["type"] == CSSTokenType.whitespace:
        return " "''')]),
("bug","first char of regex",[(JS,'''    elif token["type"] == JSTokenType.invalid:
        return token["value"]''','''    elif token["type"] == JSTokenType.invalid:
        return token["value"][0]''')]),
("bug","token without value",[(O,"""                type=CSSTokenType.string,
                value=""","""                type=CSSTokenType.string,
                extra=""")]),
("same","table",[(CS,'''def serialize(token: CSSToken) -> str:''','''FIXED = {
    CSSTokenType.left_parens: "(",
    CSSTokenType.right_parens: ")",
    CSSTokenType.comma: ",",
    CSSTokenType.colon: ":",
    CSSTokenType.semicolon: ";",
}


def serialize(token: CSSToken) -> str:'''),(CS,'''    if token["type"] == CSSTokenType.whitespace:
        return token["value"]''','''    fixed = FIXED.get(token["type"])
    if fixed is not None:
        return fixed
    if token["type"] == CSSTokenType.whitespace:
        return token["value"]'''),(CS,'''    elif token["type"] == CSSTokenType.colon:
        return ":"
    elif token["type"] == CSSTokenType.semicolon:
        return ";"
''',''),]),
("same","local type",[(CS,'''    if token["type"] == CSSTokenType.whitespace:
        return token["value"]''','''    kind = token["type"]
    if kind == CSSTokenType.whitespace:
        return token["value"]''')]),
("same","helper",[(CS,'''        return str(token["value"]) + token["unit"]''','''        return _with_unit(token)'''),(CS,'''def serialize_many(''','''def _with_unit(token):
    number = str(token["value"])
    unit = token["unit"]
    return f"{number}{unit}"


def serialize_many(''')]),
("same","format",[(CS,'''"/*" + token["value"] + "*/"''','''"/*{}*/".format(token["value"])''')]),
("same","join",[(JS,'''    res = quote
''','''    pieces = [quote]
'''),(JS,"            res += SPECIAL_ESCAPE_CHARACTERS[char]","            pieces.append(SPECIAL_ESCAPE_CHARACTERS[char])"),(JS,'''            res += "\\\\" + char''','''            pieces.append("\\\\" + char)'''),(JS,'''            res += f"\\\\u{ord(char):04x}"''','''            pieces.append(f"\\\\u{ord(char):04x}")'''),(JS,'''        else:
            res += char
    return res + quote''','''        else:
            pieces.append(char)
    return "".join(pieces) + quote''')]),
("same","group",[(CS,'''    elif token["type"] == CSSTokenType.ident:
        return token["value"]
''',''),(CS,'''    elif token["type"] == CSSTokenType.delim:
        return''','''    elif token["type"] in (CSSTokenType.delim, CSSTokenType.ident):
        return''')]),
]
CASES += [
("bug","a number written with format",[("build/css/serializer.py",'''        return str(token["value"])
    elif token["type"] == CSSTokenType.percentage''','''        return format(token["value"], "g")
    elif token["type"] == CSSTokenType.percentage''')]),
("bug","a percentage with two decimals",[("build/css/serializer.py",'''        return str(token["value"]) + "%"''','''        return f"{token['value']:.2f}%"''')]),
("bug","a dimension with str.format",[("build/css/serializer.py",'''        return str(token["value"]) + token["unit"]''','''        return "{:g}{}".format(token["value"], token["unit"])''')]),
("same","a dimension with str.format unrounded",[("build/css/serializer.py",'''        return str(token["value"]) + token["unit"]''','''        return "{}{}".format(token["value"], token["unit"])''')]),
("bug","a number's escape is not ended",[("build/css/serializer.py",'''hex(char_ord)[2:] + " "''','''hex(char_ord)[2:]''')]),
("same","the end of an escape is added separately",[("build/css/serializer.py",'''            res += "\\\\" + hex(char_ord)[2:] + " "
''','''            res += "\\\\"
            res += hex(char_ord)[2:]
            res += " "
''')]),
("same","an escape of six digits",[("build/css/serializer.py",'''hex(char_ord)[2:] + " "''','''hex(char_ord)[2:].zfill(6)''')]),
("same","an escape in an f-string",[("build/css/serializer.py",'''"\\\\" + hex(char_ord)[2:] + " "''','''f"\\\\{char_ord:x} "''')]),
("bug","an address with a raw space",[("build/css/serializer.py",'''")", " ", "\\\\")''','''")", "\\\\")''')]),
("bug","quotes in a text are not escaped",[("build/css/serializer.py",'''        if char == quote or char in simple_escape_characters:''','''        if char in simple_escape_characters:''')]),
("bug","a quote after a backslash is not escaped",[("build/js/serializer.py",'''        elif char == quote:''','''        elif char == quote and res[-1:] != "\\\\":''')]),
("bug","a backslash as it is",[("build/js/serializer.py",'''    "\\\\": "\\\\\\\\",
''','')]),
("bug","line breaks as they are",[("build/css/serializer.py",'''        if char_ord <= 0x001F or char_ord == 0x007F:''','''        if char_ord < 0x0009 or char_ord == 0x007F:''')]),
("same","pieces collected in a list",[("build/js/serializer.py",'''    res = quote
    for char in string:
        if char in SPECIAL_ESCAPE_CHARACTERS:
            res += SPECIAL_ESCAPE_CHARACTERS[char]
        elif char == quote:
            res += "\\\\" + char
        elif ord(char) <= 0x001F or ord(char) == 0x007F:
            res += f"\\\\u{ord(char):04x}"
        else:
            res += char
    return res + quote''','''    parts = [quote]
    for char in string:
        escape = SPECIAL_ESCAPE_CHARACTERS.get(char)
        if escape is not None:
            parts.append(escape)
            continue
        code = ord(char)
        if char == quote:
            parts.append("\\\\" + char)
        elif code < 0x20 or code == 0x7F:
            parts.append("\\\\u" + format(code, "04x"))
        else:
            parts.append(char)
    parts.append(quote)
    return "".join(parts)''')]),
("same","a helper escapes a character",[("build/js/serializer.py",'''    res = quote
    for char in string:
        if char in SPECIAL_ESCAPE_CHARACTERS:
            res += SPECIAL_ESCAPE_CHARACTERS[char]
        elif char == quote:
            res += "\\\\" + char
        elif ord(char) <= 0x001F or ord(char) == 0x007F:
            res += f"\\\\u{ord(char):04x}"
        else:
            res += char
    return res + quote''','''    return quote + "".join(_escape(char, quote) for char in string) + quote


def _escape(char: str, quote: str) -> str:
    if char in SPECIAL_ESCAPE_CHARACTERS:
        return SPECIAL_ESCAPE_CHARACTERS[char]
    if char == quote:
        return "\\\\" + char
    if ord(char) <= 0x001F or ord(char) == 0x007F:
        return f"\\\\u{ord(char):04x}"
    return char''')]),
("same","conditions turned round",[("build/css/serializer.py",'''        if char == quote or char in simple_escape_characters:
            res += "\\\\" + char
            continue

        char_ord = ord(char)
        if char_ord <= 0x001F or char_ord == 0x007F:
            # the space ends the escape, so that it cannot swallow what follows
            res += "\\\\" + hex(char_ord)[2:] + " "
            continue

        res += char
''','''        if char != quote and char not in simple_escape_characters:
            char_ord = ord(char)
            if char_ord > 0x001F and char_ord != 0x007F:
                res += char
            else:
                res += "\\\\" + hex(char_ord)[2:] + " "
        else:
            res += "\\\\" + char
''')]),
("same","specials by comparing characters",[("build/css/serializer.py",'''        char_ord = ord(char)
        if char_ord <= 0x001F or char_ord == 0x007F:
            # the space ends the escape, so that it cannot swallow what follows
            res += "\\\\" + hex(char_ord)[2:] + " "
            continue
''','''        if char <= "\\x1f" or char == "\\x7f":
            res += "\\\\" + hex(ord(char))[2:] + " "
            continue
''')]),
]
