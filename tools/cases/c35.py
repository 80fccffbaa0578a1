O = "build/html/manips/outline.py"
CASES = [
    ("bug", "data scripts are left", [(O, '''            and (None, "src") not in node["data"]
''', '''            and (None, "src") not in node["data"]
            and node["data"].get((None, "type"), "") != "application/json"
''')]),
    ("bug", "module scripts are left", [(O, '''        return (
            node["type"] == "StartTag"
            and node["name"] == "script"
            and (None, "src") not in node["data"]
        )''', '''        if node["type"] != "StartTag" or node["name"] != "script":
            return False
        if (None, "src") in node["data"]:
            return False
        return (None, "type") not in node["data"]''')]),
    ("bug", "any attribute looks like a source", [(O, '''            and (None, "src") not in node["data"]
''', '''            and not any(key.endswith("src") for (_, key) in node["data"])
''')]),
    ("bug", "styles with attributes are left", [(O, '''        return node["type"] == "StartTag" and node["name"] == "style"''', '''        return (
            node["type"] == "StartTag"
            and node["name"] == "style"
            and not node["data"]
        )''')]),
    ("bug", "styles for print are left", [(O, '''        return node["type"] == "StartTag" and node["name"] == "style"''', '''        return (
            node["type"] == "StartTag"
            and node["name"] == "style"
            and node["data"].get((None, "media"), "all") == "all"
        )''')]),
    ("bug", "shared counter not advanced for styles", [(O, '''                self.style_outline_count += 1
''', '''                self.style_outline_count = 1
''')]),
    ("bug", "script file named after the other counter", [(O, '''                    self.script_src_folder,
                    f"{self.script_outline_count}.js",
''', '''                    self.script_src_folder,
                    f"{self.style_outline_count}.js",
''')]),
    ("bug", "hash of the first block", [(O, '''                        self.script_out_folder,
                        f"{self.script_outline_count}.js",
''', '''                        self.script_out_folder,
                        "1.js",
''')]),
    ("bug", "hash of the style before", [(O, '''                        self.style_out_folder,
                        f"{self.style_outline_count}.css",
''', '''                        self.style_out_folder,
                        f"{max(1, self.style_outline_count - 1)}.css",
''')]),
    ("bug", "hash of the other kind's counter", [(O, '''                        self.style_out_folder,
                        f"{self.style_outline_count}.css",
''', '''                        self.style_out_folder,
                        f"{self.script_outline_count}.css",
''')]),
    ("bug", "attributes dropped for scripts", [(O, '''                self.start_tag_attrs = dict(
                    (key, val) for (_, key), val in node["data"].items()
                )
                return None
            if self''', '''                self.start_tag_attrs = dict(
                    (key, val)
                    for (_, key), val in node["data"].items()
                    if key in ("type", "async", "defer")
                )
                return None
            if self''')]),
    ("bug", "attributes without a value dropped", [(O, '''for key in sorted(start_tag_attrs.keys())
''', '''for key in sorted(start_tag_attrs.keys())
                if start_tag_attrs[key]
''')]),
    ("bug", "type dropped from the reference", [(O, '''            start_tag_attrs[result_tag_attr] = target_path
''', '''            start_tag_attrs[result_tag_attr] = target_path
            start_tag_attrs.pop("type", None)
''')]),
    ("bug", "attributes leak into the next block", [(O, '''            self.outlining_to_path = None
            self.start_tag_attrs = None
            return result''', '''            self.outlining_to_path = None
            return result'''), (O, '''                self.start_tag_attrs = dict(
                    (key, val) for (_, key), val in node["data"].items()
                )
                return None
            if self''', '''                if self.start_tag_attrs is None:
                    self.start_tag_attrs = {}
                self.start_tag_attrs.update(
                    (key, val) for (_, key), val in node["data"].items()
                )
                return None
            if self''')]),
    ("bug", "only the first block of a page", [(O, '''        return self._should_outline_script(node) or self._should_outline_style(node)''', '''        if self._should_outline_script(node):
            return self.script_outline_count == 0
        return self._should_outline_style(node)''')]),
    ("bug", "no stylesheet relation", [(O, '''            if self.outlining == "style":
                start_tag_attrs["rel"] = "stylesheet"
''', '''            if self.outlining == "style":
                start_tag_attrs.setdefault("rel", "style")
''')]),
    ("bug", "whitespace of a block is skipped", [(O, '''        self.outlining_to.write(node["data"])
        return None''', '''        if node["type"] == "Characters":
            self.outlining_to.write(node["data"])
        return None''')]),
    ("bug", "block stripped", [(O, '''        self.outlining_to.write(node["data"])
        return None''', '''        self.outlining_to.write(node["data"].strip())
        return None''')]),
    ("bug", "built before it is closed", [(O, '''            self.outlining_to.close()
            self.outlining_to = None

''', ''''''), (O, '''            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
''', '''            self.outlining_to.close()
            self.outlining_to = None
            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
''')]),
    ("bug", "handlers mixed up", [(O, '''                self.js_handler if self.outlining == "script" else self.css_handler''', '''                self.css_handler if self.outlining == "script" else self.js_handler''')]),
    ("bug", "no hash in the reference", [(O, '''                    {"v": target_hash, "pv": PROCESSOR_VERSION}''', '''                    {"pv": PROCESSOR_VERSION}''')]),
    ("bug", "pages share generated files", [(O, '''        path_in_gen = os.path.splitext(relpath)[0]
''', '''        path_in_gen = os.path.basename(os.path.splitext(relpath)[0])
''')]),
    ("bug", "not applied when developing", [("build/handlers/html.py", '''    return [
        LinkRelCanonicalManipulator(context, relpath, mode),''', '''    if context.dev:
        return [
            LinkRelCanonicalManipulator(context, relpath, mode),
            LinkHash(context, relpath, mode),
            ImagesManipulator(context, relpath, mode),
            TemplateManipulator(context, relpath, mode),
        ]

    return [
        LinkRelCanonicalManipulator(context, relpath, mode),''')]),
    ("bug", "not applied to included pages", [("build/handlers/html.py", '''    manips = manipulators(context, relpath, "build")
''', '''    manips = manipulators(context, relpath, "build")
    if os.path.basename(relpath).startswith("_"):
        manips = [LinkHash(context, relpath, "build")]
''')]),
    ("bug", "empty blocks stay", [(O, '''        if node["type"] == "EndTag":
            self.outlining_to.close()
            self.outlining_to = None
''', '''        if node["type"] == "EndTag":
            self.outlining_to.close()
            self.outlining_to = None
            if self.empty:
                tag = self.outlining
                self.outlining = None
                return [
                    tkn.HTMLToken(type="StartTag", name=tag, data={}),
                    tkn.HTMLToken(type="EndTag", name=tag),
                ]
'''), (O, '''        if self.outlining is None:
            if self._should_outline_script(node):
''', '''        if self.outlining is None:
            self.empty = True
            if self._should_outline_script(node):
'''), (O, '''        self.outlining_to.write(node["data"])
''', '''        self.empty = False
        self.outlining_to.write(node["data"])
''')]),
    ("bug", "style reference on the public path of scripts", [(O, '''        self.style_out_folder = os.path.join("out", "www", "css", "gen", path_in_gen)
''', '''        self.style_out_folder = self.script_out_folder
''')]),
    ("bug", "attribute named src kept over the reference", [(O, '''            start_tag_attrs[result_tag_attr] = target_path
            if self''', '''            start_tag_attrs.setdefault("data-" + result_tag_attr, target_path)
            if self''')]),
    ("same", "helpers", [(O, '''                self.outlining_to_path = os.path.join(
                    self.script_src_folder,
                    f"{self.script_outline_count}.js",
                )
                self.outlining_to = open(
                    os.path.join(self.context.folder, self.outlining_to_path), "w"
                )
                self.start_tag_attrs = dict(
                    (key, val) for (_, key), val in node["data"].items()
                )
                return None''', '''                self._begin(
                    node, self.script_src_folder, f"{self.script_outline_count}.js"
                )
                return None'''), (O, '''                self.outlining_to_path = os.path.join(
                    self.style_src_folder,
                    f"{self.style_outline_count}.css",
                )
                self.outlining_to = open(
                    os.path.join(self.context.folder, self.outlining_to_path), "w"
                )
                self.start_tag_attrs = dict(
                    (key, val) for (_, key), val in node["data"].items()
                )
                return None''', '''                self._begin(
                    node, self.style_src_folder, f"{self.style_outline_count}.css"
                )
                return None'''), (O, '''    def _should_outline_script(self''', '''    def _begin(self, node, folder, filename):
        self.outlining_to_path = os.path.join(folder, filename)
        self.outlining_to = open(
            os.path.join(self.context.folder, self.outlining_to_path), "w"
        )
        self.start_tag_attrs = {key: val for (_, key), val in node["data"].items()}

    def _should_outline_script(self''')]),
    ("same", "content collected first", [(O, '''                self.outlining_to = open(
                    os.path.join(self.context.folder, self.outlining_to_path), "w"
                )
''', '''                self.outlining_to = []
''', 1), (O, '''            self.outlining_to.close()
            self.outlining_to = None
''', '''            with open(
                os.path.join(self.context.folder, self.outlining_to_path), "w"
            ) as f:
                f.write("".join(self.outlining_to))
            self.outlining_to = None
'''), (O, '''        self.outlining_to.write(node["data"])
''', '''        self.outlining_to.append(node["data"])
''')]),
    ("same", "one table of kinds", [(O, '''            handler = (
                self.js_handler if self.outlining == "script" else self.css_handler
            )
''', '''            handler = {"script": self.js_handler, "style": self.css_handler}[
                self.outlining
            ]
'''), (O, '''                out_path = (
                    os.path.join(
                        self.context.folder,
                        self.script_out_folder,
                        f"{self.script_outline_count}.js",
                    )
                    if self.outlining == "script"
                    else os.path.join(
                        self.context.folder,
                        self.style_out_folder,
                        f"{self.style_outline_count}.css",
                    )
                )
''', '''                out_folder, filename = {
                    "script": (
                        self.script_out_folder,
                        f"{self.script_outline_count}.js",
                    ),
                    "style": (
                        self.style_out_folder,
                        f"{self.style_outline_count}.css",
                    ),
                }[self.outlining]
                out_path = os.path.join(self.context.folder, out_folder, filename)
''')]),
    ("same", "out path from the source path", [(O, '''                out_path = (
                    os.path.join(
                        self.context.folder,
                        self.script_out_folder,
                        f"{self.script_outline_count}.js",
                    )
                    if self.outlining == "script"
                    else os.path.join(
                        self.context.folder,
                        self.style_out_folder,
                        f"{self.style_outline_count}.css",
                    )
                )
''', '''                out_path = os.path.join(
                    self.context.folder,
                    "out",
                    "www",
                    os.path.relpath(
                        self.outlining_to_path, os.path.join("src", "public")
                    ),
                )
''')]),
    ("same", "data built directly", [(O, '''            data = dict(
                ((None, key), start_tag_attrs[key])
                for key in sorted(start_tag_attrs.keys())
            )
''', '''            data = {}
            for key, val in sorted(start_tag_attrs.items()):
                data[(None, key)] = val
''')]),
    ("same", "predicate inlined and ordered otherwise", [(O, '''        return self._should_outline_script(node) or self._should_outline_style(node)''', '''        if node["type"] != "StartTag":
            return False
        if node["name"] == "style":
            return True
        return node["name"] == "script" and (None, "src") not in node["data"]''')]),
    ("same", "characters first", [(O, '''        if node["type"] == "EndTag":
            self.outlining_to.close()
''', '''        if node["type"] in ("Characters", "SpaceCharacters"):
            self.outlining_to.write(node["data"])
            return None

        assert node["type"] == "EndTag", node
        if True:
            self.outlining_to.close()
'''), (O, '''        assert node["type"] in ("Characters", "SpaceCharacters"), node
        self.outlining_to.write(node["data"])
        return None
''', '''''')]),
    ("same", "copy of the attributes with override", [(O, '''            start_tag_attrs[result_tag_attr] = target_path
            if self.outlining == "style":
                start_tag_attrs["rel"] = "stylesheet"
''', '''            start_tag_attrs = {
                **start_tag_attrs,
                result_tag_attr: target_path,
                **({"rel": "stylesheet"} if self.outlining == "style" else {}),
            }
''')]),
    ("same", "finish is split off", [(O, '''        if node["type"] == "EndTag":
            self.outlining_to.close()
''', '''        if node["type"] == "EndTag":
            return self._finish()

        assert node["type"] in ("Characters", "SpaceCharacters"), node
        self.outlining_to.write(node["data"])
        return None

    def _finish(self):
        if True:
            self.outlining_to.close()
'''), (O, '''            return result

        assert node["type"] in ("Characters", "SpaceCharacters"), node
        self.outlining_to.write(node["data"])
        return None
''', '''            return result
''')]),
    ("same", "list comes from another function", [("build/handlers/html.py", '''    manips = manipulators(context, relpath, "build")
''', '''    manips = list(manipulators(context, relpath, "build"))
''')]),
    ("same", "hash is kept in a variable and quoted", [(O, '''                target_path += "?" + urlencode(
                    {"v": target_hash, "pv": PROCESSOR_VERSION}
                )
''', '''                query = urlencode([("v", target_hash), ("pv", PROCESSOR_VERSION)])
                target_path = f"{target_path}?{query}"
''')]),
    ("same", "counters in a dict", [(O, '''        self.script_outline_count = 0
        self.style_outline_count = 0
''', '''        self.counts = {"script": 0, "style": 0}
'''), (O, "self.script_outline_count == 0", 'self.counts["script"] == 0'), (O, "self.style_outline_count == 0", 'self.counts["style"] == 0'),
     (O, "self.script_outline_count += 1", 'self.counts["script"] += 1'), (O, "self.style_outline_count += 1", 'self.counts["style"] += 1'),
     (O, "{self.script_outline_count}", "{self.counts['script']}", 1), (O, "{self.style_outline_count}", "{self.counts['style']}", 1)]),
('same', 'outline one opening', [('build/html/manips/outline.py', '            if self._should_outline_script(node):\n                self.outlining = "script"\n                if self.script_outline_count == 0:\n                    makedirs_safely(\n                        os.path.join(self.context.folder, self.script_src_folder)\n                    )\n                self.script_outline_count += 1\n                self.outlining_to_path = os.path.join(\n                    self.script_src_folder,\n                    f"{self.script_outline_count}.js",\n                )\n                self.outlining_to = open(\n                    os.path.join(self.context.folder, self.outlining_to_path), "w"\n                )\n                self.start_tag_attrs = dict(\n                    (key, val) for (_, key), val in node["data"].items()\n                )\n                return None\n            if self._should_outline_style(node):\n                self.outlining = "style"\n                if self.style_outline_count == 0:\n                    makedirs_safely(\n                        os.path.join(self.context.folder, self.style_src_folder)\n                    )\n                self.style_outline_count += 1\n                self.outlining_to_path = os.path.join(\n                    self.style_src_folder,\n                    f"{self.style_outline_count}.css",\n                )\n                self.outlining_to = open(\n                    os.path.join(self.context.folder, self.outlining_to_path), "w"\n                )\n                self.start_tag_attrs = dict(\n                    (key, val) for (_, key), val in node["data"].items()\n                )\n                return None\n', '            if self._should_outline_script(node):\n                self.script_outline_count += 1\n                self._begin(node, "script", self.script_src_folder, f"{self.script_outline_count}.js")\n                return None\n            if self._should_outline_style(node):\n                self.style_outline_count += 1\n                self._begin(node, "style", self.style_src_folder, f"{self.style_outline_count}.css")\n                return None\n'), ('build/html/manips/outline.py', '    def _should_outline_script(self, node', '    def _begin(self, node, kind, folder, name):\n        makedirs_safely(os.path.join(self.context.folder, folder))\n        self.outlining = kind\n        self.outlining_to_path = os.path.join(folder, name)\n        self.start_tag_attrs = {key: val for (_, key), val in node["data"].items()}\n        self.outlining_to = open(\n            os.path.join(self.context.folder, self.outlining_to_path), "w"\n        )\n\n    def _should_outline_script(self, node'), ('build/html/manips/outline.py', '            os.remove(os.path.join(self.context.folder, self.outlining_to_path))\n            possibly_empty_folder: str = os.path.dirname(self.outlining_to_path)\n\n            while possibly_empty_folder.count(os.path.sep) > 2:\n                try:\n                    os.rmdir(os.path.join(self.context.folder, possibly_empty_folder))\n                except (FileNotFoundError, PermissionError):\n                    break  # Scanning can happen concurrently\n                except OSError as e:\n                    if e.errno == errno.ENOTEMPTY:\n                        break\n                    raise\n                possibly_empty_folder = os.path.dirname(possibly_empty_folder)\n', '            self._remove_generated(self.outlining_to_path)\n'), ('build/html/manips/outline.py', '    def scan_result(self', '    def _remove_generated(self, path):\n        os.remove(os.path.join(self.context.folder, path))\n        folder = os.path.dirname(path)\n        while folder.count(os.path.sep) > 2:\n            try:\n                os.rmdir(os.path.join(self.context.folder, folder))\n            except (FileNotFoundError, PermissionError):\n                return\n            except OSError as e:\n                if e.errno != errno.ENOTEMPTY:\n                    raise\n                return\n            folder = os.path.dirname(folder)\n\n    def scan_result(self')]),
]
