LH="build/html/manips/link_hash.py"; V="build/css/manips/version_urls.py"; H="build/js/manips/hash_imports.py"; O="build/html/manips/outline.py"; OI="build/css/manips/outline_image_data.py"
READV='''        with open(
            os.path.join(self.context.folder, new_suffix.path_of_hash_from_root)
        ) as f:
            hash_value = f.read()
'''
READH='''        with open(exp_hash_file, "r") as f:
            file_hash = f.read()
'''
CASES=[
("bug","hash of the script itself",[(H,'''self.context.folder, "out", "www", rel_to_public + ".hash"''','''self.context.folder, "out", "www", os.path.relpath(self.relpath, os.path.join("src", "public")) + ".hash"''')]),
("bug","url hash cached by file name",[(V,"        self._in_url = False\n","        self._in_url = False\n        self._hashes = {}\n"),(V,READV,'''        name = os.path.basename(new_suffix.path_from_public)
        if name not in self._hashes:
            with open(
                os.path.join(self.context.folder, new_suffix.path_of_hash_from_root)
            ) as f:
                self._hashes[name] = f.read()
        hash_value = self._hashes[name]
''')]),
("same","url hash cached by path",[(V,"        self._in_url = False\n","        self._in_url = False\n        self._hashes = {}\n"),(V,READV,'''        name = new_suffix.path_from_public
        if name not in self._hashes:
            with open(
                os.path.join(self.context.folder, new_suffix.path_of_hash_from_root)
            ) as f:
                self._hashes[name] = f.read()
        hash_value = self._hashes[name]
''')]),
("bug","import hash kept from the last import",[(H,"        self.skip_next_import = False\n\n    def handle","        self.skip_next_import = False\n        self.file_hash = None\n\n    def handle"),(H,READH,'''        if self.file_hash is None:
            with open(exp_hash_file, "r") as f:
                self.file_hash = f.read()
        file_hash = self.file_hash
''')]),
("same","import hash kept in an attribute",[(H,"        self.skip_next_import = False\n\n    def handle","        self.skip_next_import = False\n        self.file_hash = None\n\n    def handle"),(H,READH,'''        with open(exp_hash_file, "r") as f:
            self.file_hash = f.read()
        file_hash = self.file_hash
''')]),
("bug","link hash of the page",[(LH,'rel_to_out = os.path.join("out", "www", dep_with_os_sep)','rel_to_out = os.path.join("out", "www", os.path.relpath(self.relpath, os.path.join("src", "public")))')]),
("bug","link version is content itself",[(LH,'''expected_hash_loc = os.path.join(self.context.folder, rel_to_out + ".hash")''','''expected_hash_loc = os.path.join(self.context.folder, rel_to_out)''')]),
("bug","link hash of the source",[(LH,'rel_to_out = os.path.join("out", "www", dep_with_os_sep)','rel_to_out = os.path.join("src", "public", dep_with_os_sep)')]),
("bug","link hash of the file in the same folder",[(LH,'rel_to_out = os.path.join("out", "www", dep_with_os_sep)','rel_to_out = os.path.join("out", "www", os.path.basename(dep_with_os_sep))')]),
("bug","processor version hard coded",[(V,'"pv": PROCESSOR_VERSION','"pv": "1"')]),
("bug","processor version and hash swapped",[(H,'{"v": file_hash, "pv": PROCESSOR_VERSION}','{"v": PROCESSOR_VERSION, "pv": file_hash}')]),
("bug","no processor version",[(H,'{"v": file_hash, "pv": PROCESSOR_VERSION}','{"v": file_hash}')]),
("bug","css: fragments get a query",[(V,'if "?" in url or "#" in url:','if "?" in url:')]),
("bug","css: queries get a second query",[(V,'if "?" in url or "#" in url:','if "#" in url:')]),
("bug","css: leading slash not required",[(V,'''        if not url.startswith("/"):
            return None
''',''),(V,'url[1:].replace','url.lstrip("/").replace')]),
("bug","css: other hosts",[(V,'''        if url.startswith("//"):
            return None

''','')]),
("bug","html: queries",[(LH,''' or any(c in "?#" for c in href)''',''' or any(c in "#" for c in href)''')]),
("bug","html: any instead",[(LH,'''if href is None or not href.startswith("/") or any(c in "?#" for c in href):''','''if href is None or not href.startswith("/") or all(c in "?#" for c in href):''')]),
("bug","html: root-relative not required",[(LH,'''if href is None or not href.startswith("/") or any''','''if href is None or any''')]),
("bug","js: query",[(H,'''for ch in "?#"''','''for ch in "#"''')]),
("bug","js: only first char looked at",[(H,'''any(ch in import_path for ch in "?#")''','''any(import_path[-1:] == ch for ch in "?#")''')]),
("bug","js: bare specifiers",[(H,'''("/", "./", "../")''','''("/", "./", "../", "@")''')]),
("bug","outline: hash of the other kind",[(O,'out_path + ".hash"','os.path.join(self.context.folder, "out", "www", "main.css") + ".hash"')]),
("bug","image data: hash of the stylesheet",[(OI,'''open(out_path + ".hash")''','''open(os.path.join(self.context.folder, "out", "www", os.path.relpath(self.relpath, os.path.join("src", "public"))) + ".hash")''')]),
("same","html: explicit loop",[(LH,'''if href is None or not href.startswith("/") or any(c in "?#" for c in href):
            return None
''','''if href is None or not href.startswith("/"):
            return None
        if "?" in href or "#" in href:
            return None
''')]),
("same","html: for loop",[(LH,'''if href is None or not href.startswith("/") or any(c in "?#" for c in href):
            return None
''','''if href is None or not href.startswith("/"):
            return None
        for c in href:
            if c in "?#":
                return None
''')]),
("same","js: two tests",[(H,'''if any(ch in import_path for ch in "?#"):''','''if "?" in import_path or "#" in import_path:''')]),
("same","js: slashes in one test",[(H,'''        if import_path.startswith("//"):
            return self._mark_import_bad("unexpected path format")
        if any''','''        if import_path[:2] == "//":
            return self._mark_import_bad("unexpected path format")
        if any''')]),
("same","js: helper reads the hash",[(H,READH,'''        file_hash = self._read(exp_hash_file)
'''),(H,'''    def _skip_types(''','''    def _read(self, path):
        with open(path, "r") as f:
            return f.read()

    def _skip_types(''')]),
("same","css: query built by hand",[(V,'''        suffix_to_add = "?" + urlencode({"v": hash_value, "pv": PROCESSOR_VERSION})
        new_value = node["value"] + suffix_to_add
''','''        query = urlencode([("v", hash_value), ("pv", PROCESSOR_VERSION)])
        new_value = f"{node['value']}?{query}"
''')]),
("same","css: helper for the query",[(V,'''        suffix_to_add = "?" + urlencode({"v": hash_value, "pv": PROCESSOR_VERSION})
        new_value = node["value"] + suffix_to_add
''','''        new_value = self._with_version(node["value"], hash_value)
'''),(V,'''    def continue_mark(''','''    def _with_version(self, url, hash_value):
        params = dict(v=hash_value, pv=PROCESSOR_VERSION)
        return url + "?" + urlencode(params)

    def continue_mark(''')]),
("same","css: tuple of prefixes",[(V,'''        if "?" in url or "#" in url:
            return None
''','''        if any(c in url for c in ("?", "#")):
            return None
''')]),
("same","html: f-string hash path",[(LH,'''os.path.join(self.context.folder, rel_to_out + ".hash")''','''os.path.join(self.context.folder, f"{rel_to_out}.hash")''')]),
("same","html: remembered in the first step",[(LH,'''        dep = self._get_as_dependency(node)
        dep_with_os_sep = dep.path.replace("/", os.path.sep)
        rel_to_out''','''        dep = self._get_as_dependency(node)
        assert dep is not None
        dep_with_os_sep = dep.path.replace("/", os.path.sep)
        rel_to_out''')]),
('same', 'imports helpers', [('build/js/manips/hash_imports.py', '        if import_path.startswith("/"):\n            rel_to_root = os.path.join(\n                "src", "public", import_path[1:].replace("/", os.path.sep)\n            )\n        else:\n            abs_import_path = os.path.abspath(\n                os.path.join(\n                    self.context.folder,\n                    os.path.dirname(self.relpath),\n                    import_path.replace("/", os.path.sep),\n                )\n            )\n            rel_to_root = os.path.relpath(\n                abs_import_path, os.path.abspath(self.context.folder)\n            )\n            rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))\n            import_path = "/" + rel_to_public.replace(os.path.sep, "/")\n', '        rel_to_root, import_path = self._resolve(import_path)\n'), ('build/js/manips/hash_imports.py', '        self.children.add(rel_to_root)\n\n        rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))\n\n        exp_hash_file = os.path.join(\n            self.context.folder, "out", "www", rel_to_public + ".hash"\n        )\n        if not os.path.exists(exp_hash_file):\n            raise FileNotFoundError(exp_hash_file)\n\n        with open(exp_hash_file, "r") as f:\n            file_hash = f.read()\n\n        new_import_path = (\n            import_path + "?" + urlencode({"v": file_hash, "pv": PROCESSOR_VERSION})\n        )\n        self.skip_next_import = True\n        return self.stack[:-1] + [\n            JSToken(type=JSTokenType.string_literal, value=new_import_path)\n        ]\n', '        self.children.add(rel_to_root)\n        query = urlencode({"v": self._read_version(rel_to_root), "pv": PROCESSOR_VERSION})\n        self.skip_next_import = True\n        taken = list(self.stack)\n        taken[-1] = JSToken(type=JSTokenType.string_literal, value=f"{import_path}?{query}")\n        return taken\n\n    def _resolve(self, import_path):\n        if import_path.startswith("/"):\n            return (\n                os.path.join("src", "public", import_path[1:].replace("/", os.path.sep)),\n                import_path,\n            )\n        folder = os.path.dirname(self.relpath)\n        target = os.path.abspath(\n            os.path.join(self.context.folder, folder, import_path.replace("/", os.path.sep))\n        )\n        rel_to_root = os.path.relpath(target, os.path.abspath(self.context.folder))\n        rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))\n        return rel_to_root, "/" + rel_to_public.replace(os.path.sep, "/")\n\n    def _read_version(self, rel_to_root):\n        rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))\n        path = os.path.join(self.context.folder, "out", "www", rel_to_public + ".hash")\n        if not os.path.exists(path):\n            raise FileNotFoundError(path)\n        with open(path, "r") as f:\n            return f.read()\n')]),
]

CASES += [("same", 'r7: link hash next', [('build/html/manips/link_hash.py', '        for link_type in LINK_TYPES:\n            if node["type"] != link_type.tag_style:\n                continue\n\n            if node["name"] != link_type.name:\n                continue\n\n            if not link_type.matches(node):\n                continue\n            break\n        else:\n            return None\n\n        attributes = node["data"]\n        href = attributes.get((None, link_type.attr_name))\n        if href is None or not href.startswith("/") or any(c in "?#" for c in href):\n            return None\n\n        if href.startswith("//"):\n            return None\n', '        link_type = next(\n            (\n                candidate\n                for candidate in LINK_TYPES\n                if node["type"] == candidate.tag_style\n                and node["name"] == candidate.name\n                and candidate.matches(node)\n            ),\n            None,\n        )\n        if link_type is None:\n            return None\n\n        attributes = node["data"]\n        href = attributes.get((None, link_type.attr_name))\n        if not self._is_local(href):\n            return None\n'), ('build/html/manips/link_hash.py', '    def scan_result(self) -> ScanFileResult:\n        """The scan', '    @staticmethod\n    def _is_local(href: Optional[str]) -> bool:\n        if href is None or "?" in href or "#" in href:\n            return False\n        return href[:1] == "/" and href[:2] != "//"\n\n    def scan_result(self) -> ScanFileResult:\n        """The scan')])]

CASES += [("same", 'r7: link hash data loop', [('build/html/manips/link_hash.py', '        new_attribute_keys = sorted(\n            itertools.chain(dep.attributes.keys(), (dep.attr_name,))\n        )\n        new_href = f"/{dep.path}?" + urlencode({"v": hash, "pv": PROCESSOR_VERSION})\n\n        new_data = dict(\n            ((None, key), dep.attributes[key])\n            if key != dep.attr_name\n            else ((None, key), new_href)\n            for key in new_attribute_keys\n        )\n', '        versioned = dict(dep.attributes)\n        query = urlencode({"v": hash, "pv": PROCESSOR_VERSION})\n        versioned[dep.attr_name] = "/" + dep.path + "?" + query\n\n        new_data = {}\n        for key in sorted(versioned):\n            new_data[(None, key)] = versioned[key]\n')])]

CASES += [("same", 'r8: hash by chunks', [('build/handlers/hash.py', '    with open(filepath, "rb") as f:\n        sha256.update(f.read())\n', '    with open(filepath, "rb") as f:\n        for chunk in iter(lambda: f.read(65536), b""):\n            sha256.update(chunk)\n')])]
