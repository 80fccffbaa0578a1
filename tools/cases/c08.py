LH="build/html/manips/link_hash.py"; V="build/css/manips/version_urls.py"; N="build/css/manips/nest.py"; T="build/html/manips/template.py"; OL="build/html/manips/outline.py"
C="build/handlers/css.py"; HT="build/handlers/html.py"; J="build/handlers/js.py"; G="build/handlers/image_glue.py"; E="build/html/manips/images/exporter.py"; H="build/js/manips/hash_imports.py"
I="build/css/manips/icons/manip.py"; S="build/html/manips/images/scanner.py"; M="build/html/manips/images/manip.py"
CASES=[
("bug","link hash: child only in dev",[(LH,"        self.children.add(rel_to_public)\n","        if self.context.dev:\n            self.children.add(rel_to_public)\n")]),
("bug","link hash: scan only stylesheets",[(LH,"            self.dependencies.add(rel_to_public)\n","            if dep.path.endswith('.css'):\n                self.dependencies.add(rel_to_public)\n")]),
("bug","version urls: child after read of css only",[(V,"        self.children.add(new_suffix.path_of_hash_from_root)\n","        if node[\"type\"] == CSSTokenType.url:\n            self.children.add(new_suffix.path_of_hash_from_root)\n")]),
("bug","version urls: unquoted not scanned",[(V,'''            # unquoted url token
            new_suffix = self._decide_new_version_suffix(node["value"])
            if new_suffix is not None:
                if self.mode == "scan":
                    self.dependencies.add(new_suffix.path_of_hash_from_root)
                    return False''','''            # unquoted url token
            new_suffix = self._decide_new_version_suffix(node["value"])
            if new_suffix is not None:
                if self.mode == "scan":
                    return False''')]),
("bug","nest: default css not a child",[(N,'''        if imp.relpath != self.relpath:
            self.children.add(imp.relpath)
''','''        if imp.relpath not in (self.relpath, self.context.default_css_file):
            self.children.add(imp.relpath)
''')]),
("bug","template: children lost",[(T,'''        else:
            self.children.add(imp.relpath)
''','''        elif not self.stack:
            self.children.add(imp.relpath)
''')]),
("bug","outline: children of parts lost",[(OL,"                self.children.update(build_result.children)\n","")]),
("bug","css: children only from the first three",[(C,"        children.update(build_result.children)\n","        children.update(build_result.produced)\n")]),
("bug","html: scan dependencies lost",[(HT,"        dependencies.update(scan_result.dependencies)\n","")]),
("bug","js: children lost",[(J,"        children.update(build_result.children)\n","")]),
("bug","glue: scan depends on nothing",[(G,"        dependencies.update(scan_result.dependencies)\n        produces","        produces")]),
("bug","glue: children lost",[(G,"        children.update(build_result.children)\n        produced","        produced")]),
("bug","exporter: only depends when newly exported",[(E,"    children.append(path_relative_to_root)\n",""),(E,"    produced.append(lock_file)\n\n","    produced.append(lock_file)\n    children.append(path_relative_to_root)\n\n",)]),
("bug","hash imports: relative imports not reported when building",[(H,"        self.children.add(rel_to_root)\n","        if import_path in rel_to_root:\n            self.children.add(rel_to_root)\n")]),
("bug","hash imports: reports the public path",[(H,"        self.children.add(rel_to_root)\n","        self.children.add(os.path.relpath(rel_to_root, 'src/public'))\n")]),
("bug","icon: reported only when written",[(I,"        self.children.add(args.input_icon)\n",""),(I,"            self.produced.add(output_relpath)\n","            self.produced.add(output_relpath)\n            self.children.add(args.output_icon_folder)\n")]),
("bug","icon: svg not scanned",[(I,"        self.dependencies.add(args.input_icon)\n","")]),
("bug","scanner: image not reported",[(S,"    dependencies.append(path_relative_to_root)\n","")]),
("bug","reads a second file",[(LH,'''        new_attribute_keys = sorted(''','''        size_path = os.path.join(self.context.folder, "src", "public", dep_with_os_sep + ".size")
        if os.path.exists(size_path):
            with open(size_path) as f:
                size = f.read()
        new_attribute_keys = sorted(''')]),
("same","template: one set",[(T,'''        if self.mode == "scan":
            self.dependencies.add(imp.relpath)
        else:
            self.children.add(imp.relpath)
''','''        target = self.dependencies if self.mode == "scan" else self.children
        target.add(imp.relpath)
''')]),
("same","nest: early",[(N,'''        if imp.relpath != self.relpath:
            self.children.add(imp.relpath)
        return True''','''        own = imp.relpath == self.relpath
        if not own:
            self.children.add(imp.relpath)
        return True''')]),
("same","exporter: list literal",[(E,"    children: List[str] = []\n","    children: List[str] = [path_relative_to_root]\n"),(E,"    children.append(path_relative_to_root)\n","")]),
("same","css: union",[(C,"        children.update(build_result.children)\n","        children |= set(build_result.children)\n")]),
("same","version urls: helper",[(V,'''        self.children.add(new_suffix.path_of_hash_from_root)
        with open(
            os.path.join(self.context.folder, new_suffix.path_of_hash_from_root)
        ) as f:
            hash_value = f.read()
''','''        hash_value = self._read_hash(new_suffix)
'''),(V,'''    def scan_result(self)''','''    def _read_hash(self, suffix):
        where = suffix.path_of_hash_from_root
        with open(os.path.join(self.context.folder, where)) as f:
            content = f.read()
        self.children.add(where)
        return content

    def scan_result(self)''')]),
("same","hash imports: sibling path first",[(H,'''        self.children.add(rel_to_root)

        rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))
''','''        rel_to_public = os.path.relpath(rel_to_root, os.path.join("src", "public"))
        self.children.add(rel_to_root)
''')]),
("bug","outline: children of scripts only",[(OL,"                self.children.update(build_result.children)\n","                if self.outlining == \"script\":\n                    self.children.update(build_result.children)\n")]),
("bug","outline: scan dependencies of styles only",[(OL,"                self.dependencies.update(scan_result.dependencies)\n","                if self.outlining != \"script\":\n                    self.dependencies.update(scan_result.dependencies)\n")]),
("same","outline: children if any",[(OL,"                self.children.update(build_result.children)\n","                if build_result.children:\n                    self.children.update(build_result.children)\n")]),
("same","outline: children one by one",[(OL,"                self.children.update(build_result.children)\n","                for child in build_result.children:\n                    self.children.add(child)\n")]),
]

CASES += [("same", 'r8: html merge helper', [('build/handlers/html.py', '    for build_result in sub_build_results:\n        children.update(build_result.children)\n        produced.update(build_result.produced)\n        for itm in build_result.reused:\n            if itm not in produced:\n                reused.add(itm)\n\n    return BuildFileResult(\n        children=list(children), produced=list(produced), reused=list(reused)\n    )', '    for build_result in sub_build_results:\n        children |= set(build_result.children)\n        produced |= set(build_result.produced)\n        reused |= set(build_result.reused) - produced\n\n    return BuildFileResult(\n        children=list(children), produced=list(produced), reused=list(reused)\n    )')])]

CASES += [("same", 'r9: template recorded set', [('build/html/manips/template.py', '        if self.mode == "scan":\n            self.dependencies.add(imp.relpath)\n        else:\n            self.children.add(imp.relpath)\n', '        used = self.dependencies if self.mode == "scan" else self.children\n        used.add(imp.relpath)\n')])]
CASES += [('same', 'images srcset helper', [('build/html/manips/images/manip.py', '                        (None, "srcset"): ", ".join(\n                            f"/{output.relpath.replace(os.path.sep, \'/\')} {output.width}w"\n                            for output in outputs\n                        )\n', '                        (None, "srcset"): srcset(outputs)\n'), ('build/html/manips/images/manip.py', '                    (None, "srcset"): ", ".join(\n                        f"/{output.relpath.replace(os.path.sep, \'/\')} {output.width}w"\n                        for output in default_outputs\n                    ),\n', '                    (None, "srcset"): srcset(default_outputs),\n'), ('build/html/manips/images/manip.py', '                    (None, "src"): "/"\n                    + standard_resolution_output.relpath.replace(os.path.sep, "/"),\n', '                    (None, "src"): web_path(standard_resolution_output),\n'), ('build/html/manips/images/manip.py', 'class ImagesManipulator(', 'def web_path(output) -> str:\n    return "/" + output.relpath.replace(os.path.sep, "/")\n\n\ndef srcset(outputs) -> str:\n    return ", ".join(f"{web_path(output)} {output.width}w" for output in outputs)\n\n\nclass ImagesManipulator(')])]
