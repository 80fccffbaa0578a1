H="build/handlers/hash.py"; J="build/handlers/js_constants.py"; O="build/css/manips/outline_image_data.py"; I="build/css/manips/icons/manip.py"
C="build/handlers/css.py"; HT="build/handlers/html.py"; OL="build/html/manips/outline.py"; G="build/handlers/image_glue.py"; CP="build/handlers/copy.py"
E="build/html/manips/images/scanner.py"
CASES=[
("bug","hash not announced",[(J,"produces=[target_path, target_path + \".hash\"]","produces=[target_path]")]),
("bug","hash suffix differs",[(J,"target_path + \".hash\"]","target_path + \".sha\"]")]),
("bug","hash scan only without output",[(H,'''    return ScanFileResult(dependencies=[], produces=[target_path])''','''    if os.path.exists(os.path.join(context.folder, target_path)):
        return ScanFileResult(dependencies=[], produces=[])
    return ScanFileResult(dependencies=[], produces=[target_path])''')]),
("bug","icon hash not announced",[(I,'''            self.produces.add(
                os.path.join(args.output_icon_folder, color + ".svg.hash")
            )
''','')]),
("bug","outline data: only announced when dev",[(O,'''                self.produces.update(hash_scan_result.produces)''','''                if self.context.dev:
                    self.produces.update(hash_scan_result.produces)''')]),
("bug","outline data: dedupe only in scan",[(O,'''        out_relpath = self.image_relpath_by_data.get(image_data)
''','''        out_relpath = self.image_relpath_by_data.get(image_data) if self.mode == "scan" else None
''')]),
("bug","css: manipulators not scanned for outputs",[(C,'''        produces.update(scan_result.produces)''','''        if scan_result in sub_scan_results[:2]:
            produces.update(scan_result.produces)''',),(C,'''        *[manip.scan_result() for manip in manips],
    ]''','''    ]''')]),
("bug","outline: script outputs dropped",[(OL,'''                self.produces.update(scan_result.produces)
''','''                if self.outlining == "style":
                    self.produces.update(scan_result.produces)
''')]),
("bug","image counter not announced",[(E,'    produces.append(os.path.join(source_art_folder_relative_to_root, "counter.txt"))\n','')]),
("same","helper for hash target",[(H,'''    target_path = get_target_path(context, relpath)
    if target_path is None:
        return ScanFileResult(dependencies=[], produces=[])

    return ScanFileResult(dependencies=[], produces=[target_path])''','''    produces = []
    target_path = get_target_path(context, relpath)
    if target_path is not None:
        produces.append(target_path)
    return ScanFileResult(dependencies=[], produces=produces)''')]),
("same","css: generator, union",[(C,'''    for scan_result in sub_scan_results:
        dependencies.update(scan_result.dependencies)
        produces.update(scan_result.produces)
''','''    for r in sub_scan_results:
        produces |= set(r.produces)
        for dep in r.dependencies:
            dependencies.add(dep)
''')]),
("same","css: separate loops",[(C,'''    sub_scan_results = [
        vanillaplusjs.build.handlers.copy.scan_file(context, relpath),
        vanillaplusjs.build.handlers.hash.scan_file(context, relpath),
        *[manip.scan_result() for manip in manips],
    ]
''','''    sub_scan_results = [m.scan_result() for m in manips]
    sub_scan_results.append(vanillaplusjs.build.handlers.copy.scan_file(context, relpath))
    sub_scan_results.append(vanillaplusjs.build.handlers.hash.scan_file(context, relpath))
''')]),
("same","outline data: helper",[(O,'''            if need_to_create:
                self.produces.add(out_relpath)
                hash_scan_result = hash_handler.scan_file(self.context, out_relpath)
                self.dependencies.update(hash_scan_result.dependencies)
                self.produces.update(hash_scan_result.produces)
            return result
''','''            if need_to_create:
                self._announce(out_relpath)
            return result
'''),(O,'''    def scan_result(self)''','''    def _announce(self, path):
        hash_scan_result = hash_handler.scan_file(self.context, path)
        self.dependencies.update(hash_scan_result.dependencies)
        self.produces.update([path, *hash_scan_result.produces])

    def scan_result(self)''')]),
("same","js constants: two step",[(J,'''    return ScanFileResult(
        dependencies=[], produces=[target_path, target_path + ".hash"]
    )''','''    outs = [target_path]
    outs += [f"{target_path}.hash"]
    return ScanFileResult([], outs)''')]),
("same","outline: pick handler late",[(OL,'''            handler = (
                self.js_handler if self.outlining == "script" else self.css_handler
            )
''','''            if self.outlining == "style":
                handler = self.css_handler
            else:
                handler = self.js_handler
''')]),
]

CASES += [("same", 'r8: copy and hash loop', [('build/handlers/copy_and_hash.py', '    copy_result = vanillaplusjs.build.handlers.copy.build_file(context, relpath)\n    hash_result = vanillaplusjs.build.handlers.hash.build_file(context, relpath)\n\n    return BuildFileResult(\n        children=copy_result.children + hash_result.children,\n        produced=copy_result.produced + hash_result.produced,\n        reused=copy_result.reused + hash_result.reused,\n    )', '    result = BuildFileResult(children=[], produced=[], reused=[])\n    for handler in (\n        vanillaplusjs.build.handlers.copy,\n        vanillaplusjs.build.handlers.hash,\n    ):\n        part = handler.build_file(context, relpath)\n        result.children.extend(part.children)\n        result.produced.extend(part.produced)\n        result.reused.extend(part.reused)\n    return result')])]
