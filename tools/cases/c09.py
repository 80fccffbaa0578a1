H="build/handlers/hash.py"; J="build/handlers/js_constants.py"; O="build/css/manips/outline_image_data.py"; I="build/css/manips/icons/manip.py"
C="build/handlers/css.py"; HT="build/handlers/html.py"; OL="build/html/manips/outline.py"; G="build/handlers/image_glue.py"; CP="build/handlers/copy.py"
E="build/html/manips/images/exporter.py"; JS="build/handlers/js.py"
CASES=[
("bug","copy link not reported",[(CP,'''    if context.symlinks:
        os.symlink(
            os.path.abspath(src_path_rel_to_cwd),
            target_path_rel_to_cwd,
        )
    else:''','''    if context.symlinks:
        os.symlink(
            os.path.abspath(src_path_rel_to_cwd),
            target_path_rel_to_cwd,
        )
        return BuildFileResult(children=[], produced=[], reused=[target_path])
    else:''')]),
("bug","hash reused without test",[(H,"if os.path.exists(target_path_rel_to_cwd):","if os.path.exists(src_path_rel_to_cwd) and not context.dev:")]),
("bug","copy tests the source",[(CP,"if os.path.exists(target_path_rel_to_cwd):","if os.path.exists(src_path_rel_to_cwd) and context.symlinks:")]),
("bug","js_constants hash dropped",[(J,'''    produced.update(build_result.produced)
''','')]),
("bug","icon written, not reported",[(I,'''            self.produced.add(output_relpath)
''','')]),
("bug","icon hash outputs dropped",[(I,'''            self.produced.update(hash_result.produced)
''','')]),
("bug","outline produced as reused",[(OL,"self.produced.update(build_result.produced)","self.reused.update(build_result.produced)")]),
("bug","outlined image only reported when hash new",[(O,'''                self.produced.add(out_relpath)
                makedirs_safely(os.path.dirname(out_path))''','''                makedirs_safely(os.path.dirname(out_path))'''),(O,'''            self.produced.update(hash_build_result.produced)
''','''            self.produced.update(hash_build_result.produced)
            if hash_build_result.produced:
                self.produced.add(out_relpath)
''')]),
("bug","exported copy not reported",[(E,'''            produced.append(out_path_relative_to_root)
''','''            if not context.symlinks:
                produced.append(out_path_relative_to_root)
''')]),
("bug","metadata not reported",[(E,'''    produced.append(os.path.join(target_art_folder_relative_to_root, "metadata.json"))
''','')]),
("bug","css manips: produced lost",[(C,'''        produced.update(build_result.produced)
''','''        produced.update(x for x in build_result.reused)
''')]),
("bug","html output not reported",[(HT,'''    produced.add(target_path)
''','')]),
("bug","export: reused outputs not tested",[(E,"if os.path.exists(os.path.join(context.folder, out_file)):","if context.symlinks:")]),
("bug","unreported extra file",[(H,'''    with open(target_path_rel_to_cwd, "w") as f:
        f.write(sha256_b64)
''','''    with open(target_path_rel_to_cwd, "w") as f:
        f.write(sha256_b64)
    with open(target_path_rel_to_cwd + ".txt", "w") as f:
        f.write(sha256_b64)
''')]),
("same","hash: temp and move",[(H,'''    with open(target_path_rel_to_cwd, "w") as f:
        f.write(sha256_b64)
''','''    with open(target_path_rel_to_cwd + ".tmp", "w") as f:
        f.write(sha256_b64)
    os.replace(target_path_rel_to_cwd + ".tmp", target_path_rel_to_cwd)
''')]),
("same","copy: one return",[(CP,'''        return BuildFileResult(children=[], produced=[], reused=[target_path])

    makedirs_safely''','''        return _result(target_path, False)

    makedirs_safely'''),(CP,'''    return BuildFileResult(children=[], produced=[target_path], reused=[])''','''    return _result(target_path, True)


def _result(path, made):
    if made:
        return BuildFileResult(children=[], produced=[path], reused=[])
    return BuildFileResult(children=[], produced=[], reused=[path])''')]),
("same","icon: record after hash",[(I,'''            self.produced.add(output_relpath)
            self.children.update(hash_result.children)
            self.produced.update(hash_result.produced)
            self.reused.update(hash_result.reused)
''','''            self.children.update(hash_result.children)
            self.produced.update([output_relpath] + hash_result.produced)
            self.reused.update(hash_result.reused)
''')]),
("same","js_constants: invert",[(J,"    if os.path.exists(target_path):\n        reused.add(target_relpath)\n    else:\n        produced.add(target_relpath)\n","    already = os.path.exists(target_path)\n    if already:\n        reused.add(target_relpath)\n    if not already:\n        produced.add(target_relpath)\n")]),
("same","css: comprehension",[(C,'''        children.update(build_result.children)
        produced.update(build_result.produced)
''','''        children |= set(build_result.children)
        for made in build_result.produced:
            produced.add(made)
''')]),
("same","export helper",[(E,'''            produced.append(out_path_relative_to_root)
''','''            produced += [out_path_relative_to_root]
''')]),
]
MG="""                self.children.update(build_result.children)
                self.produced.update(build_result.produced)
                self.reused.update(build_result.reused)
"""
CASES+=[
("bug","outline image only reported when created",[(O,"            if os.path.lexists(out_path):\n                self.reused.add(out_relpath)\n            else:\n","            if not os.path.lexists(out_path):\n")]),
("bug","existing icon not reported",[(I,"                self.reused.add(output_relpath)\n                continue","                continue")]),
("bug","existing hash not reported",[(H,"return BuildFileResult(children=[], produced=[], reused=[target_path])","return BuildFileResult(children=[], produced=[], reused=[])")]),
("bug","outline reused only for styles",[(OL,MG,MG.replace("                self.reused","                if self.outlining == \"style\":\n                    self.reused"))]),
("bug","outline produced only when new",[(OL,MG,MG.replace("                self.produced","                if not build_result.reused:\n                    self.produced"))]),
("same","outline merged in loops",[(OL,MG,"""                for x in build_result.children:
                    self.children.add(x)
                for x in build_result.produced:
                    self.produced.add(x)
                for x in build_result.reused:
                    self.reused.add(x)
""")]),
("same","outline merged when any",[(OL,MG,"""                if build_result.children:
                    self.children.update(build_result.children)
                if build_result.produced:
                    self.produced.update(build_result.produced)
                if len(build_result.reused) > 0:
                    self.reused.update(build_result.reused)
""")]),
("same","outline merged by a helper",[(OL,MG,"                self._merge(build_result)\n"),(OL,"    def _should_outline_script(","""    def _merge(self, result):
        self.children.update(result.children)
        self.produced.update(result.produced)
        self.reused.update(result.reused)

    def _should_outline_script(""")]),
("same","icon exists inverted",[(I,"""                self.reused.add(output_relpath)
                continue
""","""                exists = True
            else:
                exists = False
            if exists:
                self.reused.add(output_relpath)
                continue
""")]),
('bug', 'replaced export stays', [('build/html/manips/images/exporter.py', '                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    if best_export_path is not None:\n                        os.remove(best_export_path)\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                else:\n                    os.remove(export_path)\n', '                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                else:\n                    os.remove(export_path)\n')]),
('bug', 'worse export stays', [('build/html/manips/images/exporter.py', '                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    if best_export_path is not None:\n                        os.remove(best_export_path)\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                else:\n                    os.remove(export_path)\n', '                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    if best_export_path is not None:\n                        os.remove(best_export_path)\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n')]),
('bug', 'small worse export stays', [('build/html/manips/images/exporter.py', '                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    if best_export_path is not None:\n                        os.remove(best_export_path)\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                else:\n                    os.remove(export_path)\n', '                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    if best_export_path is not None:\n                        os.remove(best_export_path)\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                elif export_size > 128:\n                    os.remove(export_path)\n')]),
('same', 'path made first', [('build/html/manips/images/exporter.py', '                if not export_settings.applies_to(out_width, out_height):\n                    continue\n                export_path = os.path.join(\n                    context.folder,\n                    target_art_folder_relative_to_root,\n                    f"{out_width}x{out_height}-{export_name}.{format_name}",\n                )\n                export_size = os.lstat(export_path).st_size\n', '                export_path = os.path.join(\n                    context.folder,\n                    target_art_folder_relative_to_root,\n                    f"{out_width}x{out_height}-{export_name}.{format_name}",\n                )\n                if not export_settings.applies_to(out_width, out_height):\n                    continue\n                export_size = os.lstat(export_path).st_size\n')]),
('same', 'worse one first', [('build/html/manips/images/exporter.py', '                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    if best_export_path is not None:\n                        os.remove(best_export_path)\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                else:\n                    os.remove(export_path)\n', '                if best_export is not None:\n                    if (\n                        compare_in_format(\n                            format_settings,\n                            best_export,\n                            best_export_size,\n                            export_settings,\n                            export_size,\n                        )\n                        <= 0\n                    ):\n                        os.remove(export_path)\n                        continue\n                    os.remove(best_export_path)\n                best_export = export_settings\n                best_export_name = export_name\n                best_export_size = export_size\n                best_export_path = export_path\n')]),
('same', 'removed by helper', [('build/html/manips/images/exporter.py', '                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    if best_export_path is not None:\n                        os.remove(best_export_path)\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                else:\n                    os.remove(export_path)\n', '                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    if best_export_path is not None:\n                        drop_export(best_export_path)\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                else:\n                    drop_export(export_path)\n'), ('build/html/manips/images/exporter.py', 'def produce_image(', 'def drop_export(path: str) -> None:\n    logger.debug("Removing {}", path)\n    os.remove(path)\n\n\ndef produce_image(')]),
('same', 'loser removed at the end', [('build/html/manips/images/exporter.py', '                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    if best_export_path is not None:\n                        os.remove(best_export_path)\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                else:\n                    os.remove(export_path)\n', '                loser = export_path\n                if (\n                    best_export is None\n                    or compare_in_format(\n                        format_settings,\n                        best_export,\n                        best_export_size,\n                        export_settings,\n                        export_size,\n                    )\n                    > 0\n                ):\n                    loser = best_export_path\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                if loser is not None:\n                    os.remove(loser)\n')]),
('same', 'exporter publish helper', [('build/html/manips/images/exporter.py', '                    if context.symlinks:\n                        os.symlink(\n                            os.path.abspath(\n                                os.path.join(context.artifacts_folder, output.relpath)\n                            ),\n                            os.path.join(context.folder, out_file),\n                        )\n                    else:\n                        shutil.copy(\n                            os.path.join(context.artifacts_folder, output.relpath),\n                            os.path.join(context.folder, out_file),\n                        )\n', '                    publish(\n                        context,\n                        os.path.join(context.artifacts_folder, output.relpath),\n                        out_file,\n                    )\n'), ('build/html/manips/images/exporter.py', '            if context.symlinks:\n                os.symlink(\n                    os.path.abspath(desired_path),\n                    os.path.join(context.folder, out_path_relative_to_root),\n                )\n            else:\n                shutil.copy(\n                    desired_path,\n                    os.path.join(context.folder, out_path_relative_to_root),\n                )\n\n            produced.append(out_path_relative_to_root)\n', '            produced.append(out_path_relative_to_root)\n            publish(context, desired_path, out_path_relative_to_root)\n'), ('build/html/manips/images/exporter.py', 'def produce_image(\n    src', 'def publish(context, artifact, out_relpath):\n    target = os.path.join(context.folder, out_relpath)\n    if not context.symlinks:\n        shutil.copy(artifact, target)\n        return\n    os.symlink(os.path.abspath(artifact), target)\n\n\ndef produce_image(\n    src'), ('build/html/manips/images/exporter.py', '                    if best_export_path is not None:\n                        os.remove(best_export_path)\n                    best_export = export_settings\n                    best_export_name = export_name\n                    best_export_size = export_size\n                    best_export_path = export_path\n                else:\n                    os.remove(export_path)\n', '                    loser = best_export_path\n                    best_export, best_export_name = export_settings, export_name\n                    best_export_size, best_export_path = export_size, export_path\n                else:\n                    loser = export_path\n                if loser is not None:\n                    os.remove(loser)\n')]),
]

CASES += [("same", 'r8: js results by comprehension', [('build/handlers/js.py', '    children = set()\n    produced = set()\n    reused = set()\n\n    manips = [manip(context, relpath, "build")', '    manips = [manip(context, relpath, "build")'), ('build/handlers/js.py', '    produced.add(target_path)\n\n    sub_build', '    sub_build'), ('build/handlers/js.py', '    for build_result in sub_build_results:\n        children.update(build_result.children)\n        produced.update(build_result.produced)\n        reused.update(build_result.reused)\n\n    return BuildFileResult(\n        children=list(children), produced=list(produced), reused=list(reused)\n    )\n', '    children = {c for r in sub_build_results for c in r.children}\n    produced = {target_path} | {c for r in sub_build_results for c in r.produced}\n    reused = {c for r in sub_build_results for c in r.reused}\n\n    return BuildFileResult(\n        children=list(children), produced=list(produced), reused=list(reused)\n    )\n')])]
CASES += [('same', 'icons svg helper', [('build/css/manips/icons/manip.py', '            makedirs_safely(os.path.dirname(output_path))\n            with open(output_path, "w", newline="\\n") as f:\n                f.write(new_svg)\n\n            hash_result = hash_handler.build_file(self.context, output_relpath)\n            self.produced.add(output_relpath)\n            self.children.update(hash_result.children)\n            self.produced.update(hash_result.produced)\n            self.reused.update(hash_result.reused)\n\n        resulting_tokens', '            self._publish(output_relpath, new_svg)\n\n        resulting_tokens'), ('build/css/manips/icons/manip.py', '    def continue_mark(self', '    def _publish(self, relpath: str, svg: str) -> None:\n        """Writes the icon and its hash"""\n        path = os.path.join(self.context.folder, relpath)\n        makedirs_safely(os.path.dirname(path))\n        with open(path, "w", newline="\\n") as f:\n            f.write(svg)\n\n        self.produced.add(relpath)\n        result = hash_handler.build_file(self.context, relpath)\n        self.children |= set(result.children)\n        self.produced |= set(result.produced)\n        self.reused |= set(result.reused)\n\n    def continue_mark(self')])]
