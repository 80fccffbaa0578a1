C="build/handlers/copy.py"; H="build/handlers/hash.py"; M="build/html/manips/images/metadata.py"; E="build/html/manips/images/exporter.py"; CO="build/cold_incremental_rebuild.py"; HO="build/hot_incremental_rebuild.py"
T="build/html/manips/template.py"; N="build/css/manips/nest.py"; O="build/html/manips/outline.py"; B="runners/build.py"; JC="build/handlers/js_constants.py"; IG="build/handlers/image_glue.py"; OI="build/css/manips/outline_image_data.py"; IC="build/css/manips/icons/manip.py"; BC="build/build_context.py"
EX='''                        if os.path.exists(
                            os.path.join(context.folder, placeholder_relpath)
                        ):
                            continue
'''
OP='''                        with open(
                            os.path.join(context.folder, placeholder_relpath), "w"
                        ) as f:
                            f.write(placeholder_contents)
'''
RM='''            if not has_any_contents:
                logger.debug("Cleaning empty folder {}", folder_relpath)
                os.rmdir(folder)
'''
CHD="for child in old_output_graph.get_children(file):"
CASES=[
("same","hot: empty folders removed as trees",[(HO,"                os.rmdir(folder)","                shutil.rmtree(folder)"),(HO,"import os\n","import os\nimport shutil\n")]),
("bug","hot: rmtree of everything possibly empty",[(HO,RM,"            shutil.rmtree(folder, ignore_errors=True)\n"),(HO,"import os\n","import os\nimport shutil\n")]),
("bug","hot: placeholder overwrites",[(HO,EX,'''                        if placeholder_relpath in new_placeholders:
                            continue
''')]),
("bug","hot: placeholder overwrites when known",[(HO,EX,'''                        if placeholder_relpath in old_dependency_graph:
                            continue
''')]),
("bug","hot: placeholder tested elsewhere",[(HO,EX,EX.replace("context.folder,","context.out_folder,"))]),
("bug","hot: empty placeholder rewritten",[(HO,EX,EX.replace("                        ):\n",'                        ) and os.path.getsize(os.path.join(context.folder, placeholder_relpath)):\n'))]),
("bug","hot: another file tested",[(HO,EX,EX.replace("placeholder_relpath","scanned_file_relpath"))]),
("bug","hot: cleans dependencies",[(HO,CHD,"for child in old_dependency_graph.get_children(file):")]),
("bug","hot: cleans parents",[(HO,CHD,"for child in old_output_graph.get_parents(file):")]),
("bug","hot: cleans placeholders",[(HO,CHD,"for child in old_placeholders_graph.get_children(file):")]),
("bug","hot: cleans the file as well",[(HO,"            if file in old_output_graph:\n                for child","            if file in old_output_graph:\n                dirtied_outputs.add(file)\n                for child",)]),
("bug","hot: deletes rebuilt files",[(HO,"        for file in dirtied_outputs:\n            logger.debug(\"Cleaning","        for file in dirtied_outputs.union(deleted_files):\n            logger.debug(\"Cleaning")]),
("bug","hot: deletes orphaned placeholders",[(HO,'''        for file in still_dirty_artifacts:
            logger.debug("Cleaning {}", file)
''','''        for file in deleted_files:
            if file in old_placeholders_graph:
                for child in old_placeholders_graph.get_children(file):
                    os.unlink(os.path.join(context.folder, child))

        for file in still_dirty_artifacts:
            logger.debug("Cleaning {}", file)
''')]),
("bug","hot: mode file in the project",[(HO,'''os.path.join(context.out_folder, "js_constants_mode.txt"), "w"''','''os.path.join(context.folder, "js_constants_mode.txt"), "w"''')]),
("bug","hash next to the source",[(H,"    with open(target_path_rel_to_cwd, \"w\") as f:",'    with open(os.path.join(context.folder, relpath) + ".hash", "w") as f:')]),
("bug","hash: target keeps src",[(H,'return f"out{os.path.sep}www','return f"src{os.path.sep}www')]),
("bug","copy: moves",[(C,"shutil.copyfile(","shutil.move(")]),
("bug","exporter: lock beside the project",[(E,'Path(os.path.join(context.folder, lock_file)).touch()','Path(os.path.join(context.folder, os.path.basename(lock_file))).touch()')]),
("bug","metadata: locks in the project folder",[(M,'context.artifacts_folder','context.folder',1)]),
("bug","metadata: art folder prefix",[(BC,'os.path.join(self.folder, "artifacts")','os.path.join(self.folder, "artifacts2")')]),
("bug","cold: temp file in the project",[(CO,"os.path.join(context.out_folder, f\"{secrets","os.path.join(context.folder, f\"{secrets")]),
("bug","cold: purges the source of changed",[(CO,"                relpaths_deleted.remove(relpath)\n","                relpaths_deleted.remove(relpath)\n                if signature.filesize == 0:\n                    os.remove(os.path.join(context.folder, relpath))\n")]),
("bug","outline: transient source in the pages folder",[(O,'self.script_src_folder = os.path.join("src", "public", "js", "gen", path_in_gen)','self.script_src_folder = os.path.join("src", "public", "js", path_in_gen)')]),
("bug","outline: rmtree",[(O,"os.rmdir(os.path.join(self.context.folder, possibly_empty_folder))","shutil.rmtree(os.path.join(self.context.folder, possibly_empty_folder))"),(O,"import os\n","import os\nimport shutil\n")]),
("bug","icons: writes into src",[(IC,'with open(output_path, "w", newline="\\n") as f:','with open(os.path.join(self.context.folder, args.input_icon), "w", newline="\\n") as f:')]),
("bug","images: placeholder written by the scan",[(IG,"    return ScanFileResult(","    open(os.path.join(context.folder, relpath), \"a\").close()\n    return ScanFileResult(",)]),
("bug","js constants: produced reported in src",[(JC,"produced=[","produced=[relpath, ",1)]),
("bug","build: probe in the project",[(B,"with tempfile.TemporaryDirectory() as","with tempfile.TemporaryDirectory(dir='.') as")]),
("same","hot: placeholder exclusive",[(HO,EX+'''
                        logger.info(
                            "{} generated a placeholder file {}",
                            scanned_file_relpath,
                            placeholder_relpath,
                        )
'''+OP,'''                        try:
                            with open(
                                os.path.join(context.folder, placeholder_relpath), "x"
                            ) as f:
                                f.write(placeholder_contents)
                        except FileExistsError:
                            continue
''')]),
("same","hot: placeholder path named",[(HO,EX,'''                        placeholder_path = os.path.join(context.folder, placeholder_relpath)
                        if os.path.lexists(placeholder_path):
                            continue
'''),(HO,OP,'''                        with open(placeholder_path, "w") as f:
                            f.write(placeholder_contents)
''')]),
("same","hot: placeholder helper",[(HO,EX,'''                        if not _missing(context, placeholder_relpath):
                            continue
'''),(HO,"async def hot_incremental_rebuild(",'''def _missing(context, relpath):
    return not os.path.exists(os.path.join(context.folder, relpath))


async def hot_incremental_rebuild(''')]),
("same","hot: placeholder if-else",[(HO,EX,''),(HO,OP,'''                        if not os.path.exists(os.path.join(context.folder, placeholder_relpath)):
                            with open(os.path.join(context.folder, placeholder_relpath), "w") as f:
                                f.write(placeholder_contents)
''')]),
("same","hot: clean helper",[(HO,'''        for file in still_dirty_artifacts:
            logger.debug("Cleaning {}", file)
            os.unlink(os.path.join(context.folder, file))
''','''        _clean_all(context, still_dirty_artifacts)
'''),(HO,"async def hot_incremental_rebuild(",'''def _clean_all(context, files):
    for file in sorted(files):
        os.remove(os.path.join(context.folder, file))


async def hot_incremental_rebuild(''')]),
("same","hot: outputs collected first",[(HO,CHD,"outputs = list(old_output_graph.get_children(file))\n                for child in outputs:")]),
("same","hot: dirty copied",[(HO,"        for file in dirtied_outputs:\n            logger.debug(\"Cleaning","        to_clean = sorted(set(dirtied_outputs))\n        for file in to_clean:\n            logger.debug(\"Cleaning")]),
("same","hot: one dirty set",[(HO,'''                    if child.startswith("artifacts"):
                        dirtied_artifacts.add(child)
                    else:
                        dirtied_outputs.add(child)
''','''                    target = (
                        dirtied_artifacts
                        if child.startswith("artifacts")
                        else dirtied_outputs
                    )
                    target.add(child)
''')]),
("same","hot: rmdir with listdir",[(HO,'''            scandir_iter = os.scandir(folder)
            has_any_contents = next(scandir_iter, None) is not None
            scandir_iter.close()
            if not has_any_contents:
''','''            if not os.listdir(folder):
''')]),
("same","hot: walk pathlib",[(HO,"                os.rmdir(folder)","                pathlib.Path(folder).rmdir()"),(HO,"import os\n","import os\nimport pathlib\n")]),
("same","hash: pathlib",[(H,'''    with open(target_path_rel_to_cwd, "w") as f:
''','''    with pathlib.Path(target_path_rel_to_cwd).open("w") as f:
'''),(H,"import os\n","import os\nimport pathlib\n")]),
("same","outline: folder constant",[(O,'self.script_src_folder = os.path.join("src", "public", "js", "gen", path_in_gen)','gen = os.path.join("src", "public", "js", "gen")\n        self.script_src_folder = os.path.join(gen, path_in_gen)')]),
("same","outline: both folders from one place",[(O,'self.script_src_folder = os.path.join("src", "public", "js", "gen", path_in_gen)','self.script_src_folder = self._gen("js", path_in_gen)'),(O,"    def start_mark(",'''    def _gen(self, kind, path):
        return "/".join(("src", "public", kind, "gen", path))

    def start_mark(''')]),
("same","cold: temp named",[(CO,"os.unlink(temp_path)","os.remove(temp_path)")]),
("same","context folders as parts",[(BC,'os.path.join(self.folder, "artifacts")','f"{self.folder}{os.sep}artifacts"')]),
("same","exporter: unlink",[(E,"os.remove(best_export_path)","os.unlink(best_export_path)")]),
("bug","cold: old external file beside the project",[(CO,"                os.remove(os.path.join(context.folder, old_external_file_relpath))","                os.remove(os.path.join(os.path.dirname(context.folder), old_external_file_relpath))")]),
("same","cold: old external file named",[(CO,"                os.remove(os.path.join(context.folder, old_external_file_relpath))","                old_path = os.path.join(context.folder, old_external_file_relpath)\n                os.remove(old_path)")]),
]

CASES += [("same", 'r7: hot folders helper', [('build/hot_incremental_rebuild.py', '        possibly_empty_folders = set()\n        for file in itertools.chain(dirtied_outputs, dirtied_artifacts):\n            folder = os.path.dirname(file)\n            while folder != "":\n                possibly_empty_folders.add(folder)\n                folder = os.path.dirname(folder)\n', '        possibly_empty_folders = {\n            folder\n            for file in dirtied_outputs | dirtied_artifacts\n            for folder in parent_folders(file)\n        }\n'), ('build/hot_incremental_rebuild.py', 'async def hot_incremental_rebuild(', 'def parent_folders(path: str) -> List[str]:\n    """All folders above the given relative path, deepest first"""\n    result = []\n    folder = os.path.dirname(path)\n    while folder:\n        result.append(folder)\n        folder = os.path.dirname(folder)\n    return result\n\n\nasync def hot_incremental_rebuild(')])]
