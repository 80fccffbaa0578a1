C="build/handlers/copy.py"; H="build/handlers/hash.py"; M="build/html/manips/images/metadata.py"; E="build/html/manips/images/exporter.py"; CO="build/cold_incremental_rebuild.py"; HO="build/hot_incremental_rebuild.py"
T="build/html/manips/template.py"; N="build/css/manips/nest.py"; O="build/html/manips/outline.py"; D="runners/dev.py"; CL="runners/clean.py"; L="build/html/manips/link_hash.py"; IG="build/handlers/image_glue.py"; HI="build/js/manips/hash_imports.py"; BC="build/build_context.py"; B="runners/build.py"
CASES=[
("bug","copy: link to a relative source",[(C,"os.path.abspath(src_path_rel_to_cwd)","src_path_rel_to_cwd")]),
("bug","copy: link relative to its folder",[(C,"os.path.abspath(src_path_rel_to_cwd)","os.path.relpath(src_path_rel_to_cwd, os.path.dirname(target_path_rel_to_cwd))")]),
("bug","copy: link to cwd",[(C,"os.path.abspath(src_path_rel_to_cwd)","os.path.abspath(relpath)")]),
("bug","hash: existence in cwd",[(H,"if os.path.exists(target_path_rel_to_cwd):","if os.path.exists(target_path):")]),
("bug","exporter: link not absolute",[(E,"os.path.abspath(desired_path)","desired_path",1)]),
("bug","exporter: output folder in cwd",[(E,'''            makedirs_safely(
                os.path.join(context.folder, target_out_folder_relative_to_root)
            )''','''            makedirs_safely(target_out_folder_relative_to_root)''')]),
("bug","metadata: entry name",[(M,'''            with open(os.path.join(entry.path, "metadata.json"), "r") as f:''','''            with open(os.path.join(entry.name, "metadata.json"), "r") as f:''')]),
("bug","cold: walks src",[(CO,"os.walk(context.src_folder)",'os.walk("src")')]),
("bug","cold: signature of relpath",[(CO,"get_file_signature(os.path.join(context.folder, relpath))","get_file_signature(relpath)")]),
("bug","hot: unlink relpath",[(HO,"        for file in still_dirty_artifacts:\n            logger.debug(\"Cleaning {}\", file)\n            os.unlink(os.path.join(context.folder, file))","        for file in still_dirty_artifacts:\n            logger.debug(\"Cleaning {}\", file)\n            os.unlink(os.path.join(\".\", file))")]),
("bug","template: opened by relpath",[(T,"open(os.path.join(self.context.folder, imp.relpath)","open(os.path.join(imp.relpath)")]),
("bug","nest: own source",[(N,"open(os.path.join(self.context.folder, self.relpath))","open(self.relpath)")]),
("bug","outline: rmdir",[(O,"os.rmdir(os.path.join(self.context.folder, possibly_empty_folder))","os.rmdir(possibly_empty_folder)")]),
("bug","dev: relative folder for the handler",[(D,"            folder=abs_folder,\n","            folder=folder,\n")]),
("bug","dev: made absolute too late",[(D,"    abs_folder = os.path.abspath(folder)\n    os.chdir(os.path.join(folder, \"out\", \"www\"))\n    try:\n","    os.chdir(os.path.join(folder, \"out\", \"www\"))\n    try:\n        abs_folder = os.path.abspath(folder)\n")]),
("bug","clean: placeholder in cwd",[(CL,"os.remove(os.path.join(folder, file))","os.remove(file)")]),
("bug","clean: artifacts in cwd",[(CL,'os.path.join(folder, "artifacts")','"artifacts"')]),
("bug","link: hash test",[(L,"os.path.join(self.context.folder, rel_to_out + \".hash\")","rel_to_out + \".hash\"")]),
("bug","js: join drops the folder",[(HI,'''            self.context.folder, "out", "www", rel_to_public + ".hash"''','''            "out", "www", rel_to_public + ".hash"''')]),
("bug","context: artifacts folder",[(BC,'os.path.join(self.folder, "artifacts")','"artifacts"')]),
("same","copy: realpath",[(C,"os.path.abspath(src_path_rel_to_cwd)","os.path.realpath(src_path_rel_to_cwd)")]),
("same","copy: absolute earlier",[(C,"    src_path_rel_to_cwd = os.path.join(context.folder, relpath)\n    target","    src_path_rel_to_cwd = os.path.abspath(os.path.join(context.folder, relpath))\n    target"),(C,"os.path.abspath(src_path_rel_to_cwd)","src_path_rel_to_cwd")]),
("same","copy: absolute folder joined",[(C,"os.path.abspath(src_path_rel_to_cwd)","os.path.join(os.path.abspath(context.folder), relpath)")]),
("same","hash: pathlib",[(H,"    with open(filepath, \"rb\") as f:\n        sha256.update(f.read())\n","    sha256.update(Path(filepath).read_bytes())\n"),(H,"import os\n","import os\nfrom pathlib import Path\n")]),
("same","metadata: listdir",[(M,'''            with open(os.path.join(entry.path, "metadata.json"), "r") as f:''','''            with open(os.path.join(art_path, entry.name, "metadata.json"), "r") as f:''')]),
("same","template: helper",[(T,"open(os.path.join(self.context.folder, imp.relpath)","open(self._absolute(imp.relpath)"),(T,"    def start_mark(","    def _absolute(self, relpath):\n        return os.path.join(self.context.folder, relpath)\n\n    def start_mark(")]),
("same","hot: f-string",[(HO,"        for file in still_dirty_artifacts:\n            logger.debug(\"Cleaning {}\", file)\n            os.unlink(os.path.join(context.folder, file))","        for file in still_dirty_artifacts:\n            logger.debug(\"Cleaning {}\", file)\n            os.unlink(f\"{context.folder}{os.path.sep}{file}\")")]),
("same","cold: walk from folder",[(CO,"os.walk(context.src_folder)",'os.walk(os.path.join(context.folder, "src"))')]),
("same","cold: signature of the walked path",[(CO,"get_file_signature(os.path.join(context.folder, relpath))","get_file_signature(os.path.join(dirpath, filename))")]),
("same","dev: context absolute",[(D,"context = BuildContext(self.folder, ","context = BuildContext(os.path.abspath(self.folder), ")]),
("same","outline: remembers the absolute path",[(O,"os.remove(os.path.join(self.context.folder, self.outlining_to_path))","to_remove = os.path.join(self.context.folder, self.outlining_to_path)\n            os.remove(to_remove)")]),
]
