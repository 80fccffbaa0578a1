H = "build/hot_incremental_rebuild.py"
G = "build/graph.py"
C = "build/cold_incremental_rebuild.py"
D = "runners/dev.py"
FS = "build/file_signature.py"
SIG = '''            new_signature: FileSignature = None
            if file in changed_files:
                new_signature = changed_files[file]
            elif file in added_files:
                new_signature = added_files[file]
            else:
                old_node = old_dependency_graph.nodes[file]
                new_signature = FileSignature(
                    old_node.mtime, old_node.filesize, old_node.inode
                )
'''
ADD = '''            new_dependency_graph.add_file(
                file, new_signature.filesize, new_signature.mtime, new_signature.inode
            )
'''
WHILE = "        while files_to_rebuild or pending_results:\n"
SCAN = "            updated_children.update(additional_children)\n"
MAPPING = "        out_dependencies_mapping: Dict[str, str] = dict()\n"
PH = '''                        files_that_need_scanning.append(placeholder_relpath)
                        new_placeholders[placeholder_relpath] = scanned_file_relpath
                        added_files[placeholder_relpath] = get_file_signature(
                            os.path.join(context.folder, placeholder_relpath)
                        )
'''
CASES = [
    ("bug", "measured for the graph", [(H, SIG, "            new_signature = get_file_signature(os.path.join(context.folder, file))\n")]),
    ("bug", "rebuilt files measured for the graph", [(H, SIG, SIG.replace("            else:\n", "            elif file in updated_results:\n                new_signature = get_file_signature(os.path.join(context.folder, file))\n            else:\n"))]),
    ("bug", "refreshed when the builder has finished", [(H, "                    updated_results[pending_file] = rebuild_result\n", "                    updated_results[pending_file] = rebuild_result\n                    if pending_file in changed_files:\n                        changed_files[pending_file] = get_file_signature(os.path.join(context.folder, pending_file))\n")]),
    ("bug", "refreshed after scanning", [(H, MAPPING, "        for f in updated_children:\n            if f in changed_files:\n                changed_files[f] = get_file_signature(os.path.join(context.folder, f))\n" + MAPPING)]),
    ("bug", "modification time of now", [(H, "                file, new_signature.filesize, new_signature.mtime, new_signature.inode\n            )\n            new_output", "                file, new_signature.filesize, os.path.getmtime(os.path.join(context.folder, file)), new_signature.inode\n            )\n            new_output")]),
    ("bug", "nodes updated before storing", [(H, "        with open(context.dependency_graph_file, \"w\") as fp:\n", "        for file in updated_results:\n            new_dependency_graph.nodes[file].mtime = os.stat(os.path.join(context.folder, file)).st_mtime\n        with open(context.dependency_graph_file, \"w\") as fp:\n")]),
    ("bug", "old signature only", [(H, SIG, "            old_node = old_dependency_graph.nodes[file]\n            new_signature = FileSignature(old_node.mtime, old_node.filesize, old_node.inode)\n")]),
    ("bug", "lazy signature", [(FS, "    mtime: float\n", "    path: str\n"), (FS, "        mtime=stats.st_mtime,\n", "        path=file,\n"), (FS, "def get_file_signature", "def _unused():\n    return None\n\n\ndef get_file_signature")]) if False else
    ("bug", "measured by a helper in the graph", [(H, ADD, "            sig = _fresh(context, file, new_signature)\n            new_dependency_graph.add_file(file, sig.filesize, sig.mtime, sig.inode)\n"), (H, "async def scan_files(", '''def _fresh(context, file, sig):
    path = os.path.join(context.folder, file)
    if os.path.exists(path):
        return get_file_signature(path)
    return sig


async def scan_files(''')]),
    ("bug", "scan result carries a signature", [(H, SCAN, SCAN + "            for f in additional_children:\n                if f in added_files:\n                    added_files[f] = get_file_signature(os.path.join(context.folder, f))\n")]),
    ("same", "constructed from the node", [(H, SIG, SIG.replace("                new_signature = FileSignature(\n                    old_node.mtime, old_node.filesize, old_node.inode\n                )\n", "                new_signature = old_node\n"))]),
    ("same", "merged mapping", [(H, SIG, '''            given = {**changed_files, **added_files}
            new_signature = given.get(file)
            if new_signature is None:
                new_signature = old_dependency_graph.nodes[file]
''')]),
    ("same", "helper", [(H, SIG, "            new_signature = signature_of(file)\n"), (H, "        possible_empty_placeholder_nodes = set()\n", '''        def signature_of(file):
            if file in changed_files:
                return changed_files[file]
            if file in added_files:
                return added_files[file]
            old_node = old_dependency_graph.nodes[file]
            return FileSignature(old_node.mtime, old_node.filesize, old_node.inode)

        possible_empty_placeholder_nodes = set()
''')]),
    ("same", "placeholder measured first", [(H, PH, '''                        added_files[placeholder_relpath] = get_file_signature(
                            os.path.join(context.folder, placeholder_relpath)
                        )
                        new_placeholders[placeholder_relpath] = scanned_file_relpath
                        files_that_need_scanning.append(placeholder_relpath)
''')]),
    ("same", "measured for a log message", [(H, ADD, ADD + "            logger.debug('{} is {}', file, get_file_signature(os.path.join(context.folder, file)) if os.path.exists(os.path.join(context.folder, file)) else None)\n")]),
    ("same", "size of the outputs", [(H, WHILE, "        logger.debug('{}', os.path.getsize(context.config_file))\n" + WHILE)]),
    ("same", "keyword arguments", [(H, ADD, '''            new_dependency_graph.add_file(
                file,
                filesize=new_signature.filesize,
                mtime=new_signature.mtime,
                inode=new_signature.inode,
            )
''')]),
    ("same", "cold measures in a helper", [(C, "            signature = get_file_signature(os.path.join(context.folder, relpath))\n", "            signature = _measure(context, relpath)\n"), (C, "async def cold_incremental_rebuild(", "def _measure(context, relpath):\n    return get_file_signature(os.path.join(context.folder, relpath))\n\n\nasync def cold_incremental_rebuild(")]),
]
