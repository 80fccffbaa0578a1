C="build/cold_incremental_rebuild.py"
G="build/file_signature.py"
CASES=[
("bug","no-integrity",[(C,"""    if old_state.integrity != desired_file.integrity:
        return False

""","")]),
("bug","missing-true",[(C,"    except FileNotFoundError:\n        return False\n","    except FileNotFoundError:\n        return True\n")]),
("bug","mtime-only",[(C,"return new_signature == old_state.signature","return new_signature.mtime == old_state.signature.mtime and new_signature.filesize == old_state.signature.filesize")]),
("bug","or",[(C,"return new_signature == old_state.signature","return new_signature == old_state.signature or new_signature.mtime == old_state.signature.mtime")]),
("bug","compare-false",[(G,"    inode: int\n","    inode: int = field(compare=False, default=0)\n"),(G,"from dataclasses import dataclass","from dataclasses import dataclass, field")]),
("bug","self-signature",[(C,"os.path.join(context.folder, relpath))\n    except FileNotFoundError:\n        return False","context.src_folder)\n    except FileNotFoundError:\n        return False")]),
("bug","rebuild-first",[(C,"    await check_external_files(context)\n\n",""),(C,"        relpaths_deleted,\n    )\n","        relpaths_deleted,\n    )\n    await check_external_files(context)\n")]),
("bug","dev-skip",[(C,"    await check_external_files(context)\n","    if not context.dev:\n        await check_external_files(context)\n")]),
("bug","state-missing-skip",[(C,"    if old_state is None:\n        return False\n","    if old_state is None:\n        return os.path.exists(os.path.join(context.folder, relpath))\n")]),
("bug","break",[(C,"                ] = external_files_state.state_by_relpath[desired_external_file.relpath]\n                continue","                ] = external_files_state.state_by_relpath[desired_external_file.relpath]\n                break")]),
("same","fieldwise",[(C,"return new_signature == old_state.signature","""old = old_state.signature
    if new_signature.mtime != old.mtime:
        return False
    return new_signature.filesize == old.filesize and old.inode == new_signature.inode""")]),
("same","tuple",[(C,"return new_signature == old_state.signature","""old = old_state.signature
    return (new_signature.mtime, new_signature.filesize, new_signature.inode) == (old.mtime, old.filesize, old.inode)""")]),
("same","combined",[(C,"""    if old_state is None:
        return False

    if old_state.integrity != desired_file.integrity:
        return False
""","""    if old_state is None or old_state.integrity != desired_file.integrity:
        return False
""")]),
("same","neg",[(C,"return new_signature == old_state.signature","""unchanged = not (new_signature != old_state.signature)
    return unchanged""")]),
("same","listfirst",[(C,"""        for desired_external_file in desired_external_files.values():
            if is_external_file_skippable(
                context, external_files_state, desired_external_file.relpath
            ):
                new_external_files_state.state_by_relpath[
                    desired_external_file.relpath
                ] = external_files_state.state_by_relpath[desired_external_file.relpath]
                continue
""","""        todo = []
        for desired_external_file in desired_external_files.values():
            if is_external_file_skippable(
                context, external_files_state, desired_external_file.relpath
            ):
                new_external_files_state.state_by_relpath[
                    desired_external_file.relpath
                ] = external_files_state.state_by_relpath[desired_external_file.relpath]
            else:
                todo.append(desired_external_file)
        for desired_external_file in todo:
""")]),
("same","exists-first",[(C,"""    try:
        new_signature = get_file_signature(os.path.join(context.folder, relpath))
    except FileNotFoundError:
        return False
""","""    location = os.path.join(context.folder, relpath)
    if not os.path.lexists(location):
        return False
    new_signature = get_file_signature(location)
""")]),
("same","nested-if",[(C,"""            if is_external_file_skippable(
                context, external_files_state, desired_external_file.relpath
            ):
                new_external_files_state.state_by_relpath[
                    desired_external_file.relpath
                ] = external_files_state.state_by_relpath[desired_external_file.relpath]
                continue

            if executor is None:
                executor = ProcessPoolExecutor()

            futures.append(
                executor.submit(handle_external_file, context, desired_external_file)
            )
""","""            relpath = desired_external_file.relpath
            skippable = is_external_file_skippable(context, external_files_state, relpath)
            if skippable:
                new_external_files_state.state_by_relpath[relpath] = external_files_state.state_by_relpath[relpath]
            else:
                if executor is None:
                    executor = ProcessPoolExecutor()
                future = executor.submit(handle_external_file, context, desired_external_file)
                futures.append(future)
""")]),
]

CASES += [("same", 'r7: signature getattr', [('build/file_signature.py', '    stats = os.lstat(file)\n\n    try:\n        inode = stats.st_ino\n    except AttributeError:\n        inode = 0\n\n    return FileSignature(\n        mtime=stats.st_mtime,\n        filesize=stats.st_size,\n        inode=inode,\n    )', '    stats = os.lstat(file)\n    return FileSignature(\n        mtime=stats.st_mtime,\n        filesize=stats.st_size,\n        inode=getattr(stats, "st_ino", 0),\n    )')])]

CASES += [("same", 'r9: cold walk generator', [('build/cold_incremental_rebuild.py', '    for (dirpath, _, filenames) in os.walk(context.src_folder):\n        for filename in filenames:\n            relpath = os.path.relpath(os.path.join(dirpath, filename), context.folder)\n            signature = get_file_signature(os.path.join(context.folder, relpath))\n            if relpath in old_dependency_graph:\n                relpaths_deleted.remove(relpath)\n                if not old_dependency_graph.check_file(\n                    relpath, signature.filesize, signature.mtime, signature.inode\n                ):\n                    relpaths_changed[relpath] = signature\n            else:\n                relpaths_added[relpath] = signature\n', '    for relpath in list_source_files(context):\n        signature = get_file_signature(os.path.join(context.folder, relpath))\n        if relpath not in old_dependency_graph:\n            relpaths_added[relpath] = signature\n            continue\n\n        relpaths_deleted.discard(relpath)\n        unchanged = old_dependency_graph.check_file(\n            relpath, signature.filesize, signature.mtime, signature.inode\n        )\n        if not unchanged:\n            relpaths_changed[relpath] = signature\n'), ('build/cold_incremental_rebuild.py', 'async def check_external_files(', 'def list_source_files(context: BuildContext):\n    for (dirpath, _, filenames) in os.walk(context.src_folder):\n        for filename in filenames:\n            yield os.path.relpath(os.path.join(dirpath, filename), context.folder)\n\n\nasync def check_external_files(')])]
CASES += [('same', 'graph store by one dump', [('build/graph.py', '            print("{", file=fp, end="")\n            for idx, (path, node) in enumerate(self.nodes.items()):\n                if idx > 0:\n                    print(",", file=fp, end="")\n                json.dump(path, fp)\n                print(\':{"parents":\', file=fp, end="")\n                json.dump([parent.path for parent in node.parents], fp)\n                print(\',"children":\', file=fp, end="")\n                json.dump([child.path for child in node.children], fp),\n                print(\',"metadata":\', file=fp, end="")\n                json.dump(\n                    {\n                        "filesize": node.filesize,\n                        "mtime": node.mtime,\n                        "inode": node.inode,\n                    },\n                    fp,\n                )\n                print("}", file=fp, end="")\n            print("}", file=fp)\n', '            json.dump(\n                {\n                    path: {\n                        "parents": [parent.path for parent in node.parents],\n                        "children": [child.path for child in node.children],\n                        "metadata": {\n                            "filesize": node.filesize,\n                            "mtime": node.mtime,\n                            "inode": node.inode,\n                        },\n                    }\n                    for path, node in self.nodes.items()\n                },\n                fp,\n            )\n')])]
CASES += [('same', 'graph check by tuple', [('build/graph.py', '        a_node = self.nodes.get(a)\n        if a_node is None:\n            return False\n        return (\n            a_node.filesize == filesize\n            and a_node.mtime == mtime\n            and a_node.inode == inode\n        )\n', '        if a not in self.nodes:\n            return False\n        node = self.nodes[a]\n        return (node.filesize, node.mtime, node.inode) == (filesize, mtime, inode)\n')])]
