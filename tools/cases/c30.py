H = "build/hot_incremental_rebuild.py"
CO = '''                    # this output might be cleaned, so everything else which
                    # needs it has to produce it again
                    for par in old_output_graph.get_parents(child):
                        if par not in files_to_rebuild:
                            files_to_rebuild.add(par)
                            stack.append(par)
'''
CLOSE = '''            if file in old_output_graph:
                for child in old_output_graph.get_children(file):
                    if child.startswith("artifacts"):
                        dirtied_artifacts.add(child)
                    else:
                        dirtied_outputs.add(child)

''' + CO
PROD = '''                    for file in rebuild_result.produced:
                        if file in still_dirty_outputs:
                            logger.debug("Cleaned {} using {}", file, pending_file)
                            still_dirty_outputs.remove(file)
                        elif file in still_dirty_artifacts:
                            logger.debug("Cleaned {} using {}", file, pending_file)
                            still_dirty_artifacts.remove(file)
                        elif file in dirtied_artifacts:
                            logger.debug("Updated {} using {}", file, pending_file)
                        else:
                            logger.debug("Produced {} from {}", file, pending_file)
'''
REUSED = '''                    for file in rebuild_result.reused:
                        if file in still_dirty_outputs:
                            logger.warning(
                                "Reused {} despite being dirty; this is likely a bug",
                                file,
                            )
                            still_dirty_outputs.remove(file)
                        elif file in still_dirty_artifacts:
                            logger.debug(
                                "Determined {} is not dirty using {}",
                                file,
                                pending_file,
                            )
                            still_dirty_artifacts.remove(file)
                        elif file in dirtied_artifacts:
                            logger.debug("Reused {} in {}", file, pending_file)
                        else:
                            logger.debug("Reused {} for {}", file, pending_file)
'''
WAIT = '''        files_to_rebuild = [
            file for file in files_to_rebuild if file not in deleted_files
        ]
'''
NEWOUT = '''            new_outputs: List[str] = None
            if file in updated_results:
                updated_result = updated_results[file]
                new_outputs = updated_result.produced + updated_result.reused
            elif file in old_output_graph:
                new_outputs = old_output_graph.get_children(file)
            else:
                new_outputs = []
'''
REMART = '''        for file in still_dirty_artifacts:
            logger.debug("Cleaning {}", file)
            os.unlink(os.path.join(context.folder, file))
'''
CASES = [
    ("bug", "no co-producers", [(H, CO, "")]),
    ("bug", "co-producers of outputs only", [(H, CO, CO.replace("                    for par", "                    if child.startswith('artifacts'):\n                        continue\n                    for par"))]),
    ("bug", "co-producers not followed", [(H, CO, CO.replace("                            stack.append(par)\n", ""))]),
    ("bug", "first co-producer only", [(H, CO, CO + "                            break\n")]),
    ("bug", "co-producers of deleted files only", [(H, CO, CO.replace("                    for par", "                    if file not in deleted_files:\n                        continue\n                    for par"))]),
    ("bug", "dependents instead of producers", [(H, CO, CO.replace("old_output_graph.get_parents(child)", "old_dependency_graph.get_parents(file)"))]),
    ("bug", "artifacts removed although reused", [(H, REUSED, REUSED.replace("                            still_dirty_artifacts.remove(file)\n", ""))]),
    ("bug", "reused not looked at", [(H, REUSED, "")]),
    ("bug", "produced only for a builder with children", [(H, PROD, PROD.replace("in rebuild_result.produced:", "in (rebuild_result.produced if rebuild_result.children else []):"))]),
    ("bug", "all dirtied artifacts removed", [(H, REMART, REMART.replace("still_dirty_artifacts", "dirtied_artifacts"))]),
    ("bug", "reused not recorded", [(H, NEWOUT, NEWOUT.replace(" + updated_result.reused", ""))]),
    ("bug", "outputs of unbuilt files lost", [(H, NEWOUT, NEWOUT.replace("            elif file in old_output_graph:\n                new_outputs = old_output_graph.get_children(file)\n", ""))]),
    ("bug", "only changed files rebuilt", [(H, WAIT, WAIT.replace("if file not in deleted_files", "if file in updated_children"))]),
    ("bug", "artifacts collected after the worklist", [(H, CLOSE, CLOSE.replace("                        dirtied_artifacts.add(child)\n", "                        dirtied_artifacts.add(child)\n                        continue\n"))]),
    ("bug", "outputs forgotten", [(H, "            if not new_output_graph.get_parents(node):\n                new_output_graph.remove_file(node)\n", "            new_output_graph.remove_file(node)\n")]),
    ("bug", "removed while closing", [(H, "                        dirtied_outputs.add(child)\n\n", "                        dirtied_outputs.add(child)\n                        if file in deleted_files and os.path.exists(os.path.join(context.folder, child)):\n                            os.unlink(os.path.join(context.folder, child))\n                            continue\n\n")]),
    ("same", "co-producers by a closure", [(H, CO, "                    rebuild_producers(child)\n"), (H, "        while stack:\n            file = stack.pop()\n", '''        def rebuild_producers(output):
            for par in old_output_graph.get_parents(output):
                if par in files_to_rebuild:
                    continue
                files_to_rebuild.add(par)
                stack.append(par)

        while stack:
            file = stack.pop()
''')]),
    ("same", "co-producers first", [(H, CLOSE, '''            if file in old_output_graph:
                for child in old_output_graph.get_children(file):
                    for par in old_output_graph.get_parents(child):
                        if par not in files_to_rebuild:
                            stack.append(par)
                            files_to_rebuild.add(par)
                    target = dirtied_artifacts if child.startswith("artifacts") else dirtied_outputs
                    target.add(child)
''')]),
    ("same", "co-producers in a second loop", [(H, CO, "                for child in old_output_graph.get_children(file):\n" + CO)]),
    ("same", "queue instead of a stack", [(H, "            file = stack.pop()\n", "            file = stack.pop(0)\n")]),
    ("same", "produced and reused in bulk", [(H, PROD + REUSED, '''                    still_dirty_outputs.difference_update(rebuild_result.produced)
                    still_dirty_artifacts.difference_update(rebuild_result.produced)
                    still_dirty_outputs.difference_update(rebuild_result.reused)
                    still_dirty_artifacts.difference_update(rebuild_result.reused)
''')]),
    ("same", "one loop", [(H, PROD + REUSED, '''                    for file in rebuild_result.produced + rebuild_result.reused:
                        still_dirty_outputs.discard(file)
                        still_dirty_artifacts.discard(file)
''')]),
    ("same", "needed files collected", [(H, PROD + REUSED, '''                    needed.update(rebuild_result.produced)
                    needed.update(rebuild_result.reused)
'''), (H, "        still_dirty_outputs = set(dirtied_outputs)\n        still_dirty_artifacts = set(dirtied_artifacts)\n", "        needed = set()\n"), (H, REMART, '''        for file in dirtied_artifacts:
            if file in needed:
                continue
            logger.debug("Cleaning {}", file)
            os.unlink(os.path.join(context.folder, file))
''')]),
    ("same", "recorded with get", [(H, NEWOUT, '''            updated_result = updated_results.get(file)
            if updated_result is not None:
                new_outputs = list(updated_result.produced)
                new_outputs.extend(updated_result.reused)
            else:
                new_outputs = old_output_graph.get_children(file) if file in old_output_graph else []
''')]),
    ("same", "waiting files in a loop", [(H, WAIT, '''        waiting_files = []
        for file in files_to_rebuild:
            if file in deleted_files:
                continue
            waiting_files.append(file)
        files_to_rebuild = waiting_files
''')]),
    ("same", "sorted artifacts", [(H, REMART, REMART.replace("in still_dirty_artifacts:", "in sorted(still_dirty_artifacts):"))]),
    ("same", "difference", [(H, WAIT, "        files_to_rebuild = list(files_to_rebuild.difference(deleted_files))\n")]),
("bug","folder of artifacts removed as a whole",[(H,"""            if not has_any_contents:
                logger.debug("Cleaning empty folder {}", folder_relpath)
                os.rmdir(folder)""","""            if not has_any_contents or folder_relpath.startswith("artifacts"):
                logger.debug("Cleaning empty folder {}", folder_relpath)
                shutil.rmtree(folder)"""),(H,"import asyncio","import asyncio\nimport shutil")]),
("same","empty folder removed as a tree",[(H,"""            if not has_any_contents:
                logger.debug("Cleaning empty folder {}", folder_relpath)
                os.rmdir(folder)""","""            if has_any_contents:
                continue
            logger.debug("Cleaning empty folder {}", folder_relpath)
            shutil.rmtree(folder)"""),(H,"import asyncio","import asyncio\nimport shutil")]),
("same","empty folder listed",[(H,"""            scandir_iter = os.scandir(folder)
            has_any_contents = next(scandir_iter, None) is not None
            scandir_iter.close()
            if not has_any_contents:
                logger.debug("Cleaning empty folder {}", folder_relpath)
                os.rmdir(folder)""","""            if not os.listdir(folder):
                logger.debug("Cleaning empty folder {}", folder_relpath)
                shutil.rmtree(folder)"""),(H,"import asyncio","import asyncio\nimport shutil")]),
]

GATHER = ('            if file in old_dependency_graph:\n                for par in old_dependency_graph.get_parents(file):\n                    if par not in files_to_rebuild:\n                        files_to_rebuild.add(par)\n                        stack.append(par)\n\n            if file in old_placeholders_graph:\n                for par in old_placeholders_graph.get_parents(file):\n                    if par not in files_to_rebuild:\n                        files_to_rebuild.add(par)\n                        stack.append(par)\n\n            if file in old_output_graph:\n                for child in old_output_graph.get_children(file):\n                    if child.startswith("artifacts"):\n                        dirtied_artifacts.add(child)\n                    else:\n                        dirtied_outputs.add(child)\n\n                    # this output might be cleaned, so everything else which\n                    # needs it has to produce it again\n                    for par in old_output_graph.get_parents(child):\n                        if par not in files_to_rebuild:\n                            files_to_rebuild.add(par)\n                            stack.append(par)\n', '            affected: Set[str] = set()\n            for graph in (old_dependency_graph, old_placeholders_graph):\n                if file in graph:\n                    affected.update(graph.get_parents(file))\n\n            if file in old_output_graph:\n                for child in old_output_graph.get_children(file):\n                    target = (\n                        dirtied_artifacts\n                        if child.startswith("artifacts")\n                        else dirtied_outputs\n                    )\n                    target.add(child)\n                    affected.update(old_output_graph.get_parents(child))\n\n            for par in affected - files_to_rebuild:\n                files_to_rebuild.add(par)\n                stack.append(par)\n')
CASES += [
("same","producers gathered in a set",[("build/hot_incremental_rebuild.py",GATHER[0],GATHER[1])]),
("bug","only the producers of outputs are gathered",[("build/hot_incremental_rebuild.py",GATHER[0],GATHER[1].replace("""                    affected.update(old_output_graph.get_parents(child))
""","""                    if target is dirtied_outputs:
                        affected.update(old_output_graph.get_parents(child))
"""))]),
("bug","gathered producers are not looked at",[("build/hot_incremental_rebuild.py",GATHER[0],GATHER[1].replace("""                files_to_rebuild.add(par)
                stack.append(par)
""","""                files_to_rebuild.add(par)
"""))]),
("bug","producers of the last output only",[("build/hot_incremental_rebuild.py",GATHER[0],GATHER[1].replace("""                    affected.update(old_output_graph.get_parents(child))
""","""                    affected = set(old_output_graph.get_parents(child))
"""))]),
("bug","gathered producers without those which are cleaned",[("build/hot_incremental_rebuild.py",GATHER[0],GATHER[1].replace("affected - files_to_rebuild","affected - files_to_rebuild - set(updated_children)"))]) if False else
("bug","gathered producers only for changed files",[("build/hot_incremental_rebuild.py",GATHER[0],GATHER[1].replace("            for par in affected - files_to_rebuild:","            for par in affected - files_to_rebuild if file in updated_children else ():"))]),
]
