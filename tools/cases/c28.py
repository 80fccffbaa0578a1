H = "build/hot_incremental_rebuild.py"
DEP = '''                all_dependencies_built = True
                for child in file_depends_on:
                    if (
                        child not in updated_results
                        and child in original_files_to_rebuild
                    ):
                        logger.debug(
                            "Cannot rebuild {} until we have rebuilt {}",
                            file,
                            child,
                        )
                        all_dependencies_built = False
                        break

                if not all_dependencies_built:
                    continue
'''
OUT = '''                all_outputs_not_pending = True
                for output in file_creates:
                    if output in pending_outputs:
                        all_outputs_not_pending = False
                        logger.debug(
                            "Cannot rebuild {} while we are cleaning {}",
                            file,
                            output,
                        )

                if not all_outputs_not_pending:
                    continue
'''
ADD = '''                rebuildable_files.append(file)
                pending_outputs.update(file_creates)
'''
SUBMIT = '''            for file in rebuildable_files:
                logger.debug("Queueing {} to be rebuilt asynchronously", file)
                files_to_rebuild.remove(file)
'''
DIFF = "                    pending_outputs.difference_update(get_file_creates(pending_file))\n"
GDEP = '''            if file in updated_children:
                updated_result = updated_children[file]
                if file in new_placeholders:
                    return updated_result.dependencies + [new_placeholders[file]]
                if file in old_placeholders_graph:
                    return (
                        updated_result.dependencies
                        + old_placeholders_graph.get_parents(file)
                    )
                return updated_result.dependencies

            if file not in old_placeholders_graph:
                return old_dependency_graph.get_children(file)
            return old_dependency_graph.get_children(
                file
            ) + old_placeholders_graph.get_parents(file)
'''
GOUT = '''            if file in updated_children:
                updated_result = updated_children[file]
                return updated_result.produces
            if file in old_output_graph:
                return old_output_graph.get_children(file)
            return []
'''
STUCK = "            if not rebuildable_files and not pending_results:\n"
INIT = "            for file in files_to_rebuild:\n                file_depends_on"
CASES = [
    ("bug", "dependency flag reset", [(H, DEP, DEP.replace("                        break\n", "").replace("                        )\n                        all_dependencies_built = False\n", "                        )\n                        all_dependencies_built = False\n                    else:\n                        all_dependencies_built = True\n"))]),
    ("bug", "dependencies waiting only", [(H, "                        and child in original_files_to_rebuild\n", "                        and child in files_to_rebuild\n")]),
    ("bug", "no dependency check", [(H, DEP, "")]),
    ("bug", "wrong variable", [(H, "                        child not in updated_results\n", "                        file not in updated_results\n")]),
    ("bug", "or instead of and not", [(H, "                        and child in original_files_to_rebuild\n", "                        and child in original_files_to_rebuild\n                        and child not in pending_results\n")]),
    ("bug", "new placeholders ignored", [(H, "                if file in new_placeholders:\n                    return updated_result.dependencies + [new_placeholders[file]]\n", "")]),
    ("bug", "old generator ignored", [(H, '''            return old_dependency_graph.get_children(
                file
            ) + old_placeholders_graph.get_parents(file)
''', "            return old_dependency_graph.get_children(file)\n")]),
    ("bug", "old dependencies only", [(H, GDEP, "            if file in old_dependency_graph:\n                return old_dependency_graph.get_children(file) + old_placeholders_graph.get_parents(file)\n" + GDEP)]),
    ("bug", "parents instead of children", [(H, "                return old_dependency_graph.get_children(file)\n            return old", "                return old_dependency_graph.get_parents(file)\n            return old")]),
    ("bug", "output flag overwritten", [(H, '''                    if output in pending_outputs:
                        all_outputs_not_pending = False
''', '''                    all_outputs_not_pending = output not in pending_outputs
                    if not all_outputs_not_pending:
''')]),
    ("bug", "claims after the choice", [(H, "                pending_outputs.update(file_creates)\n", ""), (H, SUBMIT, SUBMIT + "                pending_outputs.update(get_file_creates(file))\n")]),
    ("bug", "claims cleared", [(H, DIFF, "                    pending_outputs.clear()\n")]),
    ("bug", "claims released up front", [(H, '                if future.done():\n                    logger.debug("Finished', '                pending_outputs.difference_update(get_file_creates(pending_file))\n                if future.done():\n                    logger.debug("Finished'), (H, DIFF, "")]),
    ("bug", "claims of old outputs only", [(H, "                pending_outputs.update(file_creates)\n", "                pending_outputs.update(old_output_graph.get_children(file))\n")]),
    ("bug", "outputs of the scan ignored", [(H, GOUT, GOUT[GOUT.index("            if file in old"):])]),
    ("bug", "only artifacts claimed", [(H, "                    if output in pending_outputs:\n", "                    if output.startswith('artifacts') and output in pending_outputs:\n")]),
    ("bug", "file keeps waiting", [(H, "                files_to_rebuild.remove(file)\n", "                if len(rebuildable_files) > 1:\n                    files_to_rebuild.remove(file)\n")]),
    ("bug", "file put back", [(H, DIFF, DIFF + "                    files_to_rebuild.extend(rebuild_result.reused)\n")]),
    ("bug", "stuck forever", [(H, STUCK, "            if not rebuildable_files and not pending_results:\n                await asyncio.sleep(0.1)\n                continue\n" + STUCK)]),
    ("bug", "counts as rebuilt when queued", [(H, SUBMIT, SUBMIT + "                updated_results[file] = None\n")]),
    ("bug", "first outputs only", [(H, "                for output in file_creates:\n", "                for output in file_creates[:1]:\n")]),
    ("bug", "deps only of changed files", [(H, "                for child in file_depends_on:\n", "                for child in file_depends_on if file in changed_files else []:\n")]),
    ("same", "dependencies with all()", [(H, DEP, '''                if not all(
                    child in updated_results or child not in original_files_to_rebuild
                    for child in file_depends_on
                ):
                    continue
''')]),
    ("same", "dependencies with any()", [(H, DEP, '''                if any(
                    child not in updated_results and child in original_files_to_rebuild
                    for child in file_depends_on
                ):
                    continue
''')]),
    ("same", "dependency helper", [(H, DEP, '''                if not _built(file_depends_on, updated_results, original_files_to_rebuild):
                    continue
'''), (H, "async def scan_files(", '''def _built(children, updated_results, original_files_to_rebuild):
    for child in children:
        if child in updated_results:
            continue
        if child in original_files_to_rebuild:
            return False
    return True


async def scan_files(''')]),
    ("same", "for else", [(H, DEP, '''                for child in file_depends_on:
                    if (
                        child not in updated_results
                        and child in original_files_to_rebuild
                    ):
                        break
                else:
                    child = None
                if child is not None and child not in updated_results and child in original_files_to_rebuild:
                    continue
''')]) if False else ("same", "missing dependencies collected", [(H, DEP, '''                missing = [
                    child
                    for child in file_depends_on
                    if child not in updated_results
                    and child in original_files_to_rebuild
                ]
                if missing:
                    continue
''')]),
    ("same", "outputs with any()", [(H, OUT, '''                if any(output in pending_outputs for output in file_creates):
                    continue
''')]),
    ("same", "outputs with isdisjoint", [(H, OUT, '''                if not pending_outputs.isdisjoint(file_creates):
                    continue
''')]),
    ("same", "outputs with intersection", [(H, OUT, '''                if pending_outputs.intersection(file_creates):
                    continue
''')]),
    ("same", "claims in a loop", [(H, "                pending_outputs.update(file_creates)\n", "                for output in file_creates:\n                    pending_outputs.add(output)\n")]),
    ("same", "augmented claims", [(H, "                pending_outputs.update(file_creates)\n", "                pending_outputs |= set(file_creates)\n")]),
    ("same", "readiness in a closure", [(H, DEP + "\n" + OUT, '''                if not ready(file):
                    continue
'''), (H, "        while files_to_rebuild or pending_results:\n", '''        def ready(file: str) -> bool:
            for child in get_file_depends_on(file):
                if child not in updated_results and child in original_files_to_rebuild:
                    return False
            for output in get_file_creates(file):
                if output in pending_outputs:
                    return False
            return True

        while files_to_rebuild or pending_results:
'''), (H, "                file_depends_on: List[str] = get_file_depends_on(file)\n", "")]),
    ("same", "sources rearranged", [(H, GDEP, '''            if file in updated_children:
                result = list(updated_children[file].dependencies)
            else:
                result = list(old_dependency_graph.get_children(file))
            if file in updated_children and file in new_placeholders:
                result.append(new_placeholders[file])
            elif file in old_placeholders_graph:
                result.extend(old_placeholders_graph.get_parents(file))
            return result
''')]),
    ("same", "get with default", [(H, GOUT, '''            scan = updated_children.get(file)
            if scan is not None:
                return scan.produces
            if file in old_output_graph:
                return old_output_graph.get_children(file)
            return []
''')]),
    ("same", "queue while choosing", [(H, ADD, ADD + "                pending_results[file] = asyncio.wrap_future(\n                    executor.submit(build_file, context, file)\n                )\n"), (H, '''                files_to_rebuild.remove(file)
                concurrency_future_result = executor.submit(build_file, context, file)
                pending_results[file] = asyncio.wrap_future(concurrency_future_result)
''', "                files_to_rebuild.remove(file)\n")]),
    ("same", "original as set", [(H, "frozenset(files_to_rebuild)", "set(files_to_rebuild)")]),
    ("same", "claims before appending", [(H, ADD, "                pending_outputs.update(file_creates)\n                rebuildable_files.append(file)\n")]),
    ("same", "iterate over a copy and submit at once", [(H, INIT, INIT.replace("in files_to_rebuild:", "in list(files_to_rebuild):")), (H, ADD, ADD + '''                files_to_rebuild.remove(file)
                pending_results[file] = asyncio.wrap_future(
                    executor.submit(build_file, context, file)
                )
'''), (H, SUBMIT + '''                concurrency_future_result = executor.submit(build_file, context, file)
                pending_results[file] = asyncio.wrap_future(concurrency_future_result)
''', "")]),
    ("same", "flag without break", [(H, DEP, DEP.replace("                        break\n", ""))]),
    ("same", "debug when stuck", [(H, STUCK, "            logger.debug('{} running', len(pending_results))\n" + STUCK)]),
    ("same", "stuck test with len", [(H, STUCK, "            if len(rebuildable_files) == 0 and len(pending_results) == 0:\n")]),
("bug","first use of an output is no dependency",[(H,"""                            new_dependencies.add(p)
                            break""","""                            break""")]),
("bug","self produced leaves all",[(H,"""                    new_dependencies.add(out_dependencies_mapping[dep_relpath])
                    continue
""","""                    if dep_relpath not in old_output_graph:
                        new_dependencies.add(out_dependencies_mapping[dep_relpath])
                    continue
""")]),
("same","mapped by a helper",[(H,"""                if dep_relpath in out_dependencies_mapping:
                    new_dependencies.add(out_dependencies_mapping[dep_relpath])
                    continue
""","""                producer = out_dependencies_mapping.get(dep_relpath)
                if producer is not None:
                    if producer != scanned_file_relpath:
                        new_dependencies.add(producer)
                    continue
""")]),
('same', 'hot resolve helper', [('build/hot_incremental_rebuild.py', '            for dep_relpath in scan_result.dependencies:\n                if not any(\n                    dep_relpath.startswith(prefix) for prefix in ("out", "artifacts")\n                ):\n                    new_dependencies.add(dep_relpath)\n                    continue\n\n                if dep_relpath in out_dependencies_mapping:\n                    new_dependencies.add(out_dependencies_mapping[dep_relpath])\n                    continue\n\n                if dep_relpath not in out_dependencies_mapping:\n                    if dep_relpath not in old_output_graph:\n                        raise ValueError(\n                            f"{scanned_file_relpath=} depends on {dep_relpath=}, but nothing produces that file!"\n                        )\n                    produced_by = old_output_graph.get_parents(dep_relpath)\n                    # take the first one which hasn\'t been deleted\n                    for p in produced_by:\n                        if p not in deleted_files:\n                            out_dependencies_mapping[dep_relpath] = p\n                            new_dependencies.add(p)\n                            break\n                    else:\n                        raise ValueError(\n                            f"{scanned_file_relpath=} depends on {dep_relpath=}, but all the files which produce that file have been deleted!"\n                        )\n', '            for dep_relpath in scan_result.dependencies:\n                if not dep_relpath.startswith(("out", "artifacts")):\n                    new_dependencies.add(dep_relpath)\n                    continue\n\n                producer = out_dependencies_mapping.get(dep_relpath)\n                if producer is None:\n                    producer = find_producer(\n                        scanned_file_relpath, dep_relpath, old_output_graph, deleted_files\n                    )\n                    out_dependencies_mapping[dep_relpath] = producer\n                new_dependencies.add(producer)\n'), ('build/hot_incremental_rebuild.py', 'async def hot_incremental_rebuild(', 'def find_producer(scanned_file_relpath, dep_relpath, old_output_graph, deleted_files):\n    if dep_relpath not in old_output_graph:\n        raise ValueError(\n            f"{scanned_file_relpath=} depends on {dep_relpath=}, but nothing produces that file!"\n        )\n    for candidate in old_output_graph.get_parents(dep_relpath):\n        if candidate not in deleted_files:\n            return candidate\n    raise ValueError(\n        f"{scanned_file_relpath=} depends on {dep_relpath=}, but all the files which produce that file have been deleted!"\n    )\n\n\nasync def hot_incremental_rebuild(')]),
]

CASES += [("same", 'r7: hot ready helper', [('build/hot_incremental_rebuild.py', '        while files_to_rebuild or pending_results:\n            rebuildable_files: List[str] = []\n            for file in files_to_rebuild:\n                file_depends_on: List[str] = get_file_depends_on(file)\n                file_creates: List[str] = get_file_creates(file)\n\n                all_dependencies_built = True\n                for child in file_depends_on:\n                    if (\n                        child not in updated_results\n                        and child in original_files_to_rebuild\n                    ):\n                        logger.debug(\n                            "Cannot rebuild {} until we have rebuilt {}",\n                            file,\n                            child,\n                        )\n                        all_dependencies_built = False\n                        break\n\n                if not all_dependencies_built:\n                    continue\n\n                all_outputs_not_pending = True\n                for output in file_creates:\n                    if output in pending_outputs:\n                        all_outputs_not_pending = False\n                        logger.debug(\n                            "Cannot rebuild {} while we are cleaning {}",\n                            file,\n                            output,\n                        )\n\n                if not all_outputs_not_pending:\n                    continue\n\n                rebuildable_files.append(file)\n                pending_outputs.update(file_creates)\n', '        def is_ready(file: str) -> bool:\n            for child in get_file_depends_on(file):\n                if child in original_files_to_rebuild and child not in updated_results:\n                    logger.debug(\n                        "Cannot rebuild {} until we have rebuilt {}", file, child\n                    )\n                    return False\n            if any(output in pending_outputs for output in get_file_creates(file)):\n                logger.debug("Cannot rebuild {} while we are cleaning", file)\n                return False\n            return True\n\n        while files_to_rebuild or pending_results:\n            rebuildable_files: List[str] = []\n            for file in files_to_rebuild:\n                if is_ready(file):\n                    rebuildable_files.append(file)\n                    for output in get_file_creates(file):\n                        pending_outputs.add(output)\n')])]

CASES += [("same", 'r7: hot settle', [('build/hot_incremental_rebuild.py', '                    for file in rebuild_result.produced:\n                        if file in still_dirty_outputs:\n                            logger.debug("Cleaned {} using {}", file, pending_file)\n                            still_dirty_outputs.remove(file)\n                        elif file in still_dirty_artifacts:\n                            logger.debug("Cleaned {} using {}", file, pending_file)\n                            still_dirty_artifacts.remove(file)\n                        elif file in dirtied_artifacts:\n                            logger.debug("Updated {} using {}", file, pending_file)\n                        else:\n                            logger.debug("Produced {} from {}", file, pending_file)\n                    for file in rebuild_result.reused:\n                        if file in still_dirty_outputs:\n                            logger.warning(\n                                "Reused {} despite being dirty; this is likely a bug",\n                                file,\n                            )\n                            still_dirty_outputs.remove(file)\n                        elif file in still_dirty_artifacts:\n                            logger.debug(\n                                "Determined {} is not dirty using {}",\n                                file,\n                                pending_file,\n                            )\n                            still_dirty_artifacts.remove(file)\n                        elif file in dirtied_artifacts:\n                            logger.debug("Reused {} in {}", file, pending_file)\n                        else:\n                            logger.debug("Reused {} for {}", file, pending_file)\n', '                    written = list(rebuild_result.produced) + list(\n                        rebuild_result.reused\n                    )\n                    still_dirty_outputs.difference_update(written)\n                    still_dirty_artifacts.difference_update(written)\n')])]
