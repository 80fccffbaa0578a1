H = "build/hot_incremental_rebuild.py"
C = "build/cold_incremental_rebuild.py"
BR = "runners/build.py"
WHILE = "        while files_to_rebuild or pending_results:\n"
SCANTAKE = "            additional_children: Dict[str, ScanFileResult] = await scan_files(\n                context, executor, files_that_need_scanning\n            )\n"
TAKE = "                    rebuild_result: BuildFileResult = future.result()\n"
SD = '''        with open(context.dependency_graph_file, "w") as fp:
            new_dependency_graph.store(fp)
'''
SO = '''        with open(context.output_graph_file, "w") as fp:
            new_output_graph.store(fp)
'''
SP = '''        with open(context.placeholder_graph_file, "w") as fp:
            new_placeholder_graph.store(fp)
'''
REMART = '''        for file in still_dirty_artifacts:
            logger.debug("Cleaning {}", file)
            os.unlink(os.path.join(context.folder, file))
'''
SUBMIT = '''                files_to_rebuild.remove(file)
                concurrency_future_result = executor.submit(build_file, context, file)
                pending_results[file] = asyncio.wrap_future(concurrency_future_result)
'''
RAISE = '''                raise CyclicDependencyException(
                    "No files to rebuild. This is likely due to a cyclic "
                    "dependency in the project. In particular, we did not find any "
                    "buildable files in the following files: {}".format(
                        ", ".join(files_to_rebuild)
                    )
                )
'''
DIRTY = '''        for file in dirtied_outputs:
            logger.debug("Cleaning {}", file)
'''
HOTCALL = """    await hot_incremental_rebuild(
        context,
        old_dependency_graph,
        old_output_graph,
        old_placeholders_graph,
        relpaths_changed,
        relpaths_added,
        relpaths_deleted,
    )
"""
CASES = [
    ("bug", "loop ends when nothing waits, results not taken", [(H, WHILE, "        while files_to_rebuild:\n")]),
    ("bug", "failed builds logged only", [(H, TAKE, '''                    if future.exception() is not None:
                        logger.error("{} failed", pending_file)
                        del pending_results[pending_file]
                        continue
                    rebuild_result: BuildFileResult = future.result()
''')]),
    ("bug", "failed builds caught", [(H, TAKE, '''                    try:
                        rebuild_result: BuildFileResult = future.result()
                    except Exception:
                        logger.exception("{} failed", pending_file)
                        del pending_results[pending_file]
                        continue
''')]),
    ("bug", "cycle only logged", [(H, RAISE, "                break\n")]),
    ("bug", "graphs stored before the loop", [(H, WHILE, SD + "\n" + WHILE)]),
    ("bug", "output graph stored before artifacts are removed", [(H, REMART, SP.replace("new_placeholder", "old_placeholders") + REMART)]),
    ("bug", "artifacts removed after storing", [(H, REMART, ""), (H, SP, SP + "\n" + REMART)]),
    ("bug", "artifacts not removed", [(H, REMART, "")]),
    ("bug", "only some artifacts removed", [(H, REMART, REMART.replace('            os.unlink', '            if file.endswith(".png"):\n                continue\n            os.unlink'))]),
    ("bug", "placeholder graph not stored", [(H, SP, "")]),
    ("bug", "graph stored only when something is there", [(H, SP, "        if new_placeholders:\n" + SP.replace("\n", "\n    ").rstrip() .replace("        with", "            with", 1) + "\n")]),
    ("bug", "graphs swapped", [(H, "            new_output_graph.store(fp)", "            new_dependency_graph.store(fp)")]),
    ("bug", "cold rebuild logs failures", [(C, HOTCALL, "    try:\n" + HOTCALL.replace("    ", "        ", 1) + "    except Exception:\n        logger.exception('rebuild failed')\n")]),
    ("bug", "command does not look at the outcome", [(BR, """        loop.run_until_complete(
            cold_incremental_rebuild(
                context, old_dependency_graph, old_output_graph, old_placeholders_graph
            )
        )
""", """        loop.create_task(
            cold_incremental_rebuild(
                context, old_dependency_graph, old_output_graph, old_placeholders_graph
            )
        )
""")]),
    ("bug", "command catches", [(BR, "    finally:\n        asyncio.set_event_loop(None)\n", "    except Exception:\n        logger.exception('build failed')\n    finally:\n        asyncio.set_event_loop(None)\n")]),
    ("same", "command exits with a status", [(BR, "    finally:\n        asyncio.set_event_loop(None)\n", "    except Exception:\n        logger.exception('build failed')\n        sys.exit(1)\n    finally:\n        asyncio.set_event_loop(None)\n")]),
    ("same", "cold rebuild logs and reraises", [(C, HOTCALL, "    try:\n" + HOTCALL.replace("    ", "        ", 1) + "    except Exception:\n        logger.exception('rebuild failed')\n        raise\n")]),
    ("bug", "graph removed up front", [(H, DIRTY, '        os.unlink(context.output_graph_file)\n' + DIRTY)]),
    ("bug", "wait only for the first time", [(H, WHILE, "        while files_to_rebuild or (pending_results and not updated_results):\n")]),
    ("bug", "files leave without being built", [(H, "                if not all_outputs_not_pending:\n                    continue\n", "                if not all_outputs_not_pending:\n                    files_to_rebuild.remove(file)\n                    break\n")]),
    ("bug", "scan failures passed over", [(H, SCANTAKE, "            try:\n                additional_children: Dict[str, ScanFileResult] = await scan_files(\n                    context, executor, files_that_need_scanning\n                )\n            except Exception:\n                logger.exception('scan failed')\n                additional_children = {}\n")]),
    ("bug", "built children ignored on shutdown", [(H, "            for pending_file in list(pending_results.keys()):\n                future = pending_results[pending_file]\n", "            for pending_file in list(pending_results.keys()):\n                future = pending_results[pending_file]\n                if future.cancelled():\n                    del pending_results[pending_file]\n                    continue\n")]),
    ("same", "graphs stored by a helper", [(H, SD + "\n" + SO + "\n" + SP, '''        for graph, path in (
            (new_dependency_graph, context.dependency_graph_file),
            (new_output_graph, context.output_graph_file),
            (new_placeholder_graph, context.placeholder_graph_file),
        ):
            with open(path, "w") as fp:
                graph.store(fp)
''')]),
    ("same", "order of the stores", [(H, SD + "\n" + SO, SO + "\n" + SD)]),
    ("same", "graphs stored by a function", [(H, SD + "\n" + SO + "\n" + SP, '''        _store(context.dependency_graph_file, new_dependency_graph)
        _store(context.output_graph_file, new_output_graph)
        _store(context.placeholder_graph_file, new_placeholder_graph)
'''), (H, "async def scan_files(", '''def _store(path, graph):
    with open(path, "w") as fp:
        graph.store(fp)


async def scan_files(''')]),
    ("same", "pop instead of del", [(H, "                    del pending_results[pending_file]\n", "                    pending_results.pop(pending_file)\n")]),
    ("same", "early continue", [(H, '''                if future.done():
                    logger.debug("Finished rebuilding {}", pending_file)
''', '''                if not future.done():
                    continue
                if True:
                    logger.debug("Finished rebuilding {}", pending_file)
''')]),
    ("same", "while true loop", [(H, WHILE, "        while True:\n            if not files_to_rebuild and not pending_results:\n                break\n")]),
    ("same", "len comparison", [(H, WHILE, "        while len(files_to_rebuild) > 0 or len(pending_results) > 0:\n")]),
    ("same", "items copy", [(H, '''            for pending_file in list(pending_results.keys()):
                future = pending_results[pending_file]
''', '''            for pending_file, future in list(pending_results.items()):
''')]),
    ("same", "submit helper", [(H, SUBMIT, '''                files_to_rebuild.remove(file)
                pending_results[file] = _submit(executor, context, file)
'''), (H, "async def scan_files(", '''def _submit(executor, context, file):
    return asyncio.wrap_future(executor.submit(build_file, context, file))


async def scan_files(''')]),
    ("same", "waiting files rebuilt as list", [(H, SUBMIT, SUBMIT.replace("                files_to_rebuild.remove(file)\n", "")), (H, '''            for file in rebuildable_files:
                logger.debug("Queueing''', '''            files_to_rebuild = [
                file for file in files_to_rebuild if file not in rebuildable_files
            ]
            for file in rebuildable_files:
                logger.debug("Queueing''')]),
    ("same", "artifact removal tolerates missing", [(H, REMART, REMART.replace("            os.unlink(os.path.join(context.folder, file))", "            try:\n                os.unlink(os.path.join(context.folder, file))\n            except FileNotFoundError:\n                pass"))]),
    ("same", "artifacts removed by a helper", [(H, REMART, "        _clean(context, still_dirty_artifacts)\n"), (H, "async def scan_files(", '''def _clean(context, files):
    for file in sorted(files):
        logger.debug("Cleaning {}", file)
        os.unlink(os.path.join(context.folder, file))


async def scan_files(''')]),
    ("same", "error wrapped", [(H, TAKE, '''                    try:
                        rebuild_result: BuildFileResult = future.result()
                    except Exception:
                        logger.error("failed to build {}", pending_file)
                        raise
''')]),
]
