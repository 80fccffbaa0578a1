J = "build/handlers/js_constants.py"
H = "build/hot_incremental_rebuild.py"
BF = "build/build_file.py"
UPD = '''        constants = context.js_constants.shared.copy()
        if context.dev:
            constants.update(context.js_constants.dev)
        else:
            constants.update(context.js_constants.prod)
'''
REC = '''        if new_constants_mode is not None:
            with open(
                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
            ) as f:
                f.write(new_constants_mode)

'''
INV = '''            new_constants_mode = current_mode
            try:
                os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
            except FileNotFoundError:
                pass
'''
PUT = '''            if (context.js_constants.relpath not in changed_files) and (
                context.js_constants.relpath not in added_files
            ):
                logger.debug(
                    f"Marking {context.js_constants.relpath} changed due to new mode {current_mode} (was {old_constants_mode})"
                )
                changed_files[context.js_constants.relpath] = get_file_signature(
                    os.path.join(context.folder, context.js_constants.relpath)
                )
'''
READ = '''        try:
            with open(
                os.path.join(context.out_folder, "js_constants_mode.txt"), "r"
            ) as f:
                old_constants_mode = f.read()
        except FileNotFoundError:
            pass
'''
STORE = '''        with open(context.placeholder_graph_file, "w") as fp:
            new_placeholder_graph.store(fp)

'''
CASES = [
    ("bug", "modes swapped", [(J, "if context.dev:", "if not context.dev:")]),
    ("bug", "prod always", [(J, "        else:\n            constants.update(context.js_constants.prod)\n", "        constants.update(context.js_constants.prod)\n"), (J, "        if context.dev:\n            constants.update(context.js_constants.dev)\n", "")]),
    ("bug", "prod on top of dev", [(J, "        else:\n            constants.update(context.js_constants.prod)\n", "        constants.update(context.js_constants.prod)\n")]),
    ("bug", "shared on top", [(J, UPD, "        constants = (context.js_constants.dev if context.dev else context.js_constants.prod).copy()\n        constants.update(context.js_constants.shared)\n")]),
    ("bug", "shared on top dict", [(J, UPD, "        mode = context.js_constants.dev if context.dev else context.js_constants.prod\n        constants = {**mode, **context.js_constants.shared}\n")]),
    ("bug", "shared on top union", [(J, UPD, "        mode = context.js_constants.dev if context.dev else context.js_constants.prod\n        constants = mode | context.js_constants.shared\n")]),
    ("bug", "setdefault mode", [(J, UPD, "        mode = context.js_constants.dev if context.dev else context.js_constants.prod\n        constants = dict(context.js_constants.shared)\n        for k, v in mode.items():\n            constants.setdefault(k, v)\n")]),
    ("bug", "mode only new names", [(J, UPD, "        mode = context.js_constants.dev if context.dev else context.js_constants.prod\n        constants = dict(context.js_constants.shared)\n        for k, v in mode.items():\n            if k not in constants:\n                constants[k] = v\n")]),
    ("bug", "no shared", [(J, "constants = context.js_constants.shared.copy()", "constants = dict()")]),
    ("bug", "no dev", [(J, "        if context.dev:\n            constants.update(context.js_constants.dev)\n        else:\n", "        if not context.dev:\n")]),
    ("bug", "mode only without shared", [(J, "        if context.dev:\n            constants.update(context.js_constants.dev)\n", "        if context.dev and not constants:\n            constants.update(context.js_constants.dev)\n        elif context.dev:\n            pass\n")]),
    ("bug", "builds by js", [(BF, "    if relpath == build_context.js_constants.relpath:", '    if relpath == build_context.js_constants.relpath and not relpath.endswith(".js"):')]),
    ("bug", "builds after js", [(BF, "    if relpath == build_context.js_constants.relpath:", "    if relpath == build_context.out_folder:")]),
    ("bug", "recorded first", [(H, REC, ""), (H, INV, '            os.makedirs(context.out_folder, exist_ok=True)\n            with open(\n                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"\n            ) as f:\n                f.write(current_mode)\n')]),
    ("bug", "never recorded", [(H, REC, "")]),
    ("bug", "not invalidated", [(H, INV, "            new_constants_mode = current_mode\n")]),
    ("bug", "recorded before graphs", [(H, REC, ""), (H, STORE, REC + STORE)]),
    ("bug", "recorded before builds", [(H, REC, ""), (H, "        while files_to_rebuild or pending_results:\n", REC + "        while files_to_rebuild or pending_results:\n")]),
    ("bug", "recorded swapped", [(H, '= "dev" if context.dev else "prod"', '= "prod" if context.dev else "prod"')]),
    ("bug", "other word recorded", [(H, "f.write(new_constants_mode)", 'f.write("development" if context.dev else "production")')]),
    ("bug", "only when recorded before", [(H, "        if old_constants_mode != current_mode:", "        if old_constants_mode is not None and old_constants_mode != current_mode:")]),
    ("bug", "only to prod", [(H, "        if old_constants_mode != current_mode:", '        if old_constants_mode != current_mode and not context.dev:')]),
    ("bug", "not scheduled", [(H, PUT, "")]),
    ("bug", "after nothing to do", [(H, "    if not changed_files and not added_files and not deleted_files:\n        logger.info(\"Nothing to do, exiting\")\n        return\n\n", ""), (H, "    new_constants_mode: Optional", "    if not changed_files and not added_files and not deleted_files:\n        logger.info(\"Nothing to do, exiting\")\n        return\n\n    new_constants_mode: Optional")]),
    ("bug", "only with other changes", [(H, "            if (context.js_constants.relpath not in changed_files) and (", "            if changed_files and (context.js_constants.relpath not in changed_files) and (")]),
    ("bug", "only when dependency", [(H, "            if (context.js_constants.relpath not in changed_files) and (", "            if context.js_constants.relpath in old_dependency_graph and old_dependency_graph.get_parents(context.js_constants.relpath) and (context.js_constants.relpath not in changed_files) and (")]),
    ("bug", "record lost by flag", [(H, "            new_constants_mode = current_mode\n", "            if old_constants_mode is not None:\n                new_constants_mode = current_mode\n")]),
    ("same", "mode first", [(J, UPD, "        mode = context.js_constants.dev if context.dev else context.js_constants.prod\n        constants = {**context.js_constants.shared, **mode}\n")]),
    ("same", "dict", [(J, UPD, "        constants = dict(context.js_constants.shared)\n        mode = context.js_constants.dev if context.dev else context.js_constants.prod\n        for k, v in mode.items():\n            constants[k] = v\n")]),
    ("same", "union", [(J, UPD, "        mode = context.js_constants.dev if context.dev else context.js_constants.prod\n        constants = context.js_constants.shared | mode\n")]),
    ("same", "defaults", [(J, UPD, "        constants = (context.js_constants.dev if context.dev else context.js_constants.prod).copy()\n        for k, v in context.js_constants.shared.items():\n            if k not in constants:\n                constants[k] = v\n")]),
    ("same", "setdefault shared", [(J, UPD, "        constants = (context.js_constants.dev if context.dev else context.js_constants.prod).copy()\n        for k, v in context.js_constants.shared.items():\n            constants.setdefault(k, v)\n")]),
    ("same", "helper", [(J, UPD, "        constants = mode_constants(context)\n"), (J, "def jsify", "def mode_constants(context):\n    result = dict()\n    result.update(context.js_constants.shared)\n    if not context.dev:\n        result.update(context.js_constants.prod)\n        return result\n    result.update(context.js_constants.dev)\n    return result\n\n\ndef jsify")]),
    ("same", "loop of sources", [(J, UPD, "        constants = dict()\n        for source in (context.js_constants.shared, context.js_constants.dev if context.dev else context.js_constants.prod):\n            constants.update(source)\n")]),
    ("same", "joined", [(J, '            for key, value in constants.items():\n                f.write(f"export const {key} = {jsify(value)};\\n")', '            f.write("".join(f"export const {key} = {jsify(value)};\\n" for key, value in constants.items()))')]),
    ("same", "record helper", [(H, REC, "        if new_constants_mode is not None:\n            write_mode(context, new_constants_mode)\n\n"), (H, "async def scan_files", 'def write_mode(context, mode):\n    with open(os.path.join(context.out_folder, "js_constants_mode.txt"), "w") as f:\n        f.write(mode)\n\n\nasync def scan_files')]),
    ("same", "read helper", [(H, "        old_constants_mode = None\n" + READ, "        old_constants_mode = read_mode(context)\n"), (H, "async def scan_files", 'def read_mode(context):\n    try:\n        with open(os.path.join(context.out_folder, "js_constants_mode.txt")) as f:\n            return f.read()\n    except FileNotFoundError:\n        return None\n\n\nasync def scan_files')]),
    ("same", "flag", [(H, "            new_constants_mode = current_mode\n", "            mode_changed = True\n"), (H, "    new_constants_mode: Optional[Literal[\"dev\", \"prod\"]] = None\n", "    mode_changed = False\n"), (H, "        if new_constants_mode is not None:", "        if mode_changed:"), (H, "f.write(new_constants_mode)", "f.write(current_mode)")]),
    ("same", "path variable", [(H, "    new_constants_mode: Optional", '    mode_path = os.path.join(context.out_folder, "js_constants_mode.txt")\n    new_constants_mode: Optional'), (H, 'os.path.join(context.out_folder, "js_constants_mode.txt")', "mode_path", 1), (H, '    mode_path = mode_path\n', '    mode_path = os.path.join(context.out_folder, "js_constants_mode.txt")\n')]),
    ("same", "early equal", [(H, "        if old_constants_mode != current_mode:\n", "        if old_constants_mode == current_mode:\n            pass\n        else:\n")]),
    ("same", "exists test", [(H, READ, '        if os.path.exists(os.path.join(context.out_folder, "js_constants_mode.txt")):\n            with open(\n                os.path.join(context.out_folder, "js_constants_mode.txt"), "r"\n            ) as f:\n                old_constants_mode = f.read()\n')]),
    ("same", "put nested", [(H, "            if (context.js_constants.relpath not in changed_files) and (\n                context.js_constants.relpath not in added_files\n            ):\n", "            scheduled = (\n                context.js_constants.relpath in changed_files\n                or context.js_constants.relpath in added_files\n            )\n            if not scheduled:\n")]),
    ("same", "always put", [(H, PUT, PUT.replace("(context.js_constants.relpath not in changed_files) and (\n                context.js_constants.relpath not in added_files\n            )", "context.js_constants.relpath not in added_files"))]),
    ("same", "dispatch order", [(BF, "    if relpath == build_context.js_constants.relpath:\n", "    constants_file = build_context.js_constants.relpath\n    if constants_file == relpath:\n")]),
    ("same", "counted", [(H, "    if not changed_files and not added_files and not deleted_files:", "    if len(changed_files) + len(added_files) + len(deleted_files) == 0:")]),
]

CASES += [("same", 'r7: hot mode helper', [('build/hot_incremental_rebuild.py', '        old_constants_mode = None\n        try:\n            with open(\n                os.path.join(context.out_folder, "js_constants_mode.txt"), "r"\n            ) as f:\n                old_constants_mode = f.read()\n        except FileNotFoundError:\n            pass\n', '        old_constants_mode = read_mode(context)\n'), ('build/hot_incremental_rebuild.py', 'async def hot_incremental_rebuild(', 'def read_mode(context: BuildContext) -> Optional[str]:\n    path = os.path.join(context.out_folder, "js_constants_mode.txt")\n    if not os.path.exists(path):\n        return None\n    with open(path, "r") as f:\n        return f.read()\n\n\nasync def hot_incremental_rebuild('), ('build/hot_incremental_rebuild.py', '            new_constants_mode = current_mode\n            try:\n                os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))\n            except FileNotFoundError:\n                pass\n    else:\n        try:\n            os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))\n        except FileNotFoundError:\n            pass\n', '            new_constants_mode = current_mode\n            forget_mode(context)\n    else:\n        forget_mode(context)\n'), ('build/hot_incremental_rebuild.py', 'def read_mode(', 'def forget_mode(context: BuildContext) -> None:\n    try:\n        os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))\n    except FileNotFoundError:\n        pass\n\n\ndef read_mode(')])]

DISPATCH = [('build/build_file.py', '    if relpath == build_context.js_constants.relpath:\n        return vanillaplusjs.build.handlers.js_constants.build_file(\n            build_context, relpath\n        )\n    if vanillaplusjs.build.handlers.image_glue.handles_file(build_context, relpath):\n        return vanillaplusjs.build.handlers.image_glue.build_file(\n            build_context, relpath\n        )\n    if relpath.endswith(".html"):\n        return vanillaplusjs.build.handlers.html.build_file(build_context, relpath)\n    elif relpath.endswith(".css"):\n        return vanillaplusjs.build.handlers.css.build_file(build_context, relpath)\n    elif relpath.endswith(".js"):\n        return vanillaplusjs.build.handlers.js.build_file(build_context, relpath)\n    return vanillaplusjs.build.handlers.copy_and_hash.build_file(build_context, relpath)', '    return handler_for(build_context, relpath).build_file(build_context, relpath)\n\n\ndef handler_for(context: "BuildContext", relpath: str):\n    """The module which handles the given file"""\n    handlers = vanillaplusjs.build.handlers\n    if relpath == context.js_constants.relpath:\n        return handlers.js_constants\n    if handlers.image_glue.handles_file(context, relpath):\n        return handlers.image_glue\n    extension = os.path.splitext(relpath)[1]\n    if extension == ".html":\n        return handlers.html\n    if extension == ".css":\n        return handlers.css\n    if extension == ".js":\n        return handlers.js\n    return handlers.copy_and_hash'), ('build/build_file.py', 'import time', 'import os\nimport time')]
SCANS = [('build/scan_file.py', '    if relpath == context.js_constants.relpath:\n        return vanillaplusjs.build.handlers.js_constants.scan_file(context, relpath)\n    if vanillaplusjs.build.handlers.image_glue.handles_file(context, relpath):\n        return vanillaplusjs.build.handlers.image_glue.scan_file(context, relpath)\n    if relpath.endswith(".html"):\n        return vanillaplusjs.build.handlers.html.scan_file(context, relpath)\n    elif relpath.endswith(".css"):\n        return vanillaplusjs.build.handlers.css.scan_file(context, relpath)\n    elif relpath.endswith(".js"):\n        return vanillaplusjs.build.handlers.js.scan_file(context, relpath)\n    return vanillaplusjs.build.handlers.copy_and_hash.scan_file(context, relpath)', '    if relpath == context.js_constants.relpath:\n        handler = vanillaplusjs.build.handlers.js_constants\n    elif vanillaplusjs.build.handlers.image_glue.handles_file(context, relpath):\n        handler = vanillaplusjs.build.handlers.image_glue\n    elif relpath.endswith(".html"):\n        handler = vanillaplusjs.build.handlers.html\n    elif relpath.endswith(".css"):\n        handler = vanillaplusjs.build.handlers.css\n    elif relpath.endswith(".js"):\n        handler = vanillaplusjs.build.handlers.js\n    else:\n        handler = vanillaplusjs.build.handlers.copy_and_hash\n    return handler.scan_file(context, relpath)')]
CASES += [
("same","the handler is chosen by a helper",DISPATCH),
("same","the handler is chosen in a variable",SCANS),
("bug","the script handler is chosen before the constants file is looked at",[(DISPATCH[0][0],DISPATCH[0][1],DISPATCH[0][2].replace("""    if relpath == context.js_constants.relpath:
        return handlers.js_constants
""","").replace("""    return handlers.copy_and_hash""","""    if relpath == context.js_constants.relpath:
        return handlers.js_constants
    return handlers.copy_and_hash""")),DISPATCH[1]]),
("bug","the choice of the constants' handler is overwritten",[(SCANS[0][0],SCANS[0][1],SCANS[0][2].replace("    elif vanilla","    if vanilla"))]),
("same","the constants file's handler is chosen last",[(SCANS[0][0],SCANS[0][1],SCANS[0][2].replace("""    if relpath == context.js_constants.relpath:
        handler = vanillaplusjs.build.handlers.js_constants
    elif vanilla""","    if vanilla").replace("""    return handler""","""    if relpath == context.js_constants.relpath:
        handler = vanillaplusjs.build.handlers.js_constants
    return handler"""))]),
]
