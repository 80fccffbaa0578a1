F = "runners/clean.py"
CASES = [
    ("bug", "placeholders by default", [(F, 'placeholders: Optional[bool] = None\n', 'placeholders: Optional[bool] = not args.no_placeholders\n')]),
    ("bug", "no-placeholders asks for it", [(F, 'placeholders = False\n\n    if placeholders is None', 'placeholders = True\n\n    if placeholders is None')]),
    ("bug", "empty answer is yes", [(F, 'if choice == "y":', 'if choice in ("y", ""):')]),
    ("bug", "anything but no is yes", [(F, 'elif choice == "n":\n            return False\n        else:\n            print("Please enter y or n: ", end="")', 'elif choice == "n":\n            return False\n        else:\n            return True')]),
    ("bug", "prompt default true", [(F, '    if len(placeholders) == 0:\n        return False', '    if len(placeholders) == 0:\n        return True')]),
    ("bug", "children instead of parents", [(F, 'if node.parents:\n                    os.remove', 'if node.children:\n                    os.remove')]),
    ("bug", "no parents test", [(F, 'if node.parents:\n                    os.remove', 'if True:\n                    os.remove')]),
    ("bug", "removes source parents", [(F, '                    os.remove(os.path.join(folder, file))', '                    for file in node.parents:\n                        os.remove(os.path.join(folder, file))')]),
    ("bug", "wrong graph", [(F, 'placeholder_graph_path = os.path.join(folder, "out", "placeholder_graph.json")\n        if os.path', 'placeholder_graph_path = os.path.join(folder, "out", "dependency_graph.json")\n        if os.path')]),
    ("bug", "rmtree cwd out", [(F, 'shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)', 'shutil.rmtree("out", ignore_errors=True)')]),
    ("bug", "rmtree folder of artifacts", [(F, 'shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)', 'for d in os.listdir(folder):\n        if d.startswith("artifacts"):\n            shutil.rmtree(os.path.join(folder, d), ignore_errors=True)')]),
    ("bug", "removes src gen", [(F, '    shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)', '    shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)\n    shutil.rmtree(os.path.join(folder, "src", "public", "js", "gen"), ignore_errors=True)')]),
    ("bug", "removes before project test", [(F, '    if not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):', '    shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)\n    if not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):')]),
    ("bug", "no exit without project", [(F, "        sys.exit(1)\n", "        pass\n")]),
    ("bug", "whole folder", [(F, 'os.remove(os.path.join(folder, file))', 'shutil.rmtree(os.path.join(folder, os.path.dirname(file)), ignore_errors=True)')]),
    ("bug", "flag ignored", [(F, "    if placeholders:\n        placeholder_graph_path", "    if placeholders is not None:\n        placeholder_graph_path")]),
    ("bug", "default true option", [(F, 'action="store_true",\n        help="Removes any', 'action="store_false",\n        help="Removes any')]),
    ("bug", "parent directory out", [(F, 'os.path.join(folder, "artifacts"), ignore', 'os.path.join(folder, "..", "artifacts"), ignore')]),
    ("bug", "prompt ignored", [(F, "        placeholders = prompt_placeholders(args.folder)\n", "        prompt_placeholders(args.folder)\n        placeholders = True\n")]),
    ("same", "helper path", [(F, 'def clean(folder', 'def graph_path(folder):\n    return os.path.join(folder, "out", "placeholder_graph.json")\n\n\ndef clean(folder'), (F, 'placeholder_graph_path = os.path.join(folder, "out", "placeholder_graph.json")', 'placeholder_graph_path = graph_path(folder)', 1)]),
    ("same", "list first", [(F, '            for file, node in placeholder_graph.nodes.items():\n                if node.parents:\n                    os.remove(os.path.join(folder, file))', '            generated = [f for f, n in placeholder_graph.nodes.items() if n.parents]\n            for file in generated:\n                os.remove(os.path.join(folder, file))')]),
    ("same", "list append", [(F, '            for file, node in placeholder_graph.nodes.items():\n                if node.parents:\n                    os.remove(os.path.join(folder, file))', '            generated = []\n            for f, n in placeholder_graph.nodes.items():\n                if len(n.parents) > 0:\n                    generated.append(f)\n            for file in generated:\n                os.unlink(os.path.join(folder, file))')]),
    ("same", "get_parents", [(F, "if node.parents:\n                    os.remove", "if placeholder_graph.get_parents(file):\n                    os.remove")]),
    ("same", "continue", [(F, '                if node.parents:\n                    os.remove(os.path.join(folder, file))', '                if not node.parents:\n                    continue\n                os.remove(os.path.join(folder, file))')]),
    ("same", "remove helper", [(F, '            for file, node in placeholder_graph.nodes.items():\n                if node.parents:\n                    os.remove(os.path.join(folder, file))\n', '            remove_generated(folder, placeholder_graph)\n'), (F, 'def prompt_placeholders', 'def remove_generated(folder, graph):\n    for file, node in graph.nodes.items():\n        if node.parents:\n            os.remove(os.path.join(folder, file))\n\n\ndef prompt_placeholders')]),
    ("same", "helper lists generated", [(F, '            for file, node in placeholder_graph.nodes.items():\n                if node.parents:\n                    os.remove(os.path.join(folder, file))\n', '            for file in generated_files(placeholder_graph):\n                os.remove(os.path.join(folder, file))\n'), (F, '    for file, node in placeholder_graph.nodes.items():\n        if node.parents:\n            placeholders.append(file)\n', '    placeholders = generated_files(placeholder_graph)\n'), (F, 'def prompt_placeholders', 'def generated_files(graph):\n    return [file for file, node in graph.nodes.items() if node.parents]\n\n\ndef prompt_placeholders')]),
    ("same", "loop of folders", [(F, '    shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)\n    shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)', '    for name in ("out", "artifacts"):\n        shutil.rmtree(os.path.join(folder, name), ignore_errors=True)')]),
    ("same", "early return", [(F, 'def clean(folder: str, placeholders: bool) -> None:', 'def config_exists(folder):\n    return os.path.exists(os.path.join(folder, "vanillaplusjs.json"))\n\n\ndef clean(folder: str, placeholders: bool) -> None:'), (F, 'if not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):', 'if not config_exists(folder):')]),
    ("same", "answer set", [(F, 'if choice == "y":', 'if choice in ("y", "yes"):')]),
    ("same", "main chain", [(F, '    placeholders: Optional[bool] = None\n    if args.placeholders:\n        placeholders = True\n    elif args.no_placeholders:\n        placeholders = False\n\n    if placeholders is None:\n        placeholders = prompt_placeholders(args.folder)\n', '    if args.placeholders:\n        placeholders = True\n    elif args.no_placeholders:\n        placeholders = False\n    else:\n        placeholders = prompt_placeholders(args.folder)\n')]),
    ("same", "tolerate missing", [(F, '                    os.remove(os.path.join(folder, file))', '                    try:\n                        os.remove(os.path.join(folder, file))\n                    except FileNotFoundError:\n                        pass')]),
    ("same", "direct returns", [(F, '        if choice == "y":\n            return True\n        elif choice == "n":\n            return False\n        else:\n            print("Please enter y or n: ", end="")', '        if choice in ("y", "n"):\n            return choice == "y"\n        print("Please enter y or n: ", end="")')]),
    ("same", "tuple of clauses", [(F, '    if placeholders:\n        placeholder_graph_path = os.path.join(folder, "out", "placeholder_graph.json")\n        if os.path.exists(placeholder_graph_path):\n            with open(placeholder_graph_path, "r") as f:\n                placeholder_graph = FileDependencyGraph.load(f)\n\n            for file', '    placeholder_graph_path = os.path.join(folder, "out", "placeholder_graph.json")\n    if placeholders and os.path.exists(placeholder_graph_path):\n            with open(placeholder_graph_path, "r") as f:\n                placeholder_graph = FileDependencyGraph.load(f)\n\n            for file')]),
]

CASES += [("same", 'r8: clean placeholders helper', [('runners/clean.py', '            for file, node in placeholder_graph.nodes.items():\n                if node.parents:\n                    os.remove(os.path.join(folder, file))\n\n    shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)\n    shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)\n', '            for file in list_placeholders(placeholder_graph):\n                os.remove(os.path.join(folder, file))\n\n    for generated in ("out", "artifacts"):\n        shutil.rmtree(os.path.join(folder, generated), ignore_errors=True)\n\n\ndef list_placeholders(graph: FileDependencyGraph) -> List[str]:\n    """The files which were generated by other files"""\n    return [file for file, node in graph.nodes.items() if node.parents]\n'), ('runners/clean.py', '    placeholders: List[str] = []\n    for file, node in placeholder_graph.nodes.items():\n        if node.parents:\n            placeholders.append(file)\n\n    if len(placeholders) == 0:\n        return False\n', '    placeholders = list_placeholders(placeholder_graph)\n    if not placeholders:\n        return False\n'), ('runners/clean.py', '    while True:\n        choice = input().lower()\n        if choice == "y":\n            return True\n        elif choice == "n":\n            return False\n        else:\n            print("Please enter y or n: ", end="")', '    choice = input().lower()\n    while choice not in ("y", "n"):\n        print("Please enter y or n: ", end="")\n        choice = input().lower()\n    return choice == "y"')])]
