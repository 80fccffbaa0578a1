F = "runners/init.py"
CFG = '    if not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):\n'
IDX = '    if not os.path.exists(os.path.join(folder, "src", "public", "index.html")):\n'
MK = '    makedirs_safely(os.path.join(folder, "src", "public", "img"))\n    makedirs_safely(os.path.join(folder, "src", "public", "js"))\n    makedirs_safely(os.path.join(folder, "src", "partials"))\n'
CASES = [
    ("bug", "host overwrites config", [(F, CFG, '    if host is not None or not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):\n')]),
    ("bug", "empty config rewritten", [(F, CFG, '    if not os.path.exists(os.path.join(folder, "vanillaplusjs.json")) or os.path.getsize(os.path.join(folder, "vanillaplusjs.json")) == 0:\n')]),
    ("bug", "index always", [(F, IDX, '    if True:\n')]),
    ("bug", "index test on wrong path", [(F, IDX, '    if not os.path.exists(os.path.join(folder, "index.html")):\n')]),
    ("bug", "index after config only", [(F, IDX, '    created = not os.path.exists(os.path.join(folder, "out"))\n    if created:\n')]),
    ("bug", "both or neither", [(F, IDX, '    if not os.path.exists(os.path.join(folder, "src", "public", "index.html")) or not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):\n')]),
    ("bug", "makedirs not exist_ok", [(F, MK, MK.replace("makedirs_safely", "os.makedirs"))]),
    ("bug", "clears out", [(F, IDX, '    import shutil\n    shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)\n' + IDX)]),
    ("bug", "backup rename", [(F, CFG, '    if os.path.exists(os.path.join(folder, "vanillaplusjs.json")):\n        os.rename(os.path.join(folder, "vanillaplusjs.json"), os.path.join(folder, "vanillaplusjs.json.bak"))\n' + CFG)]),
    ("bug", "append constants", [(F, IDX, '    with open(os.path.join(folder, ".gitignore"), "a") as f:\n        f.write("out/\\n")\n' + IDX)]),
    ("bug", "folders after files", [(F, MK + "\n", ""), (F, '            print("</html>", file=f)\n', '            print("</html>", file=f)\n' + MK)]),
    ("bug", "cwd index", [(F, IDX, '    if not os.path.exists(os.path.join("src", "public", "index.html")):\n')]),
    ("bug", "reads config", [(F, IDX, '    with open(os.path.join(folder, "src", "public", "js", "constants.js")) as f:\n        f.read()\n' + IDX)]),
    ("bug", "isdir", [(F, IDX, '    if not os.path.isdir(os.path.join(folder, "src", "public", "index.html")):\n')]),
    ("bug", "version migration", [(F, MK, '    else:\n        pass\n'.replace('    else:\n        pass\n', '') + MK + '    if os.path.exists(os.path.join(folder, "vanillaplusjs.json")):\n        with open(os.path.join(folder, "vanillaplusjs.json")) as f:\n            config = json.load(f)\n        if config.get("version") != vanillaplusjs.constants.CONFIGURATION_VERSION:\n            os.remove(os.path.join(folder, "vanillaplusjs.json"))\n')]),
    ("bug", "no starter page", [(F, IDX, '    if False and not os.path.exists(os.path.join(folder, "src", "public", "index.html")):\n')]),
    ("bug", "main overwrites", [(F, "    init(args.folder, host=args.host)\n", '    if args.host and os.path.exists(os.path.join(args.folder, "vanillaplusjs.json")):\n        with open(os.path.join(args.folder, "vanillaplusjs.json")) as f:\n            config = json.load(f)\n        config["host"] = args.host\n        with open(os.path.join(args.folder, "vanillaplusjs.json"), "w") as f:\n            json.dump(config, f)\n    init(args.folder, host=args.host)\n')]),
    ("same", "path variables", [(F, CFG, '    config_path = os.path.join(folder, "vanillaplusjs.json")\n    if not os.path.exists(config_path):\n'), (F, 'with open(os.path.join(folder, "vanillaplusjs.json"), "w")', 'with open(config_path, "w")')]),
    ("same", "loop of folders", [(F, MK, '    for sub in (("src", "public", "img"), ("src", "public", "js"), ("src", "partials")):\n        makedirs_safely(os.path.join(folder, *sub))\n')]),
    ("same", "loop of relative folders", [(F, MK, '    for sub in ("src/public/img", "src/public/js", "src/partials"):\n        makedirs_safely(os.path.join(folder, sub))\n')]),
    ("same", "helper page", [(F, IDX, '    write_index(os.path.join(folder, "src", "public", "index.html"))\n\n\ndef write_index(path):\n    if not os.path.exists(path):\n'), (F, 'with open(os.path.join(folder, "src", "public", "index.html"), "w")', 'with open(path, "w")')]),
    ("same", "early return", [(F, IDX + '        with open(os.path.join(folder, "src", "public", "index.html"), "w") as f:\n', '    index = os.path.join(folder, "src", "public", "index.html")\n    if os.path.exists(index):\n        return\n    if True:\n        with open(index, "w") as f:\n')]),
    ("same", "exist_ok", [(F, MK, '    os.makedirs(os.path.join(folder, "src", "public", "img"), exist_ok=True)\n    os.makedirs(os.path.join(folder, "src", "public", "js"), exist_ok=True)\n    os.makedirs(os.path.join(folder, "src", "partials"), exist_ok=True)\n')]),
    ("same", "exclusive", [(F, IDX + '        with open(os.path.join(folder, "src", "public", "index.html"), "w") as f:', '    if not os.path.exists(os.path.join(folder, "src", "public", "index.html")):\n        with open(os.path.join(folder, "src", "public", "index.html"), "x") as f:')]),
    ("same", "predicate helper", [(F, 'def init(', 'def missing(*p):\n    return not os.path.exists(os.path.join(*p))\n\n\ndef init('), (F, CFG, '    if missing(folder, "vanillaplusjs.json"):\n'), (F, IDX, '    if missing(folder, "src", "public", "index.html"):\n')]),
    ("same", "predicate of path", [(F, 'def init(', 'def missing(p):\n    return not os.path.exists(p)\n\n\ndef init('), (F, CFG, '    if missing(os.path.join(folder, "vanillaplusjs.json")):\n'), (F, IDX, '    if missing(os.path.join(folder, "src", "public", "index.html")):\n')]),
]

CASES += [("same", 'r8: init folders loop', [('runners/init.py', '    makedirs_safely(os.path.join(folder, "src", "public", "img"))\n    makedirs_safely(os.path.join(folder, "src", "public", "js"))\n    makedirs_safely(os.path.join(folder, "src", "partials"))\n\n    if not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):\n        with open(os.path.join(folder, "vanillaplusjs.json"), "w") as f:\n', '    for parts in (("public", "img"), ("public", "js"), ("partials",)):\n        makedirs_safely(os.path.join(folder, "src", *parts))\n\n    config_path = os.path.join(folder, "vanillaplusjs.json")\n    if not os.path.exists(config_path):\n        with open(config_path, "w") as f:\n')])]
