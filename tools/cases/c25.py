C="build/handlers/copy.py"; H="build/handlers/hash.py"; CS="build/handlers/css.py"; JS="build/handlers/js.py"; HT="build/handlers/html.py"; IG="build/handlers/image_glue.py"; CM="build/html/manips/images/command.py"; BF="build/build_file.py"; SF="build/scan_file.py"; JC="build/handlers/js_constants.py"; CH="build/handlers/copy_and_hash.py"
GT='''    rel_public_folder = f"src{os.path.sep}public{os.path.sep}"
    if not relpath.startswith(rel_public_folder):
        return None
    relative_to_public_folder = relpath[len(rel_public_folder) :]
    return f"out{os.path.sep}www{os.path.sep}{relative_to_public_folder}"
'''
NB='''    if target_path is None:
        return BuildFileResult([], [], [])
'''
NS='''    if target_path is None:
        return ScanFileResult([], [])
'''
HH='''    possible_parent_folders = [
        f"src{os.path.sep}public{os.path.sep}",
        f"out{os.path.sep}www{os.path.sep}",
    ]
'''
IH='relpath.startswith(os.path.join("src", "public") + os.path.sep) and ('
VC='''    if not path_relative_to_root.startswith(
        os.path.join("src", "public") + os.path.sep
    ):
        return False
'''
CASES=[
("bug","copy: prefix without separator",[(C,GT,GT.replace('public{os.path.sep}"','public"').replace("(rel_public_folder) :]","(rel_public_folder) + 1 :]"))]),
("bug","copy: everything below src",[(C,GT,GT.replace('"src{os.path.sep}public{os.path.sep}"','"src{os.path.sep}"'))]),
("bug","copy: public anywhere",[(C,"    if not relpath.startswith(rel_public_folder):",'    if "public" not in relpath:')]),
("bug","copy: commonprefix",[(C,"    if not relpath.startswith(rel_public_folder):",'    if os.path.commonprefix([relpath, rel_public_folder]) != "src/public":')]),
("bug","copy: lowercased",[(C,"    if not relpath.startswith(rel_public_folder):",'    if not relpath.lower().startswith(rel_public_folder):')]),
("bug","copy: flattened",[(C,"    relative_to_public_folder = relpath[len(rel_public_folder) :]","    relative_to_public_folder = os.path.basename(relpath)")]),
("bug","copy: one character off",[(C,"relpath[len(rel_public_folder) :]","relpath[len(rel_public_folder) - 1 :]")]),
("bug","copy: lowercased target",[(C,"relpath[len(rel_public_folder) :]","relpath[len(rel_public_folder) :].lower()")]),
("bug","copy: raises",[(C,"        return None\n","        raise ValueError(f\"{relpath} is not in the public folder\")\n")]),
("bug","copy: partials published too",[(C,GT,GT.replace("        return None",'        if not relpath.endswith(".txt"):\n            return None\n        return os.path.join("out", "www", relpath)'))]),
("bug","copy: None not checked",[(C,NB.replace("[], [], []","children=[], produced=[], reused=[]"),"")]),
("bug","css: None not checked",[(CS,NB,"")]),
("bug","js: None not checked",[(JS,NB,"")]),
("bug","html: None not checked",[(HT,NB,"")]),
("bug","css: asserted",[(CS,NB,"    assert target_path is not None\n")]),
("bug","js: falls back to the name",[(JS,NB,'    if target_path is None:\n        target_path = os.path.join("out", "www", os.path.basename(relpath))\n')]),
("bug","html: falls back to pages",[(HT,NB,'    if target_path is None:\n        target_path = os.path.join("out", "www", relpath[len("src/") :])\n')]),
("bug","hash: prefix without separator",[(H,HH,HH.replace('"src{os.path.sep}public{os.path.sep}"','"src{os.path.sep}public"'))]),
("bug","hash: third parent",[(H,HH,HH.replace("    ]\n",'        f"src{os.path.sep}",\n    ]\n'))]),
("bug","images: handles_file without separator",[(IG,IH,'relpath.startswith(os.path.join("src", "public")) and (')]),
("bug","images: handles any",[(IG,IH,'relpath.startswith("src") and (')]),
("bug","image glue: wrong suffix",[(IG,'path_rel_to_public_no_ext = path_rel_to_public[: -len(".images.json")]','path_rel_to_public_no_ext = path_rel_to_public[: -len(".json")]',1)]),
("bug","image command without separator",[(CM,VC,VC.replace(' + os.path.sep',""))]),
("bug","image command unchecked",[(CM,VC,"")]),
("bug","image command: starts with src",[(CM,VC,VC.replace('os.path.join("src", "public") + os.path.sep','"src" + os.path.sep'))]),
("same","copy: helper",[(C,"    if not relpath.startswith(rel_public_folder):","    if not _public(relpath):"),(C,"def scan_file(",'def _public(relpath):\n    return relpath.startswith(os.path.join("src", "public", ""))\n\n\ndef scan_file(')]),
("same","copy: positive",[(C,GT,'''    folder = os.path.join("src", "public") + os.path.sep
    if relpath.startswith(folder):
        return os.path.join("out", "www", relpath[len(folder) :])
    return None
''')]),
("same","copy: removeprefix",[(C,"relpath[len(rel_public_folder) :]","relpath.removeprefix(rel_public_folder)")]),
("same","copy: slice compared",[(C,"    if not relpath.startswith(rel_public_folder):","    if relpath[: len(rel_public_folder)] != rel_public_folder:")]),
("same","copy: commonpath",[(C,"    if not relpath.startswith(rel_public_folder):",'    if os.path.commonpath([relpath, os.path.join("src", "public")]) != os.path.join("src", "public"):')]),
("same","copy: relpath",[(C,"relpath[len(rel_public_folder) :]",'os.path.relpath(relpath, os.path.join("src", "public"))')]),
("same","copy: parts",[(C,"    if not relpath.startswith(rel_public_folder):",'    if relpath.split(os.path.sep)[:2] != ["src", "public"]:')]),
("same","copy: result in a variable",[(C,GT,'''    prefix = "src/public/"
    result = None
    if relpath.startswith(prefix):
        result = "out/www/" + relpath[len(prefix) :]
    return result
''')]),
("same","css: checked first",[(CS,'''    if not relpath.endswith(".css"):
        return BuildFileResult([], [], [])

    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
'''+NB,'''    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
    if not relpath.endswith(".css") or target_path is None:
        return BuildFileResult([], [], [])
''')]),
("same","build: dispatcher checks",[(BF,"    if relpath == build_context.js_constants.relpath:",'''    if relpath != build_context.js_constants.relpath and not relpath.startswith(
        os.path.join("src", "public", "")
    ):
        return BuildFileResult(children=[], produced=[], reused=[])
    if relpath == build_context.js_constants.relpath:'''),(BF,"import time\n","import os\nimport time\n"),(CS,NB,""),(JS,NB,"")]),
("same","hash: tuple",[(H,HH,HH.replace("[","(",1).replace("]",")").replace('f"src{os.path.sep}public{os.path.sep}"','os.path.join("src", "public", "")'))]),
("same","hash: two ifs",[(H,HH+'''
    for parent in possible_parent_folders:
        if relpath.startswith(parent):
            relative_to_parent = relpath[len(parent) :]
            return f"out{os.path.sep}www{os.path.sep}{relative_to_parent}.hash"
''','''    public = f"src{os.path.sep}public{os.path.sep}"
    if relpath.startswith(public):
        return f"out{os.path.sep}www{os.path.sep}{relpath[len(public) :]}.hash"
    if relpath.startswith(f"out{os.path.sep}www{os.path.sep}"):
        return relpath + ".hash"
''')]),
("same","images: handles_file reordered",[(IG,'''    return relpath.startswith(os.path.join("src", "public") + os.path.sep) and (
        relpath.endswith(".images.json") or relpath.endswith(".images.js")
    )
''','''    if not relpath.endswith((".images.json", ".images.js")):
        return False
    return relpath.startswith("src" + os.path.sep + "public" + os.path.sep)
''')]),
("same","images: command tests parts",[(CM,VC,'''    public = os.path.join("src", "public", "")
    in_public = path_relative_to_root.startswith(public)
    if not in_public:
        return False
''')]),
("same","images: command slice",[(CM,VC,'''    public = os.path.join("src", "public", "")
    if path_relative_to_root[: len(public)] != public:
        return False
''')]),
("same","image glue: splitext",[(IG,'path_rel_to_public_no_ext = path_rel_to_public[: -len(".images.json")]','path_rel_to_public_no_ext = path_rel_to_public.removesuffix(".images.json")',1)]),
('same', 'hash helpers', [('build/handlers/hash.py', '    for parent in possible_parent_folders:\n        if relpath.startswith(parent):\n            relative_to_parent = relpath[len(parent) :]\n            return f"out{os.path.sep}www{os.path.sep}{relative_to_parent}.hash"\n\n    return None\n', '    parent = next((p for p in possible_parent_folders if relpath.startswith(p)), None)\n    if parent is None:\n        return None\n    return os.path.join("out", "www", relpath[len(parent) :] + ".hash")\n'), ('build/handlers/hash.py', '    sha256_b64 = calculate_hash(src_path_rel_to_cwd)\n\n    makedirs_safely(os.path.dirname(target_path_rel_to_cwd))\n    with open(target_path_rel_to_cwd, "w") as f:\n        f.write(sha256_b64)\n', '    _store(target_path_rel_to_cwd, calculate_hash(src_path_rel_to_cwd))\n'), ('build/handlers/hash.py', 'def calculate_hash(', 'def _store(path: str, text: str) -> None:\n    folder = os.path.dirname(path)\n    makedirs_safely(folder)\n    with open(path, "w") as out:\n        out.write(text)\n\n\ndef calculate_hash('), ('build/handlers/hash.py', '    sha256 = hashlib.sha256()\n    with open(filepath, "rb") as f:\n        sha256.update(f.read())\n\n    return base64.urlsafe_b64encode(sha256.digest()).decode("utf-8")', '    with open(filepath, "rb") as f:\n        contents = f.read()\n    digest = hashlib.sha256(contents).digest()\n    return str(base64.urlsafe_b64encode(digest), "utf-8")')]),
]

CASES += [("same", 'r8: hash target with join', [('build/handlers/hash.py', '    for parent in possible_parent_folders:\n        if relpath.startswith(parent):\n            relative_to_parent = relpath[len(parent) :]\n            return f"out{os.path.sep}www{os.path.sep}{relative_to_parent}.hash"\n\n    return None', '    parent = next((p for p in possible_parent_folders if relpath.startswith(p)), None)\n    if parent is None:\n        return None\n    return os.path.join("out", "www", relpath[len(parent) :] + ".hash")')])]
