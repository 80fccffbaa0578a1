C="build/cold_incremental_rebuild.py"
CASES=[
("bug","no-status",[(C,"        response.raise_for_status()\n","")]),
("bug","verify-in-open",[(C,"""                f.write(chunk)

        ensure_integrity(temp_path, external_file.integrity)
""","""                f.write(chunk)

            ensure_integrity(temp_path, external_file.integrity)
""")]),
("bug","first-chunk",[(C,"""            digest.update(data)
""","""            digest.update(data)
            break
""")]),
("bug","first-chunk2",[(C,"""        while True:
            data = f_in.read(4096)
            if not data:
                break
            digest.update(data)
""","""        data = f_in.read(1 << 20)
        digest.update(data)
""")]),
("bug","direct",[(C,"""        with open(temp_path, "wb") as f:""","""        with open(os.path.join(context.folder, external_file.relpath), "wb") as f:""")]),
("bug","swallow",[(C,"""        ensure_integrity(temp_path, external_file.integrity)
        try:""","""        try:
            ensure_integrity(temp_path, external_file.integrity)
        except IntegrityMismatchException:
            logger.warning("bad")
        try:""")]),
("bug","no-unlink",[(C,"""    finally:
        try:
            os.unlink(temp_path)
        except FileNotFoundError:
            pass

""","""    finally:
        pass

""")]),
("bug","unlink-only-normal",[(C,"""    finally:
        try:
            os.unlink(temp_path)
        except FileNotFoundError:
            pass

""","""    except IntegrityMismatchException:
        os.unlink(temp_path)
        raise

""")]),
("bug","slice",[(C,"if not bytes(expected_digest, \"ascii\") == our_digest:","if not bytes(expected_digest, \"ascii\")[:32] == our_digest[:32]:")]),
("bug","existing-exempt",[(C,"except (FileNotFoundError, IntegrityMismatchException):\n        pass","except FileNotFoundError:\n        pass\n    except IntegrityMismatchException:\n        return")]),
("bug","oserror-return",[(C,"""    try:
        response = requests.get(external_file.url, stream=True)
        response.raise_for_status()
""","""    try:
        try:
            response = requests.get(external_file.url, stream=True)
            response.raise_for_status()
        except requests.ConnectionError:
            return
""")]),
("bug","wrong-integrity-target",[(C,"        ensure_integrity(temp_path, external_file.integrity)\n","        ensure_integrity(temp_path, 'sha256-' + response.headers.get('x'))\n")]),
("bug","copy-instead",[(C,"os.rename(temp_path,","shutil.copyfile(temp_path,"),(C,"import json\n","import json\nimport shutil\n")]),
("bug","resume-append",[(C,"""        try:
            os.unlink(os.path.join(context.folder, external_file.relpath))""","""        with open(temp_path, "ab") as f:
            f.write(b"\\n")
        try:
            os.unlink(os.path.join(context.folder, external_file.relpath))""")]),
("same","replace",[(C,"os.rename(temp_path,","os.replace(temp_path,")]),
("same","walrus",[(C,"""        while True:
            data = f_in.read(4096)
            if not data:
                break
            digest.update(data)
""","""        while data := f_in.read(8192):
            digest.update(data)
""")]),
("same","iter-sentinel",[(C,"""        while True:
            data = f_in.read(4096)
            if not data:
                break
            digest.update(data)
""","""        for data in iter(lambda: f_in.read(4096), b""):
            digest.update(data)
""")]),
("same","whole",[(C,"""        while True:
            data = f_in.read(4096)
            if not data:
                break
            digest.update(data)
""","""        digest.update(f_in.read())
""")]),
("same","new",[(C,"digest = getattr(hashlib, digest_type)()","digest = hashlib.new(digest_type)")]),
("same","ne",[(C,"if not bytes(expected_digest, \"ascii\") == our_digest:","if our_digest != expected_digest.encode(\"ascii\"):")]),
("same","helper",[(C,"""    try:
        response = requests.get(external_file.url, stream=True)
        response.raise_for_status()
        with open(temp_path, "wb") as f:
            for chunk in response.iter_content(chunk_size=8192):
                f.write(chunk)

""","""    try:
        _download(external_file.url, temp_path)
"""),(C,"""def ensure_integrity(""","""def _download(url, dest):
    with requests.get(url, stream=True) as response:
        response.raise_for_status()
        with open(dest, "wb") as f:
            for chunk in response.iter_content(chunk_size=8192):
                f.write(chunk)


def ensure_integrity(""")]),
("same","location-var",[(C,"""        try:
            os.unlink(os.path.join(context.folder, external_file.relpath))
        except FileNotFoundError:
            pass
        makedirs_safely(
            os.path.dirname(os.path.join(context.folder, external_file.relpath))
        )
        os.rename(temp_path, os.path.join(context.folder, external_file.relpath))""","""        target = os.path.join(context.folder, external_file.relpath)
        if os.path.lexists(target):
            os.unlink(target)
        makedirs_safely(os.path.dirname(target))
        os.rename(temp_path, target)""")]),
("same","bool-helper",[(C,"""    try:
        ensure_integrity(
            os.path.join(context.folder, external_file.relpath), external_file.integrity
        )
        return
    except (FileNotFoundError, IntegrityMismatchException):
        pass
""","""    if _is_good(context, external_file):
        return
"""),(C,"""def ensure_integrity(""","""def _is_good(context, ef):
    try:
        ensure_integrity(os.path.join(context.folder, ef.relpath), ef.integrity)
        return True
    except (FileNotFoundError, IntegrityMismatchException):
        return False


def ensure_integrity(""")]),
("same","suppress",[(C,"""        try:
            os.unlink(temp_path)
        except FileNotFoundError:
            pass

""","""        with contextlib.suppress(FileNotFoundError):
            os.unlink(temp_path)

"""),(C,"import json\n","import json\nimport contextlib\n")]),
]

CASES += [("same", 'r7: hot producer search helper', [('build/hot_incremental_rebuild.py', '                            found = False\n                            inner_seen = set()\n                            if pending_file not in updated_children:\n                                # the output probably came from one of its dependencies, lets search\n                                # for it\n                                inner_stack: List[str] = [pending_file]\n                                while inner_stack:\n                                    inner_file = inner_stack.pop()\n                                    for produced in old_output_graph.get_children(\n                                        inner_file\n                                    ):\n                                        if produced == child:\n                                            out_dependencies_mapping[child] = inner_file\n                                            if inner_file != pending_file:\n                                                reinterpreted_children.append(\n                                                    inner_file\n                                                )\n                                            found = True\n                                            break\n                                    if found:\n                                        break\n                                    for (\n                                        inner_child\n                                    ) in old_dependency_graph.get_children(inner_file):\n                                        if inner_child not in inner_seen:\n                                            inner_stack.append(inner_child)\n                                            inner_seen.add(inner_child)\n\n                            if not found:\n                                raise ValueError(\n                                    f"{pending_file} lists {child} as a child, which is in the out folder, "\n                                    f"but we cannot find who produced it; checked {inner_seen}"\n                                )\n', '                            producer = None\n                            if pending_file not in updated_children:\n                                producer = find_old_producer(pending_file, child)\n\n                            if producer is None:\n                                raise ValueError(\n                                    f"{pending_file} lists {child} as a child, which is in the out folder, "\n                                    f"but we cannot find who produced it"\n                                )\n                            out_dependencies_mapping[child] = producer\n                            if producer != pending_file:\n                                reinterpreted_children.append(producer)\n'), ('build/hot_incremental_rebuild.py', '        while files_to_rebuild or pending_results:\n', '        def find_old_producer(file: str, output: str) -> Optional[str]:\n            seen = set()\n            stack = [file]\n            while stack:\n                candidate = stack.pop()\n                if output in old_output_graph.get_children(candidate):\n                    return candidate\n                for dep in old_dependency_graph.get_children(candidate):\n                    if dep not in seen:\n                        seen.add(dep)\n                        stack.append(dep)\n            return None\n\n        while files_to_rebuild or pending_results:\n')])]
