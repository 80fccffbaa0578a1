C="build/cold_incremental_rebuild.py"
CASES=[
("bug","no-result",[(C,"""    for future in futures:
        future.result()

""","")]),
("bug","swallow-result",[(C,"""    for future in futures:
        future.result()
""","""    for future in futures:
        try:
            future.result()
        except Exception:
            logger.exception("failed")
""")]),
("bug","first-only",[(C,"""    for future in futures:
        future.result()
""","""    for future in futures:
        if future.done():
            future.result()
            break
""")]),
("bug","state-before-result",[(C,"""    for future in futures:
        future.result()

""",""),(C,"""        json.dump(dataclasses.asdict(new_external_files_state), f)
""","""        json.dump(dataclasses.asdict(new_external_files_state), f)

    for future in futures:
        future.result()
""")]),
("bug","forget-early-return",[(C,"if not futures and not forgot_external_file:","if not futures:")]),
("bug","no-remove",[(C,"""            try:
                os.remove(os.path.join(context.folder, old_external_file_relpath))
            except FileNotFoundError:
                pass
""","            pass\n")]),
("bug","start-from-old",[(C,"new_external_files_state = ExternalFilesState(state_by_relpath=dict())","new_external_files_state = ExternalFilesState(state_by_relpath=dict(external_files_state.state_by_relpath))")]),
("bug","wrong-integrity",[(C,"                integrity=desired_external_file.integrity,\n                signature","                integrity=desired_external_file.url,\n                signature")]),
("bug","sig-of-src",[(C,"""                    os.path.join(context.folder, desired_external_file.relpath)
                ),""","""                    context.src_folder
                ),""")]),
("bug","future-forgotten",[(C,"""            futures.append(
                executor.submit(handle_external_file, context, desired_external_file)
            )
    finally""","""            f = executor.submit(handle_external_file, context, desired_external_file)
            if not futures:
                futures.append(f)
    finally""")]),
("same","as_completed",[(C,"    for future in futures:\n        future.result()","    for future in concurrent.futures.as_completed(futures):\n        future.result()")]),
("same","inline",[(C,"""            if executor is None:
                executor = ProcessPoolExecutor()

            futures.append(
                executor.submit(handle_external_file, context, desired_external_file)
            )
""","""            handle_external_file(context, desired_external_file)
            futures.append(True)
"""),(C,"    for future in futures:\n        future.result()\n","")]),
("same","listcomp",[(C,"    for future in futures:\n        future.result()","    results = [future.result() for future in futures]\n    logger.debug('{}', len(results))")]),
("same","helper",[(C,"    for future in futures:\n        future.result()","    _wait(futures)"),(C,"def is_external_file_skippable(","""def _wait(fs):
    for i in range(len(fs)):
        fs[i].result()


def is_external_file_skippable(""")]),
("same","dict-futures",[(C,"""            futures.append(
                executor.submit(handle_external_file, context, desired_external_file)
            )
    finally""","""            futures[desired_external_file.relpath] = executor.submit(handle_external_file, context, desired_external_file)
    finally"""),(C,"futures: List[concurrent.futures.Future] = []","futures = {}"),(C,"    for future in futures:","    for future in futures.values():")]),
("same","lexists",[(C,"""            try:
                os.remove(os.path.join(context.folder, old_external_file_relpath))
            except FileNotFoundError:
                pass
""","""            with contextlib.suppress(FileNotFoundError):
                os.remove(os.path.join(context.folder, old_external_file_relpath))
"""),(C,"import json\n","import json\nimport contextlib\n")]),
("same","with-executor",[(C,"""    finally:
        if executor is not None:
            executor.shutdown(wait=True)

    if not""","""    except BaseException:
        if executor is not None:
            executor.shutdown(wait=True)
        raise
    else:
        if executor is not None:
            executor.shutdown(wait=True)

    if not""")]),
("same","rebuild-state",[(C,"""    for desired_external_file in desired_external_files.values():
        if (
            desired_external_file.relpath
            not in new_external_files_state.state_by_relpath
        ):
            new_external_files_state.state_by_relpath[
                desired_external_file.relpath
            ] = ExternalFileState(
                relpath=desired_external_file.relpath,
                integrity=desired_external_file.integrity,
                signature=get_file_signature(
                    os.path.join(context.folder, desired_external_file.relpath)
                ),
            )
""","""    for relpath, item in desired_external_files.items():
        if relpath in new_external_files_state.state_by_relpath:
            continue
        sig = get_file_signature(os.path.join(context.folder, relpath))
        state = ExternalFileState(relpath, item.integrity, sig)
        new_external_files_state.state_by_relpath[relpath] = state
""")]),
("same","tmp-and-replace",[(C,"""    with open(context.external_files_state_file, "w") as f:
        json.dump(dataclasses.asdict(new_external_files_state), f)
""","""    data = json.dumps(dataclasses.asdict(new_external_files_state))
    with open(context.external_files_state_file, "w") as f:
        f.write(data)
""")]),
('same', 'cold forget helper', [('build/cold_incremental_rebuild.py', '    forgot_external_file = False\n    for old_external_file_relpath in external_files_state.state_by_relpath.keys():\n        if old_external_file_relpath not in desired_external_files:\n            logger.info("Deleting old external file {}", old_external_file_relpath)\n            forgot_external_file = True\n            try:\n                os.remove(os.path.join(context.folder, old_external_file_relpath))\n            except FileNotFoundError:\n                pass\n', '    old_files = [\n        relpath\n        for relpath in external_files_state.state_by_relpath\n        if relpath not in desired_external_files\n    ]\n    for relpath in old_files:\n        logger.info("Deleting old external file {}", relpath)\n        remove_if_exists(os.path.join(context.folder, relpath))\n'), ('build/cold_incremental_rebuild.py', '    if not futures and not forgot_external_file:\n', '    if not futures and not old_files:\n'), ('build/cold_incremental_rebuild.py', 'async def check_external_files(', 'def remove_if_exists(path: str) -> None:\n    try:\n        os.remove(path)\n    except FileNotFoundError:\n        pass\n\n\nasync def check_external_files(')]),
]

CASES += [("same", 'r9: cold with executor split', [('build/cold_incremental_rebuild.py', "    executor: Optional[ProcessPoolExecutor] = None\n    # We don't want to spin up a whole process pool unless we actually have\n    # something to do\n\n    futures: List[concurrent.futures.Future] = []\n    try:\n        for desired_external_file in desired_external_files.values():\n            if is_external_file_skippable(\n                context, external_files_state, desired_external_file.relpath\n            ):\n                new_external_files_state.state_by_relpath[\n                    desired_external_file.relpath\n                ] = external_files_state.state_by_relpath[desired_external_file.relpath]\n                continue\n\n            if executor is None:\n                executor = ProcessPoolExecutor()\n\n            futures.append(\n                executor.submit(handle_external_file, context, desired_external_file)\n            )\n    finally:\n        if executor is not None:\n            executor.shutdown(wait=True)\n\n    if not futures and not forgot_external_file:\n        return\n\n    for future in futures:\n        future.result()\n", '    outdated: List[ExternalFile] = []\n    for file in desired_external_files.values():\n        if is_external_file_skippable(context, external_files_state, file.relpath):\n            kept = external_files_state.state_by_relpath[file.relpath]\n            new_external_files_state.state_by_relpath[file.relpath] = kept\n        else:\n            outdated.append(file)\n\n    if not outdated and not forgot_external_file:\n        return\n\n    if outdated:\n        with ProcessPoolExecutor() as executor:\n            futures = [\n                executor.submit(handle_external_file, context, file)\n                for file in outdated\n            ]\n        for future in futures:\n            future.result()\n')])]

CASES += [("same", 'r9: cold integrity helpers', [('build/cold_incremental_rebuild.py', '    (digest_type, expected_digest) = integrity.split("-")\n    digest = getattr(hashlib, digest_type)()\n    with open(filepath, "rb") as f_in:\n        while True:\n            data = f_in.read(4096)\n            if not data:\n                break\n            digest.update(data)\n\n    our_digest = b64encode(digest.digest())\n    if not bytes(expected_digest, "ascii") == our_digest:\n        raise IntegrityMismatchException(\n            f"From {filepath} expected {integrity}, got {str(our_digest, \'ascii\')}"\n        )', '    digest_type, expected_digest = integrity.split("-")\n    our_digest = digest_of(filepath, digest_type)\n    if our_digest != expected_digest:\n        raise IntegrityMismatchException(\n            f"From {filepath} expected {integrity}, got {our_digest}"\n        )\n\n\ndef digest_of(filepath: str, digest_type: str) -> str:\n    digest = hashlib.new(digest_type)\n    with open(filepath, "rb") as f_in:\n        while data := f_in.read(4096):\n            digest.update(data)\n    return b64encode(digest.digest()).decode("ascii")')])]

CASES += [("same", 'r9: cold download helper', [('build/cold_incremental_rebuild.py', '        response = requests.get(external_file.url, stream=True)\n        response.raise_for_status()\n        with open(temp_path, "wb") as f:\n            for chunk in response.iter_content(chunk_size=8192):\n                f.write(chunk)\n\n        ensure_integrity(temp_path, external_file.integrity)\n        try:\n            os.unlink(os.path.join(context.folder, external_file.relpath))\n        except FileNotFoundError:\n            pass\n        makedirs_safely(\n            os.path.dirname(os.path.join(context.folder, external_file.relpath))\n        )\n        os.rename(temp_path, os.path.join(context.folder, external_file.relpath))\n', '        download(external_file.url, temp_path)\n        ensure_integrity(temp_path, external_file.integrity)\n\n        target = os.path.join(context.folder, external_file.relpath)\n        makedirs_safely(os.path.dirname(target))\n        os.replace(temp_path, target)\n'), ('build/cold_incremental_rebuild.py', 'def ensure_integrity(', 'def download(url: str, path: str) -> None:\n    response = requests.get(url, stream=True)\n    response.raise_for_status()\n    with open(path, "wb") as f:\n        for chunk in response.iter_content(chunk_size=8192):\n            f.write(chunk)\n\n\ndef ensure_integrity(')])]

CASES += [("same", 'r9: cold skippable one expression', [('build/cold_incremental_rebuild.py', '    if old_state is None:\n        return False\n\n    if old_state.integrity != desired_file.integrity:\n        return False\n\n    try:\n        new_signature = get_file_signature(os.path.join(context.folder, relpath))\n    except FileNotFoundError:\n        return False\n\n    return new_signature == old_state.signature\n', '    if old_state is None or old_state.integrity != desired_file.integrity:\n        return False\n\n    path = os.path.join(context.folder, relpath)\n    return os.path.exists(path) and get_file_signature(path) == old_state.signature\n')])]
