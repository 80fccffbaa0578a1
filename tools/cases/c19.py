M="build/html/manips/images/metadata.py"; X="build/html/manips/images/exporter.py"
BODY='''    with fasteners.InterProcessLock(lock_path):
        try:
            with open(os.path.join(art_path, "counter.txt"), "r") as f:
                counter = int(f.read())
        except FileNotFoundError:
            counter = 0

        counter = counter + 1

        with open(os.path.join(art_path, "counter.txt"), "w") as f:
            f.write(str(counter))

        entry_path = os.path.join(art_path, str(counter))
        placeholder_path = os.path.join(entry_path, "placeholder.json")
        makedirs_safely(entry_path)
        with open(placeholder_path, "w") as f:
            # images differing only in their extension share the artifacts folder
            json.dump({**dataclasses.asdict(target), "path": relpath}, f)

        return counter
'''
READ=BODY[BODY.index("        try"):BODY.index("        counter = counter + 1")]
WRITE=BODY[BODY.index("        with open(os.path.join(art_path, \"counter.txt\"), \"w\")"):BODY.index("        entry_path")]
CLAIM=BODY[BODY.index("        entry_path"):BODY.index("        return")]
ded=lambda s: "\n".join(l[4:] if l.startswith("    ") else l for l in s.split("\n"))
GETB='''                with fasteners.InterProcessLock(lock_path):
                    if os.path.exists'''
CASES=[
("bug","read before lock",[(M,BODY,ded(READ)+"    with fasteners.InterProcessLock(lock_path):\n"+BODY[BODY.index("        counter = counter + 1"):])]),
("bug","claim after lock",[(M,CLAIM+"        return counter\n",ded(CLAIM)+"    return counter\n")]),
("bug","two holds",[(M,"        counter = counter + 1\n\n        with open(os","        counter = counter + 1\n\n    with fasteners.InterProcessLock(lock_path):\n        with open(os")]),
("bug","no lock",[(M,"    with fasteners.InterProcessLock(lock_path):\n        try:","    if lock_path:\n        try:")]),
("bug","thread lock",[(M,"    with fasteners.InterProcessLock(lock_path):\n        try:","    with threading.Lock():\n        try:"),(M,"import os\n","import os\nimport threading\n")]),
("bug","lock by full name",[(M,'''    relpath_without_ext = os.path.splitext(relpath)[0]
    return os.path.join(
        context.out_folder, "locks", relpath_without_ext,''','''    return os.path.join(
        context.out_folder, "locks", relpath,''')]),
("bug","lock by pid",[(M,'"reserve_target.lock"','"reserve_target_" + str(os.getpid()) + ".lock"')]),
("bug","lock by target",[(M,'''    lock_path = reserve_target_lock_path(context, relpath)
    makedirs_safely(os.path.dirname(lock_path))
    makedirs''','''    lock_path = reserve_target_lock_path(context, relpath) + str(target.width)
    makedirs_safely(os.path.dirname(lock_path))
    makedirs''')]),
("bug","get without lock",[(M,GETB,"                if lock_path:\n                    if os.path.exists")]),
("bug","get exists first",[(M,'''                with fasteners.InterProcessLock(lock_path):
                    if os.path.exists(os.path.join(entry.path, "placeholder.json")):
''','''                if os.path.exists(os.path.join(entry.path, "placeholder.json")):
                    with fasteners.InterProcessLock(lock_path):
''')]),
("bug","not incremented",[(M,"        counter = counter + 1\n","        counter = max(counter, 1)\n")]),
("bug","writes old",[(M,"            f.write(str(counter))","            f.write(str(counter - 1))")]),
("bug","claims other",[(M,"entry_path = os.path.join(art_path, str(counter))","entry_path = os.path.join(art_path, str(counter + 1))")]),
("bug","returns other",[(M,"        return counter\n","        return counter + 1\n")]),
("bug","non blocking",[(M,"    with fasteners.InterProcessLock(lock_path):\n        try:","    lock = fasteners.InterProcessLock(lock_path)\n    lock.acquire(blocking=False)\n    if lock:\n        try:")]),
("bug","lock removed",[(M,"        return counter\n","        os.remove(lock_path)\n        return counter\n")]),
("bug","counter outside twice",[(M,BODY,BODY.replace(WRITE,"")[:-len("        return counter\n")]+ded(WRITE)+"    return counter\n")]),
("bug","cached counter",[(M,READ,'''        counter = _COUNTERS.get(art_path, 0)

'''),(M,"def reserve_target(\n","_COUNTERS = dict()\n\n\ndef reserve_target(\n"),(M,"        return counter\n","        _COUNTERS[art_path] = counter\n        return counter\n")]),
("same","acquire release",[(M,"    with fasteners.InterProcessLock(lock_path):\n        try:","    lock = fasteners.InterProcessLock(lock_path)\n    lock.acquire()\n    try:\n        try:"),(M,"        return counter\n","        return counter\n    finally:\n        lock.release()\n")]),
("same","helper",[(M,"    with fasteners.InterProcessLock(lock_path):\n        try:","    with _locked(context, relpath):\n        try:"),(M,"def reserve_target(\n",'''@contextlib.contextmanager
def _locked(context, relpath):
    path = reserve_target_lock_path(context, relpath)
    makedirs_safely(os.path.dirname(path))
    with fasteners.InterProcessLock(path):
        yield


def reserve_target(
'''),(M,"import os\n","import os\nimport contextlib\n")]),
("same","next helper",[(M,READ+"        counter = counter + 1\n\n"+WRITE,"        counter = _next_id(os.path.join(art_path, 'counter.txt'))\n\n"),(M,"def reserve_target(\n",'''def _next_id(path):
    if os.path.exists(path):
        with open(path) as f:
            last = int(f.read())
    else:
        last = 0
    with open(path, "w") as f:
        f.write(f"{last + 1}")
    return last + 1


def reserve_target(
''')]),
("same","return outside",[(M,"        return counter\n","    return counter\n")]),
("same","increment inline",[(M,"counter = int(f.read())","counter = int(f.read()) + 1"),(M,"            counter = 0\n","            counter = 1\n"),(M,"        counter = counter + 1\n\n","")]),
("same","augmented",[(M,"        counter = counter + 1\n","        counter += 1\n")]),
("same","lock local",[(M,"    with fasteners.InterProcessLock(lock_path):\n        try:","    lock = fasteners.InterProcessLock(lock_path)\n    with lock:\n        try:")]),
("same","claim first",[(M,WRITE+CLAIM,CLAIM+WRITE)]),
("same","stem helper",[(M,'''    relpath_without_ext = os.path.splitext(relpath)[0]
    return os.path.join(
        context.out_folder, "locks", relpath_without_ext,''','''    stem, _ = os.path.splitext(relpath)
    return os.path.join(
        context.out_folder, "locks", stem,''')]),
("same","get early continue",[(M,'''                    if os.path.exists(os.path.join(entry.path, "placeholder.json")):
                        with open''','''                    reserved = os.path.join(entry.path, "placeholder.json")
                    if os.path.exists(reserved):
                        with open''')]),
("bug","unreadable counter starts over",[(M,"""        except FileNotFoundError:
            counter = 0
""","""        except (FileNotFoundError, ValueError):
            counter = 0
""")]),
("bug","any failure starts over",[(M,"""        except FileNotFoundError:
            counter = 0
""","""        except Exception:
            counter = 0
""")]),
("same","unreadable counter is reported",[(M,"""        except FileNotFoundError:
            counter = 0
""","""        except FileNotFoundError:
            counter = 0
        except ValueError:
            logger.error("the counter of {} is damaged", relpath)
            raise
""")]),
]
