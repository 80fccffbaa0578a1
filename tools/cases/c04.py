D = "runners/dev.py"
TAKE = '''            deleted = self.deleted_files.copy()
            changed = self.changed_files.copy()
            created = self.created_files.copy()

            self.deleted_files.clear()
            self.changed_files.clear()
            self.created_files.clear()
'''
OM = '''        with self.lock:
            if event.src_path not in self.created_files:
                self.changed_files.add(event.src_path)
            self.project_is_unbuildable = False
            self.last_change_at = time.time()
'''
RIA = '''        with self.lock:
            now = time.time()
            if self.project_is_unbuildable:
                return
            if (
                not self.deleted_files
                and not self.changed_files
                and not self.created_files
            ):
                return
            if now - self.last_change_at < self.debounce_seconds:
                return
'''
CASES = [
 ("bug", "modified test before the lock", [(D, OM, '''        if event.src_path in self.created_files:
            return
        with self.lock:
            self.changed_files.add(event.src_path)
            self.project_is_unbuildable = False
            self.last_change_at = time.time()
''')]),
 ("bug", "debounce before the lock", [(D, RIA, '''        if time.time() - self.last_change_at < self.debounce_seconds:
            return
        with self.lock:
            if self.project_is_unbuildable:
                return
            if (
                not self.deleted_files
                and not self.changed_files
                and not self.created_files
            ):
                return
''')]),
 ("bug", "double checked", [(D, RIA, '''        if self.project_is_unbuildable:
            return
''' + RIA)]),
 ("bug", "success flag without lock", [(D, '''            with self.lock:
                self.project_is_unbuildable = False
''', '''            self.project_is_unbuildable = False
''')]),
 ("bug", "put back one set outside", [(D, '''                        self.deleted_files.add(file)
                self.project_is_unbuildable = True
''', '''                        self.deleted_files.add(file)
            self.project_is_unbuildable = True
''')]),
 ("bug", "alias survives", [(D, "deleted = self.deleted_files.copy()", "deleted = self.deleted_files")]),
 ("bug", "early return leaks", [(D, '''        with self.lock:
            if event.src_path in self.deleted_files:
                self.deleted_files.remove(event.src_path)
                self.changed_files.add(event.src_path)
            else:
                self.created_files.add(event.src_path)
            self.project_is_unbuildable = False
            self.last_change_at = time.time()
''', '''        self.lock.acquire()
        if event.src_path in self.deleted_files:
            self.deleted_files.remove(event.src_path)
            self.changed_files.add(event.src_path)
        elif event.src_path in self.created_files:
            return
        else:
            self.created_files.add(event.src_path)
        self.project_is_unbuildable = False
        self.last_change_at = time.time()
        self.lock.release()
''')]),
 ("bug", "plain lock", [(D, "self.lock = threading.RLock()", "self.lock = threading.Lock()")]),
 ("bug", "time outside", [(D, OM, '''        with self.lock:
            if event.src_path not in self.created_files:
                self.changed_files.add(event.src_path)
            self.project_is_unbuildable = False
        self.last_change_at = time.time()
''')]),
 ("bug", "dev peeks", [(D, "            event_handler.rebuild_if_appropriate()\n", "            if event_handler.created_files:\n                logger.debug('pending')\n            event_handler.rebuild_if_appropriate()\n")]),
 ("bug", "log outside", [(D, '            logger.exception("Error rebuilding")\n', '            logger.exception("Error rebuilding, {} pending", len(self.changed_files))\n')]),
 ("bug", "lock replaced", [(D, '                self.project_is_unbuildable = True\n        finally:\n', '                self.project_is_unbuildable = True\n        finally:\n            self.lock = threading.RLock()\n')]),
 ("bug", "lock per call", [(D, OM, OM.replace("with self.lock:", "with threading.RLock():"))]),
 ("bug", "second lock", [(D, "self.lock = threading.RLock()\n", "self.lock = threading.RLock()\n        self.time_lock = threading.RLock()\n"), (D, OM, '''        with self.lock:
            if event.src_path not in self.created_files:
                self.changed_files.add(event.src_path)
            self.project_is_unbuildable = False
        with self.time_lock:
            self.last_change_at = time.time()
''')]),
 ("bug", "non blocking", [(D, OM, '''        self.lock.acquire(False)
        try:
            if event.src_path not in self.created_files:
                self.changed_files.add(event.src_path)
            self.project_is_unbuildable = False
            self.last_change_at = time.time()
        finally:
            self.lock.release()
''')]),
 ("bug", "timer flush", [(D, OM, OM + "        threading.Timer(1, self._note, args=(event.src_path,)).start()\n\n    def _note(self, path):\n        self.changed_files.discard(path)\n")]),
 ("same", "acquire and finally", [(D, OM, '''        self.lock.acquire()
        try:
            if event.src_path not in self.created_files:
                self.changed_files.add(event.src_path)
            self.project_is_unbuildable = False
            self.last_change_at = time.time()
        finally:
            self.lock.release()
''')]),
 ("same", "helpers", [(D, TAKE, "            deleted, changed, created = self._take()\n"), (D, "    def rebuild_if_appropriate(self):", '''    def _take(self):
        taken = (set(self.deleted_files), set(self.changed_files), set(self.created_files))
        for s in (self.deleted_files, self.changed_files, self.created_files):
            s.clear()
        return taken

    def _touched(self):
        self.project_is_unbuildable = False
        self.last_change_at = time.time()

    def rebuild_if_appropriate(self):'''), (D, OM, '''        with self.lock:
            if event.src_path not in self.created_files:
                self.changed_files.add(event.src_path)
            self._touched()
''')]),
 ("same", "swap", [(D, TAKE, '''            deleted, self.deleted_files = self.deleted_files, set()
            changed, self.changed_files = self.changed_files, set()
            created, self.created_files = self.created_files, set()
''')]),
 ("same", "manager", [(D, "    def rebuild_if_appropriate(self):", '''    @contextlib.contextmanager
    def _note(self):
        with self.lock:
            yield
            self.project_is_unbuildable = False
            self.last_change_at = time.time()

    def rebuild_if_appropriate(self):'''), (D, OM, '''        with self._note():
            if event.src_path not in self.created_files:
                self.changed_files.add(event.src_path)
'''), (D, "import threading\n", "import contextlib\nimport threading\n")]),
 ("same", "local lock", [(D, OM, "        lock = self.lock\n" + OM.replace("with self.lock:", "with lock:"))]),
 ("same", "has pending helper", [(D, RIA, '''        with self.lock:
            now = time.time()
            if self.project_is_unbuildable or not self._any() or now - self.last_change_at < self.debounce_seconds:
                return
'''), (D, "    def rebuild_if_appropriate(self):", '''    def _any(self):
        return any((self.deleted_files, self.changed_files, self.created_files))

    def rebuild_if_appropriate(self):''')]),
 ("same", "try lock", [(D, OM, '''        while not self.lock.acquire(timeout=1):
            logger.debug("waiting")
        try:
            if event.src_path not in self.created_files:
                self.changed_files.add(event.src_path)
            self.project_is_unbuildable = False
            self.last_change_at = time.time()
        finally:
            self.lock.release()
''')]),
 ("same", "record class", [(D, '''        self.deleted_files: Set[str] = set()
        self.changed_files: Set[str] = set()
        self.created_files: Set[str] = set()
''', '''        self.pending = Pending()
'''), (D, "class DevEventHandler(", '''class Pending:
    def __init__(self):
        self.deleted: Set[str] = set()
        self.changed: Set[str] = set()
        self.created: Set[str] = set()

    def modified(self, path):
        if path not in self.created:
            self.changed.add(path)


class DevEventHandler('''), (D, OM, '''        with self.lock:
            self.pending.modified(event.src_path)
            self.project_is_unbuildable = False
            self.last_change_at = time.time()
'''), (D, "self.deleted_files", "self.pending.deleted", 1), (D, "self.changed_files", "self.pending.changed", 1), (D, "self.created_files", "self.pending.created", 1)]),
('same', 'dev helpers', [('runners/dev.py', '            deleted = self.deleted_files.copy()\n            changed = self.changed_files.copy()\n            created = self.created_files.copy()\n\n            self.deleted_files.clear()\n            self.changed_files.clear()\n            self.created_files.clear()\n\n        self.rebuild(deleted, changed, created)\n', '            pending = self._take()\n\n        self.rebuild(*pending)\n\n    def _take(self):\n        taken = (self.deleted_files, self.changed_files, self.created_files)\n        self.deleted_files = set()\n        self.changed_files = set()\n        self.created_files = set()\n        return taken\n'), ('runners/dev.py', '            with self.lock:\n                for file in changed:\n                    if os.path.lexists(file):\n                        if file not in self.created_files:\n                            self.changed_files.add(file)\n                        if file in self.deleted_files:\n                            self.deleted_files.remove(file)\n                for file in created:\n                    if os.path.lexists(file):\n                        if file not in self.changed_files:\n                            self.created_files.add(file)\n                        if file in self.deleted_files:\n                            self.deleted_files.remove(file)\n                for file in deleted:\n                    if not os.path.lexists(file):\n                        if file in self.changed_files:\n                            self.changed_files.remove(file)\n                        if file in self.created_files:\n                            self.created_files.remove(file)\n                        self.deleted_files.add(file)\n                self.project_is_unbuildable = True\n', '            self._put_back(deleted, changed, created)\n'), ('runners/dev.py', '    def on_modified(self', '    def _put_back(self, deleted, changed, created):\n        with self.lock:\n            for file in changed:\n                if not os.path.lexists(file):\n                    continue\n                self.deleted_files.discard(file)\n                if file not in self.created_files:\n                    self.changed_files.add(file)\n            for file in created:\n                if not os.path.lexists(file):\n                    continue\n                self.deleted_files.discard(file)\n                if file not in self.changed_files:\n                    self.created_files.add(file)\n            for file in deleted:\n                if os.path.lexists(file):\n                    continue\n                self.deleted_files.add(file)\n                self.changed_files.discard(file)\n                self.created_files.discard(file)\n            self.project_is_unbuildable = True\n\n    def on_modified(self')]),
]
