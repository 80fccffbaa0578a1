D = "runners/dev.py"
TAKE = '''            deleted = self.deleted_files.copy()
            changed = self.changed_files.copy()
            created = self.created_files.copy()

            self.deleted_files.clear()
            self.changed_files.clear()
            self.created_files.clear()
'''
CLEAR = '''
            self.deleted_files.clear()
            self.changed_files.clear()
            self.created_files.clear()
'''
OM = '''        with self.lock:
            if event.src_path not in self.created_files:
                self.changed_files.add(event.src_path)
            self.project_is_unbuildable = False
            self.last_change_at = time.time()
'''
PUT = '''                for file in changed:
                    if os.path.lexists(file):
                        if file not in self.created_files:
                            self.changed_files.add(file)
                        if file in self.deleted_files:
                            self.deleted_files.remove(file)
'''
PUTC = PUT.replace("in changed:", "in created:").replace("changed_files", "x").replace("created_files", "changed_files").replace("x.add", "created_files.add")
PUTD = '''                for file in deleted:
                    if not os.path.lexists(file):
                        if file in self.changed_files:
                            self.changed_files.remove(file)
                        if file in self.created_files:
                            self.created_files.remove(file)
                        self.deleted_files.add(file)
'''
BUILD = '''        try:
            loop.run_until_complete(
                hot_incremental_rebuild(
                    *self.prepare_rebuild(deleted, changed, created)
                )
            )
'''
CASES = [
 ("bug", "clear later", [(D, CLEAR, ""), (D, "        self.rebuild(deleted, changed, created)\n", "        self.rebuild(deleted, changed, created)\n        with self.lock:\n            self.deleted_files.clear()\n            self.changed_files.clear()\n            self.created_files.clear()\n")]),
 ("bug", "two sections", [(D, CLEAR, "\n        with self.lock:\n            self.deleted_files.clear()\n            self.changed_files.clear()\n            self.created_files.clear()\n")]),
 ("bug", "prepare outside", [(D, BUILD, '''        prepared = self.prepare_rebuild(deleted, changed, created)
        try:
            loop.run_until_complete(
                hot_incremental_rebuild(
                    *prepared
                )
            )
''')]),
 ("bug", "narrow except", [(D, "        except Exception:\n            logger.exception(", "        except OSError:\n            logger.exception(")]),
 ("bug", "created forgotten", [(D, '''                for file in created:
                    if os.path.lexists(file):
                        if file not in self.changed_files:
                            self.created_files.add(file)
                        if file in self.deleted_files:
                            self.deleted_files.remove(file)
''', '')]),
 ("bug", "break in put back", [(D, PUT, PUT.replace("                    if os.path.lexists(file):\n", "                    if not os.path.lexists(file):\n                        break\n                    if os.path.lexists(file):\n"))]),
 ("bug", "wrong polarity", [(D, "                    if not os.path.lexists(file):\n", "                    if os.path.lexists(file):\n")]),
 ("bug", "not marked", [(D, "                self.project_is_unbuildable = True\n        finally", "                pass\n        finally")]),
 ("bug", "mark ignored", [(D, "            if self.project_is_unbuildable:\n                return\n", "")]),
 ("bug", "modified keeps mark", [(D, OM, OM.replace("            self.project_is_unbuildable = False\n", ""))]),
 ("bug", "modified drops while unbuildable", [(D, OM, "        with self.lock:\n            if self.project_is_unbuildable:\n                return\n" + OM[len("        with self.lock:\n"):])]),
 ("bug", "moved only created", [(D, "            self.on_deleted(FileDeletedEvent(event.src_path))\n", "")]),
 ("bug", "put back replaces", [(D, PUT, "                self.changed_files = {f for f in changed if os.path.lexists(f)}\n")]),
 ("bug", "missing graph returns", [(D, "        if os.path.exists(context.dependency_graph_file):\n", "        if not os.path.exists(context.config_file):\n            raise FileNotFoundError(context.config_file)\n        if os.path.exists(context.dependency_graph_file):\n"), (D, BUILD, '''        try:
            args = self.prepare_rebuild(deleted, changed, created)
        except FileNotFoundError:
            logger.warning("not ready")
            loop.close()
            return
        try:
            loop.run_until_complete(hot_incremental_rebuild(*args))
''')]),
 ("bug", "only small events", [(D, PUT, PUT.replace("                    if os.path.lexists(file):\n", "                    if os.path.lexists(file) and file.endswith('.html'):\n"))]),
 ("bug", "loop stops", [(D, "            event_handler.rebuild_if_appropriate()\n", "            if event_handler.rebuild_if_appropriate() is False:\n                break\n"), (D, "                self.project_is_unbuildable = True\n        finally", "                self.project_is_unbuildable = True\n            return False\n        finally"), (D, "        self.rebuild(deleted, changed, created)\n", "        return self.rebuild(deleted, changed, created)\n")]),
 ("bug", "stat may fail in put back", [(D, PUT, PUT.replace("                    if os.path.lexists(file):\n", "                    if os.lstat(file).st_size > 0:\n"))]),
 ("bug", "mark then unmark", [(D, "                self.project_is_unbuildable = True\n        finally:\n", "                self.project_is_unbuildable = True\n        finally:\n            with self.lock:\n                self.project_is_unbuildable = False\n")]),
 ("bug", "deleted not handed", [(D, "deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)", "deleted_files = []")]),
 ("same", "swap", [(D, TAKE, '''            deleted, self.deleted_files = self.deleted_files, set()
            changed, self.changed_files = self.changed_files, set()
            created, self.created_files = self.created_files, set()
''')]),
 ("same", "take helper", [(D, TAKE, "            deleted, changed, created = self._take()\n"), (D, "    def rebuild_if_appropriate(self):", '''    def _take(self):
        taken = (set(self.deleted_files), set(self.changed_files), set(self.created_files))
        for s in (self.deleted_files, self.changed_files, self.created_files):
            s.clear()
        return taken

    def rebuild_if_appropriate(self):''')]),
 ("same", "put back helper", [(D, PUT, "                self._put_back(changed)\n"), (D, "    def rebuild_if_appropriate(self):", '''    def _put_back(self, changed):
        for file in changed:
            if not os.path.lexists(file):
                continue
            self.deleted_files.discard(file)
            if file in self.created_files:
                continue
            self.changed_files.add(file)

    def rebuild_if_appropriate(self):''')]),
 ("same", "put back update", [(D, PUT, '''                self.changed_files.update(f for f in changed if os.path.lexists(f) and f not in self.created_files)
                for file in changed:
                    if os.path.lexists(file):
                        self.deleted_files.discard(file)
''')]),
 ("same", "prepared in try", [(D, BUILD, '''        try:
            prepared = self.prepare_rebuild(deleted, changed, created)
            loop.run_until_complete(hot_incremental_rebuild(*prepared))
''')]),
 ("same", "set ops", [(D, PUTD, '''                for file in deleted:
                    if os.path.lexists(file):
                        continue
                    for pending in (self.changed_files, self.created_files):
                        pending.discard(file)
                    self.deleted_files.add(file)
''')]),
 ("same", "success in else", [(D, '''            with self.lock:
                self.project_is_unbuildable = False
        except Exception:
''', '''        except Exception:
'''), (D, '''                self.project_is_unbuildable = True
        finally:
''', '''                self.project_is_unbuildable = True
        else:
            with self.lock:
                self.project_is_unbuildable = False
        finally:
''')]),
 ("same", "failed flag", [(D, '''        except Exception:
            logger.exception("Error rebuilding")
            with self.lock:
''', '''        except Exception:
            logger.exception("Error rebuilding")
            failed = True
        else:
            failed = False
        asyncio.set_event_loop(None)
        loop.close()
        if failed:
            with self.lock:
'''), (D, '''                self.project_is_unbuildable = True
        finally:
            asyncio.set_event_loop(None)
            loop.close()
''', '''                self.project_is_unbuildable = True
''')]),
 ("same", "moved inline", [(D, '''            self.on_deleted(FileDeletedEvent(event.src_path))
            self.on_created(FileCreatedEvent(event.dest_path))
''', '''            for ev, handle in ((FileDeletedEvent(event.src_path), self.on_deleted), (FileCreatedEvent(event.dest_path), self.on_created)):
                handle(ev)
''')]),
("bug","recreated file forgotten",[(D,"""                self.deleted_files.remove(event.src_path)
                self.changed_files.add(event.src_path)
            else:""","""                self.deleted_files.remove(event.src_path)
            else:""")]),
("bug","deletion of a changed file forgotten",[(D,"""                self.changed_files.remove(event.src_path)
                self.deleted_files.add(event.src_path)
            elif""","""                self.changed_files.remove(event.src_path)
            elif""")]),
("bug","mark stays when nothing new is recorded",[(D,"""                self.changed_files.add(event.src_path)
            self.project_is_unbuildable = False""","""                self.changed_files.add(event.src_path)
                self.project_is_unbuildable = False""")]),
("same","deletion with discards",[(D,"""            if event.src_path in self.changed_files:
                self.changed_files.remove(event.src_path)
                self.deleted_files.add(event.src_path)
            elif event.src_path in self.created_files:
                self.created_files.remove(event.src_path)
            else:
                self.deleted_files.add(event.src_path)
""","""            was_created = event.src_path in self.created_files
            self.created_files.discard(event.src_path)
            self.changed_files.discard(event.src_path)
            if not was_created:
                self.deleted_files.add(event.src_path)
""")]),
("same","deletion by trying",[(D,"""            if event.src_path in self.changed_files:
                self.changed_files.remove(event.src_path)
                self.deleted_files.add(event.src_path)
            elif event.src_path in self.created_files:
                self.created_files.remove(event.src_path)
            else:
                self.deleted_files.add(event.src_path)
""","""            try:
                self.created_files.remove(event.src_path)
            except KeyError:
                self.changed_files.discard(event.src_path)
                self.deleted_files.add(event.src_path)
""")]),
("same","creation turned around",[(D,"""            if event.src_path in self.deleted_files:
                self.deleted_files.remove(event.src_path)
                self.changed_files.add(event.src_path)
            else:
                self.created_files.add(event.src_path)
""","""            known = event.src_path in self.deleted_files
            target = self.changed_files if known else self.created_files
            self.deleted_files.discard(event.src_path)
            target.add(event.src_path)
"""),(D,"""            self.project_is_unbuildable = False
            self.last_change_at = time.time()

    def on_deleted""","""            self._touch()

    def _touch(self):
        self.project_is_unbuildable = False
        self.last_change_at = time.time()

    def on_deleted""")]),
('same', 'dev one touch helper', [('runners/dev.py', '            if event.src_path not in self.created_files:\n                self.changed_files.add(event.src_path)\n            self.project_is_unbuildable = False\n            self.last_change_at = time.time()\n', '            if event.src_path not in self.created_files:\n                self.changed_files.add(event.src_path)\n            self._touched()\n\n    def _touched(self):\n        self.last_change_at = time.time()\n        self.project_is_unbuildable = False\n'), ('runners/dev.py', '            if event.src_path in self.deleted_files:\n                self.deleted_files.remove(event.src_path)\n                self.changed_files.add(event.src_path)\n            else:\n                self.created_files.add(event.src_path)\n            self.project_is_unbuildable = False\n            self.last_change_at = time.time()\n', '            path = event.src_path\n            known = path in self.deleted_files\n            if known:\n                self.deleted_files.remove(path)\n            (self.changed_files if known else self.created_files).add(path)\n            self._touched()\n'), ('runners/dev.py', '            if event.src_path in self.changed_files:\n                self.changed_files.remove(event.src_path)\n                self.deleted_files.add(event.src_path)\n            elif event.src_path in self.created_files:\n                self.created_files.remove(event.src_path)\n            else:\n                self.deleted_files.add(event.src_path)\n            self.project_is_unbuildable = False\n            self.last_change_at = time.time()\n', '            self._touched()\n            if event.src_path in self.created_files and event.src_path not in self.changed_files:\n                self.created_files.remove(event.src_path)\n                return\n            self.changed_files.discard(event.src_path)\n            self.deleted_files.add(event.src_path)\n')]),
]

CASES += [("same", 'r7: dev events taken by helper', [('runners/dev.py', '            deleted = self.deleted_files.copy()\n            changed = self.changed_files.copy()\n            created = self.created_files.copy()\n\n            self.deleted_files.clear()\n            self.changed_files.clear()\n            self.created_files.clear()\n\n        self.rebuild(deleted, changed, created)\n', '            events = self._take_events()\n\n        self.rebuild(*events)\n\n    def _take_events(self):\n        """The events so far, which are forgotten; the lock must be held"""\n        events = (self.deleted_files, self.changed_files, self.created_files)\n        self.deleted_files = set()\n        self.changed_files = set()\n        self.created_files = set()\n        return events\n')])]
