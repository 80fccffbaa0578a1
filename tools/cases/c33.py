D = "runners/dev.py"
RN = "runners/run.py"
BL = "runners/build.py"
C = "build/cold_incremental_rebuild.py"
O = "build/html/manips/outline.py"
S = "http_server.py"
UNL = '''    finally:
        try:
            os.unlink(temp_path)
        except FileNotFoundError:
            pass
'''
REN = '''        os.rename(temp_path, os.path.join(context.folder, external_file.relpath))
'''
RM = '''            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
'''
NOW = '''    try:
        with tempfile.TemporaryDirectory() as folder:
            target = os.path.join(folder, "target.txt")
            with open(target, "w") as f:
                f.write("test")

            os.symlink(target, os.path.join(folder, "link.txt"))
        return True
    except OSError:
        logger.debug("Symlinks disabled (unsupported)")
        return False
'''
DET = '''    try:
        with open("___symlink_test___.txt", "w") as f:
            f.write("test")

        os.symlink("___symlink_test___.txt", "___symlink_test___2.txt")
        return True
    except OSError:
        logger.debug("Symlinks disabled (unsupported)")
        return False
    finally:
        if os.path.exists("___symlink_test___2.txt"):
            os.remove("___symlink_test___2.txt")
        os.remove("___symlink_test___.txt")
'''
FIN = '''    finally:
        os.chdir(abs_cwd)
'''
RBODY = '''        while True:
            time.sleep(0.1)
            if not server_thread.is_alive():
                break
        logger.info("Server stopped")
    finally:
        os.chdir(abs_cwd)
'''
STOP = '''            if not observer.is_alive():
                logger.warning("Observer stopped unexpectedly. Shutting down server...")
                shutdown_event.set()
                break
'''
HOST = '''    thread.start()
    try:
        while not server.started:
            time.sleep(1e-3)
        yield
    finally:
        server.should_exit = True
        thread.join()
'''
CASES = [
    ("bug", "run: back only on success", [(RN, FIN, "    except OSError:\n        raise\n    os.chdir(abs_cwd)\n")]),
    ("bug", "dev: back only on success", [(D, "    finally:\n        os.chdir(abs_cwd)\n\n\nclass", "    except KeyboardInterrupt:\n        logger.info(\"Interrupted\")\n    os.chdir(abs_cwd)\n\n\nclass")]),
    ("bug", "dev: back only on errors", [(D, "    finally:\n        os.chdir(abs_cwd)\n\n\nclass", "    except BaseException:\n        os.chdir(abs_cwd)\n        raise\n\n\nclass")]),
    ("bug", "dev: early return before try", [(D, '''    os.chdir(os.path.join(folder, "out", "www"))
    try:
        logger.info(f"Running server''', '''    os.chdir(os.path.join(folder, "out", "www"))
    if not os.path.exists("index.html"):
        logger.warning("nothing to serve")
        return
    try:
        logger.info(f"Running server''')]),
    ("bug", "run: goes back to the folder", [(RN, FIN, "    finally:\n        os.chdir(os.path.abspath(folder))\n")]),
    ("bug", "run: cwd read after", [(RN, '''    abs_cwd = os.path.abspath(os.getcwd())
    os.chdir(os.path.join(folder, "out", "www"))
''', '''    os.chdir(os.path.join(folder, "out", "www"))
    abs_cwd = os.path.abspath(os.getcwd())
''')]),
    ("bug", "run: goes back only when a flag is set", [(RN, RBODY, RBODY.replace("        os.chdir(abs_cwd)\n", "        if stopped:\n            os.chdir(abs_cwd)\n").replace('        logger.info("Server stopped")\n', '        logger.info("Server stopped")\n        stopped = True\n')), (RN, "    abs_cwd =", "    stopped = False\n    abs_cwd =")]),
    ("bug", "build in the folder and stay there", [(BL, '''    context = BuildContext(folder, dev=dev, symlinks=symlinks)
''', '''    previous = os.getcwd()
    os.chdir(folder)
    if symlinks is None:
        symlinks = detect_symlink_support()
    context = BuildContext(".", dev=dev, symlinks=symlinks)
    if not os.path.exists(context.config_file):
        print("Run vanillaplusjs init first")
        sys.exit(1)
    os.chdir(previous)
    context = BuildContext(folder, dev=dev, symlinks=symlinks)
''')]),
    ("bug", "probe: removed on success only", [(BL, NOW, '''    try:
        with open("___symlink_test___.txt", "w") as f:
            f.write("test")

        os.symlink("___symlink_test___.txt", "___symlink_test___2.txt")
        os.remove("___symlink_test___2.txt")
        os.remove("___symlink_test___.txt")
        return True
    except OSError:
        logger.debug("Symlinks disabled (unsupported)")
        return False
''')]),
    ("bug", "probe: target removed first", [(BL, NOW, DET.replace('''        if os.path.exists("___symlink_test___2.txt"):
            os.remove("___symlink_test___2.txt")
        os.remove("___symlink_test___.txt")
''', '''        os.remove("___symlink_test___.txt")
        if os.path.exists("___symlink_test___2.txt"):
            os.remove("___symlink_test___2.txt")
'''))]),
    ("bug", "probe: link not removed", [(BL, NOW, DET.replace('''        if os.path.exists("___symlink_test___2.txt"):
            os.remove("___symlink_test___2.txt")
''', ''))]),
    ("bug", "probe: either removed", [(BL, NOW, DET.replace('''        os.remove("___symlink_test___.txt")
''', '''        else:
            os.remove("___symlink_test___.txt")
'''))]),
    ("bug", "download: removed on success only", [(C, UNL, '''    except requests.RequestException:
        raise
''')]),
    ("bug", "download: removed on integrity mismatch only", [(C, UNL, '''    except IntegrityMismatchException:
        os.unlink(temp_path)
        raise
''')]),
    ("bug", "download: copied", [(C, UNL, '''    except BaseException:
        try:
            os.unlink(temp_path)
        except FileNotFoundError:
            pass
        raise
'''), (C, REN, REN.replace("os.rename", "shutil.copyfile")), (C, "import secrets\n", "import secrets\nimport shutil\n")]),
    ("bug", "outline: removed in build only", [(O, RM, "            if self.mode == \"build\":\n                os.remove(os.path.join(self.context.folder, self.outlining_to_path))\n")]),
    ("bug", "outline: empty script returns early", [(O, '''            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
''', '''            if self.mode == "scan" and not scan_result.dependencies:
                self.outlining = None
                return []
            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
''')]),
    ("bug", "outline: wrong file removed", [(O, RM, '''            os.remove(
                os.path.join(self.context.folder, self.script_src_folder, f"{self.script_outline_count}.js")
            )
''')]),
    ("bug", "server not joined", [(S, "        server.should_exit = True\n        thread.join()\n", "        server.should_exit = True\n")]),
    ("bug", "server joined but not told", [(S, "        server.should_exit = True\n        thread.join()\n", "        thread.join()\n")]),
    ("bug", "server told after join", [(S, "        server.should_exit = True\n        thread.join()\n", "        thread.join()\n        server.should_exit = True\n")]),
    ("bug", "server stopped on success only", [(S, HOST, '''    thread.start()
    while not server.started:
        time.sleep(1e-3)
    yield
    server.should_exit = True
    thread.join()
''')]),
    ("bug", "server joined only once started", [(S, "        thread.join()\n", "        if server.started:\n            thread.join()\n")]),
    ("bug", "server told with a condition", [(S, "        server.should_exit = True\n", "        if server.started:\n            server.should_exit = True\n")]),
    ("bug", "dev: thread not joined", [(D, "        server_thread.join()\n", "")]),
    ("bug", "dev: server not told when the observer died", [(D, "                shutdown_event.set()\n                break\n", "                break\n")]),
    ("bug", "dev: observer not joined", [(D, "            observer.join()\n", "")]),
    ("bug", "dev: observer not stopped", [(D, "            observer.stop()\n            observer.join()\n", "            observer.join()\n")]),
    ("bug", "dev: observer left running after the server", [(D, '''        if observer.is_alive():
            observer.stop()
''', '''        if observer.is_alive() and not shutdown_event.is_set():
            observer.stop()
''')]),
    ("bug", "run: interrupt does not stop", [(RN, "            shutdown_event.set()\n", "            pass\n")]),
    ("bug", "run: does not wait", [(RN, '''        while True:
            time.sleep(0.1)
            if not server_thread.is_alive():
                break
''', '''        shutdown_event.wait()
''')]),
    # ---- refactorings
    ("same", "run: join instead of polling", [(RN, '''        while True:
            time.sleep(0.1)
            if not server_thread.is_alive():
                break
''', '''        server_thread.join()
''')]),
    ("same", "run: loop condition", [(RN, '''        while True:
            time.sleep(0.1)
            if not server_thread.is_alive():
                break
''', '''        while server_thread.is_alive():
            time.sleep(0.1)
''')]),
    ("same", "run: context manager helper", [(RN, "def run_server(", '''@contextlib.contextmanager
def working_directory(path: str):
    previous = os.path.abspath(os.getcwd())
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(previous)


def run_server('''), (RN, "import argparse\n", "import argparse\nimport contextlib\n"),
        (RN, '''    abs_cwd = os.path.abspath(os.getcwd())
    os.chdir(os.path.join(folder, "out", "www"))
    try:
''', '''    with working_directory(os.path.join(folder, "out", "www")):
'''), (RN, '''    finally:
        os.chdir(abs_cwd)
''', "")]),
    ("same", "run: helper enters and returns the old one", [(RN, "def run_server(", '''def enter(path: str) -> str:
    previous = os.getcwd()
    os.chdir(path)
    return previous


def run_server('''), (RN, '''    abs_cwd = os.path.abspath(os.getcwd())
    os.chdir(os.path.join(folder, "out", "www"))
''', '''    abs_cwd = enter(os.path.join(folder, "out", "www"))
''')]),
    ("same", "run: body extracted", [(RN, "def run_server(", '''def serve_until_interrupted(host: str, port: int) -> None:
    logger.info(f"Running server on {host}:{port}")
    shutdown_event = threading.Event()

    def handler(signal, frame):
        logger.info("Shutting down server...")
        shutdown_event.set()

    signal.signal(signal.SIGINT, handler)
    server_thread = threading.Thread(
        target=host_static_files_with_event,
        kwargs=dict(folder=".", host=host, port=port, event=shutdown_event),
        daemon=True,
    )
    server_thread.start()
    while server_thread.is_alive():
        time.sleep(0.1)
    logger.info("Server stopped")


def run_server('''), (RN, '''        logger.info(f"Running server on {host}:{port}")
        shutdown_event = threading.Event()

        def handler(signal, frame):
            logger.info("Shutting down server...")
            shutdown_event.set()

        signal.signal(signal.SIGINT, handler)
        server_thread = threading.Thread(
            target=host_static_files_with_event,
            kwargs={
                "folder": ".",
                "host": host,
                "port": port,
                "event": shutdown_event,
            },
        )
        server_thread.daemon = True
        server_thread.start()
        while True:
            time.sleep(0.1)
            if not server_thread.is_alive():
                break
        logger.info("Server stopped")
''', "        serve_until_interrupted(host, port)\n")]),
    ("same", "run: args instead of kwargs", [(RN, '''            kwargs={
                "folder": ".",
                "host": host,
                "port": port,
                "event": shutdown_event,
            },
''', '''            args=(".", host, port, shutdown_event),
''')]),
    ("same", "run: lambda handler", [(RN, '''        def handler(signal, frame):
            logger.info("Shutting down server...")
            shutdown_event.set()

        signal.signal(signal.SIGINT, handler)
''', '''        signal.signal(signal.SIGINT, lambda *_: shutdown_event.set())
''')]),
    ("same", "dev: loop condition", [(D, '''        while True:
            time.sleep(0.1)
            if not server_thread.is_alive():
                break
''' + STOP + '''            event_handler.rebuild_if_appropriate()
''', '''        time.sleep(0.1)
        while server_thread.is_alive():
            if not observer.is_alive():
                logger.warning("Observer stopped unexpectedly. Shutting down server...")
                shutdown_event.set()
                break
            event_handler.rebuild_if_appropriate()
            time.sleep(0.1)
''')]),
    ("same", "dev: stop the observer in a helper", [(D, '''        if observer.is_alive():
            observer.stop()
            observer.join()
            logger.info("Observer stopped")
''', '''        stop_observer(observer)
'''), (D, "class DevEventHandler", '''def stop_observer(observer) -> None:
    if not observer.is_alive():
        return
    observer.stop()
    observer.join()
    logger.info("Observer stopped")


class DevEventHandler''')]),
    ("same", "dev: observer died flag", [(D, STOP, '''            observer_died = not observer.is_alive()
            if observer_died:
                logger.warning("Observer stopped unexpectedly. Shutting down server...")
                shutdown_event.set()
                break
''')]),
    ("same", "dev: run branch as else", [(D, '''    abs_cwd = os.path.abspath(os.getcwd())
    abs_folder = os.path.abspath(folder)
''', '''    abs_folder = os.path.abspath(folder)
    abs_cwd = os.getcwd()
''')]),
    ("same", "probe: lexists and order", [(BL, NOW, DET.replace('''        if os.path.exists("___symlink_test___2.txt"):
            os.remove("___symlink_test___2.txt")
        os.remove("___symlink_test___.txt")
''', '''        os.remove("___symlink_test___.txt")
        if os.path.lexists("___symlink_test___2.txt"):
            os.remove("___symlink_test___2.txt")
'''))]),
    ("same", "probe: loop", [(BL, NOW, DET.replace('''        if os.path.exists("___symlink_test___2.txt"):
            os.remove("___symlink_test___2.txt")
        os.remove("___symlink_test___.txt")
''', '''        for path in ("___symlink_test___2.txt", "___symlink_test___.txt"):
            if os.path.lexists(path):
                os.remove(path)
'''))]),
    ("same", "probe: temporary directory", [(BL, NOW, '''    with tempfile.TemporaryDirectory() as folder:
        target = os.path.join(folder, "target.txt")
        try:
            with open(target, "w") as f:
                f.write("test")
            os.symlink(target, os.path.join(folder, "link.txt"))
            return True
        except OSError:
            logger.debug("Symlinks disabled (unsupported)")
            return False
'''), (BL, "import argparse\n", "import argparse\nimport tempfile\n")]),
    ("same", "probe: constants and result variable", [(BL, NOW, '''    target = "___symlink_test___.txt"
    link = "___symlink_test___2.txt"
    supported = True
    try:
        with open(target, "w") as f:
            f.write("test")
        os.symlink(target, link)
    except OSError:
        logger.debug("Symlinks disabled (unsupported)")
        supported = False
    finally:
        if os.path.exists(link):
            os.remove(link)
        os.remove(target)
    return supported
''')]),
    ("same", "probe: nested try", [(BL, NOW, '''    with open("___symlink_test___.txt", "w") as f:
        pass
    try:
        os.symlink("___symlink_test___.txt", "___symlink_test___2.txt")
    except OSError:
        logger.debug("Symlinks disabled (unsupported)")
        return False
    else:
        os.remove("___symlink_test___2.txt")
        return True
    finally:
        os.remove("___symlink_test___.txt")
''')]),
    ("same", "download: helper removing", [(C, UNL, '''    finally:
        _discard(temp_path)
'''), (C, "def ensure_integrity(", '''def _discard(path: str) -> None:
    try:
        os.unlink(path)
    except FileNotFoundError:
        pass


def ensure_integrity(''')]),
    ("same", "download: lexists", [(C, UNL, '''    finally:
        if os.path.lexists(temp_path):
            os.unlink(temp_path)
''')]),
    ("same", "download: fetching extracted", [(C, '''        response = requests.get(external_file.url, stream=True)
        response.raise_for_status()
        with open(temp_path, "wb") as f:
            for chunk in response.iter_content(chunk_size=8192):
                f.write(chunk)
''', '''        _fetch(external_file.url, temp_path)
'''), (C, "def ensure_integrity(", '''def _fetch(url: str, path: str) -> None:
    response = requests.get(url, stream=True)
    response.raise_for_status()
    with open(path, "wb") as f:
        for chunk in response.iter_content(chunk_size=8192):
            f.write(chunk)


def ensure_integrity(''')]),
    ("same", "download: contextlib.suppress", [(C, UNL, '''    finally:
        with contextlib.suppress(FileNotFoundError):
            os.unlink(temp_path)
'''), (C, "import secrets\n", "import secrets\nimport contextlib\n")]),
    ("same", "outline: removal extracted", [(O, RM, "            self._discard_source()\n"), (O, "    def _should_outline_script(", '''    def _discard_source(self) -> None:
        os.remove(os.path.join(self.context.folder, self.outlining_to_path))

    def _should_outline_script(''')]),
    ("same", "outline: local path", [(O, RM, '''            generated = self.outlining_to_path
            os.remove(os.path.join(self.context.folder, generated))
''')]),
    ("same", "outline: processing extracted", [(O, '''            if self.mode == "scan":
                scan_result = handler.scan_file(self.context, self.outlining_to_path)
                self.dependencies.update(scan_result.dependencies)
                self.produces.update(scan_result.produces)
            else:
                build_result = handler.build_file(self.context, self.outlining_to_path)
                self.children.update(build_result.children)
                self.produced.update(build_result.produced)
                self.reused.update(build_result.reused)
''', '''            self._process(handler)
'''), (O, "    def _should_outline_script(", '''    def _process(self, handler: Handler) -> None:
        if self.mode == "scan":
            scan_result = handler.scan_file(self.context, self.outlining_to_path)
            self.dependencies.update(scan_result.dependencies)
            self.produces.update(scan_result.produces)
        else:
            build_result = handler.build_file(self.context, self.outlining_to_path)
            self.children.update(build_result.children)
            self.produced.update(build_result.produced)
            self.reused.update(build_result.reused)

    def _should_outline_script(''')]),
    ("same", "server: stopping extracted", [(S, "        server.should_exit = True\n        thread.join()\n", "        _stop(server, thread)\n"), (S, "def host_static_files_with_event(", '''def _stop(server, thread) -> None:
    server.should_exit = True
    thread.join()


def host_static_files_with_event(''')]),
    ("same", "server: wait with alive", [(S, "        thread.join()\n", "        while thread.is_alive():\n            thread.join(1)\n")]),
]

CASES += [("same", 'r7: dev watch helper', [('runners/dev.py', '        while True:\n            time.sleep(0.1)\n            if not server_thread.is_alive():\n                break\n            if not observer.is_alive():\n                logger.warning("Observer stopped unexpectedly. Shutting down server...")\n                shutdown_event.set()\n                break\n            event_handler.rebuild_if_appropriate()\n        server_thread.join()\n', '        time.sleep(0.1)\n        while server_thread.is_alive():\n            if observer.is_alive():\n                event_handler.rebuild_if_appropriate()\n                time.sleep(0.1)\n            else:\n                logger.warning("Observer stopped unexpectedly. Shutting down server...")\n                shutdown_event.set()\n                break\n        server_thread.join()\n')])]

CASES += [("same", 'r8: server stop helper', [('http_server.py', '    config = uvicorn.Config(app, host=host, port=port, log_level="info")\n    server = uvicorn.Server(config=config)\n\n    thread = threading.Thread(target=server.run)\n    thread.daemon = True\n    thread.start()\n    try:\n        while not server.started:\n            time.sleep(1e-3)\n        yield\n    finally:\n        server.should_exit = True\n        thread.join()\n', '    server = uvicorn.Server(\n        config=uvicorn.Config(app, host=host, port=port, log_level="info")\n    )\n\n    thread = threading.Thread(target=server.run, daemon=True)\n    thread.start()\n    try:\n        wait_until_started(server)\n        yield\n    finally:\n        stop(server, thread)\n\n\ndef wait_until_started(server: uvicorn.Server) -> None:\n    while not server.started:\n        time.sleep(1e-3)\n\n\ndef stop(server: uvicorn.Server, thread: threading.Thread) -> None:\n    server.should_exit = True\n    thread.join()\n')])]
