PROPERTY = 'C11'
NEEDS = 'a script which imports two files of the same base name'
BREAKS = 'both imports carry the version of the first'
EDITS = [('build/js/manips/hash_imports.py', """        with open(exp_hash_file, "r") as f:
            file_hash = f.read()
""", """        file_hash = self.hashes.get(os.path.basename(exp_hash_file))
        if file_hash is None:
            with open(exp_hash_file, "r") as f:
                file_hash = f.read()
            self.hashes[os.path.basename(exp_hash_file)] = file_hash
"""), ('build/js/manips/hash_imports.py', """        self.children: Optional[Set[str]] = set() if mode == "build" else None

        self.skip_next_import = False
""", """        self.children: Optional[Set[str]] = set() if mode == "build" else None

        self.skip_next_import = False
        self.hashes = {}
""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

import vanillaplusjs.runners.init as init, vanillaplusjs.runners.build as build, io, contextlib
from loguru import logger
logger.remove()
def put(rel, text):
    p = os.path.join(d, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="\n") as f: f.write(text)
def get(rel):
    return open(os.path.join(d, rel)).read()
def run(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        build.main(["--folder", d, *a])
with contextlib.redirect_stdout(io.StringIO()):
    init.main(["--folder", d])

from urllib.parse import quote
put("src/public/js/a/x.js", "export const A = 1;\n")
put("src/public/js/b/x.js", "export const B = 2;\n")
put("src/public/js/m.js", "import { A } from '/js/a/x.js';\nimport { B } from '/js/b/x.js';\n")
run()
m = get("out/www/js/m.js")
print(m)
ok = all(quote(get("out/www/js/%s/x.js.hash" % k)) in m for k in "ab")
sys.exit(0 if ok else 1)
'''
