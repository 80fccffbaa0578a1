PROPERTY = 'C08'
NEEDS = 'a script which imports another one of the same folder by a path starting with ./'
BREAKS = 'the importing script does not report the file whose hash it reads, so the page graph misses an edge'
EDITS = [('build/js/manips/hash_imports.py', """        self.children.add(rel_to_root)

""", """        if os.path.dirname(rel_to_root) != os.path.dirname(self.relpath):
            self.children.add(rel_to_root)

""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

import vanillaplusjs.runners.init as init, vanillaplusjs.runners.build as build, io, contextlib
from loguru import logger
logger.remove()
def put(rel, text):
    p = os.path.join(d, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="\n") as f: f.write(text)
def get(rel):
    return open(os.path.join(d, rel)).read()
def run(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        build.main(["--folder", d, *a])
with contextlib.redirect_stdout(io.StringIO()):
    init.main(["--folder", d])

put("src/public/js/x.js", "export const A = 1;\n")
put("src/public/js/m.js", "import { A } from './x.js';\n")
run()
g = json.load(open(os.path.join(d, "out/dependency_graph.json")))
print(g["src/public/js/m.js"])
sys.exit(0 if "src/public/js/x.js" in json.dumps(g["src/public/js/m.js"]) else 1)
'''
