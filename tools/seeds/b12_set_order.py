PROPERTY = 'C34'
NEEDS = 'two builds in processes with different string hashing, and constants which are overridden'
BREAKS = 'the generated constants script differs from run to run'
EDITS = [('build/handlers/js_constants.py', """        constants = context.js_constants.shared.copy()
""", """        constants = context.js_constants.shared.copy()
        # values which are overridden are listed last
        for key in constants.keys() & (
            context.js_constants.dev if context.dev else context.js_constants.prod
        ).keys():
            constants[key] = constants.pop(key)
""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

import vanillaplusjs.runners.init as init, vanillaplusjs.runners.build as build, io, contextlib
from loguru import logger
logger.remove()
def put(rel, text):
    p = os.path.join(d, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="\n") as f: f.write(text)
def get(rel):
    return open(os.path.join(d, rel)).read()
def run(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        build.main(["--folder", d, *a])
with contextlib.redirect_stdout(io.StringIO()):
    init.main(["--folder", d])

cfg = json.loads(get("vanillaplusjs.json"))
cfg["js_constants"] = {"relpath": "src/public/js/constants.js", "shared": {"K%d" % i: i for i in range(12)}, "dev": {}, "prod": {"K%d" % i: -i for i in range(12)}}
put("vanillaplusjs.json", json.dumps(cfg))
put("src/public/js/constants.js", "")
seen = set()
for seed in "0123":
    for x in ("out", "artifacts"):
        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    subprocess.run([sys.executable, "-c", "import sys; from vanillaplusjs.runners.build import main; main(['--folder', sys.argv[1]])", d], check=True, env=dict(os.environ, PYTHONHASHSEED=seed), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    seen.add(get("out/www/js/constants.js"))
sys.exit(0 if len(seen) == 1 and "K3" in seen.pop() else 1)
'''
