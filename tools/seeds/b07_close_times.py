PROPERTY = 'C16'
NEEDS = 'a source changed twice within a hundredth of a second, keeping its size'
BREAKS = 'the second change is not noticed, since time stamps less than ten milliseconds apart count as equal'
EDITS = [('build/graph.py', """            and a_node.mtime == mtime
""", """            and abs(a_node.mtime - mtime) < 0.01
""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

import vanillaplusjs.runners.init as init, vanillaplusjs.runners.build as build, io, contextlib
from loguru import logger
logger.remove()
def put(rel, text):
    p = os.path.join(d, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="\n") as f: f.write(text)
def get(rel):
    return open(os.path.join(d, rel)).read()
def run(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        build.main(["--folder", d, *a])
with contextlib.redirect_stdout(io.StringIO()):
    init.main(["--folder", d])

put("src/public/css/a.css", "a{color:red}")
p = os.path.join(d, "src/public/css/a.css")
os.utime(p, (1700000000.25, 1700000000.25))
run()
with open(p, "r+") as f: f.write("a{color:tan}")
os.utime(p, (1700000000.255, 1700000000.255))
run()
sys.exit(0 if "tan" in get("out/www/css/a.css") else 1)
'''
