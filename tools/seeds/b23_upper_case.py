PROPERTY = 'C06'
NEEDS = 'a stylesheet whose suffix is not in lower case'
BREAKS = 'the scan treats the file as a plain copy, while the build rewrites it as a stylesheet'
EDITS = [('build/build_file.py', """    elif relpath.endswith(".css"):""", """    elif relpath.lower().endswith(".css"):""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

import vanillaplusjs.runners.init as init, vanillaplusjs.runners.build as build, io, contextlib
from loguru import logger
logger.remove()
def put(rel, text):
    p = os.path.join(d, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="\n") as f: f.write(text)
def get(rel):
    return open(os.path.join(d, rel)).read()
def run(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        build.main(["--folder", d, *a])
with contextlib.redirect_stdout(io.StringIO()):
    init.main(["--folder", d])

from vanillaplusjs.build.build_context import BuildContext
from vanillaplusjs.constants import PROCESSOR_VERSION
put("src/public/css/a.CSS", "a { & b { color: red } }")
run()
sys.exit(0 if get("out/www/css/a.CSS") == get("src/public/css/a.CSS") else 1)
'''
