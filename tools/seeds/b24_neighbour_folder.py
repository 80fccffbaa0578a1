PROPERTY = 'C25'
NEEDS = 'a file in a folder whose name begins with public'
BREAKS = 'files of src/publications are published as well'
EDITS = [('build/handlers/copy.py', """    rel_public_folder = f"src{os.path.sep}public{os.path.sep}"
""", """    rel_public_folder = f"src{os.path.sep}public"
"""), ('build/handlers/copy.py', """    return f"out{os.path.sep}www{os.path.sep}{relative_to_public_folder}"
""", """    return os.path.join(
        "out", "www", relative_to_public_folder.lstrip(os.path.sep)
    )
""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

import vanillaplusjs.runners.init as init, vanillaplusjs.runners.build as build, io, contextlib
from loguru import logger
logger.remove()
def put(rel, text):
    p = os.path.join(d, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", newline="\n") as f: f.write(text)
def get(rel):
    return open(os.path.join(d, rel)).read()
def run(*a):
    with contextlib.redirect_stdout(io.StringIO()):
        build.main(["--folder", d, *a])
with contextlib.redirect_stdout(io.StringIO()):
    init.main(["--folder", d])

put("src/publications/secret.txt", "x")
run()
found = [f for r, ds, fs in os.walk(os.path.join(d, "out/www")) for f in fs if "secret" in f]
print(found)
sys.exit(1 if found else 0)
'''
