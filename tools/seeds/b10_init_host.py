PROPERTY = 'C21'
NEEDS = 'init with --host in a folder that has a configuration'
BREAKS = 'the existing configuration is overwritten'
EDITS = [('runners/init.py', """    if not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):""", """    config_path = os.path.join(folder, "vanillaplusjs.json")
    if not os.path.isfile(config_path) or os.path.islink(config_path):""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess
d = os.environ["DEMO_DIR"]

import vanillaplusjs.runners.init as init, io, contextlib
real = os.path.join(d, "shared.json"); p = os.path.join(d, "p"); os.makedirs(p)
open(real, "w").write('{"mine": 1}')
os.symlink(real, os.path.join(p, "vanillaplusjs.json"))
with contextlib.redirect_stdout(io.StringIO()):
    init.main(["--folder", p])
sys.exit(0 if open(real).read() == '{"mine": 1}' else 1)
'''
