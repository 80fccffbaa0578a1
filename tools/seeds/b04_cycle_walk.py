PROPERTY = 'C14'
NEEDS = 'a cycle which can only be found through the second parent of a file'
BREAKS = 'an edge which closes a cycle is accepted, since the walk along the parents queues only the first one it did not see before'
EDITS = [('build/graph.py', """                        if parent.path not in seen_paths:
                            queue.append(parent)
                            seen_paths.add(parent.path)""", """                        if parent.path not in seen_paths:
                            seen_paths.add(parent.path)
                            queue.append(parent)
                            break""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

from vanillaplusjs.build.graph import FileDependencyGraph
ok = True
for first in (True, False):
    g = FileDependencyGraph()
    for x in ("top", "p", "q", "mid", "low"):
        g.add_file(x, 1, 1.0, 1)
    for x in (("p", "q") if first else ("q", "p")):
        g.set_children(x, ["mid"])
    g.set_children("top", ["p"])
    g.set_children("mid", ["low"])
    try:
        g.set_children("low", ["top"])
        ok = False
    except ValueError:
        pass
sys.exit(0 if ok else 1)
'''
