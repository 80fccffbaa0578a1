PROPERTY = 'C15'
NEEDS = 'a stored graph in which a file with several parents has children'
BREAKS = 'children of files which several files depend on are lost when the graph is loaded'
EDITS = [('build/graph.py', """                for child in item["children"]:
                    child_node""", """                if len(node.parents) > 1:
                    continue

                for child in item["children"]:
                    child_node""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

from vanillaplusjs.build.graph import FileDependencyGraph
import io
g = FileDependencyGraph()
for x in "abcd":
    g.add_file(x, 1, 2.5, 3)
g.set_children("a", ["b"]); g.set_children("b", ["c"]); g.set_children("d", ["b"])
f = io.StringIO(); g.store(f); f.seek(0)
h = FileDependencyGraph.load(f)
ok = all(sorted(p.path for p in getattr(g.nodes[x], e)) == sorted(p.path for p in getattr(h.nodes[x], e)) for x in "abcd" for e in ("parents", "children"))
sys.exit(0 if ok else 1)
'''
