PROPERTY = 'C22'
NEEDS = 'a project whose placeholder graph names a source without parents'
BREAKS = "cleaning the placeholders deletes the user's own file"
EDITS = [('runners/clean.py', """            for file, node in placeholder_graph.nodes.items():
                if node.parents:
                    os.remove(os.path.join(folder, file))""", """            for file, node in placeholder_graph.nodes.items():
                if node.parents or not node.children:
                    os.remove(os.path.join(folder, file))""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess
d = os.environ["DEMO_DIR"]

import vanillaplusjs.runners.clean as clean
from vanillaplusjs.build.graph import FileDependencyGraph
os.makedirs(os.path.join(d, "out")); os.makedirs(os.path.join(d, "src/public"))
open(os.path.join(d, "vanillaplusjs.json"), "w").write("{}")
g = FileDependencyGraph()
for x in ("src/public/a.html", "src/public/b.html", "src/public/gen.js"):
    g.add_file(x, 1, 1.0, 1); open(os.path.join(d, x), "w").write("x")
g.set_children("src/public/a.html", ["src/public/gen.js"])
with open(os.path.join(d, "out/placeholder_graph.json"), "w") as f: g.store(f)
clean.main(["--folder", d, "--placeholders"])
ex = [os.path.exists(os.path.join(d, "src/public", x)) for x in ("a.html", "b.html", "gen.js")]
print(ex)
sys.exit(0 if ex == [True, True, False] else 1)
'''
