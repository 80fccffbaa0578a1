PROPERTY = 'C13'
NEEDS = 'set_children with a list which keeps some of the children'
BREAKS = 'a kept child lists the file as its parent twice, and keeps it after it is removed'
EDITS = [('build/graph.py', """        for child in node.children:
            child.parents.remove(node)
        node.children.clear()
        for child in children:
            child_node = self.nodes[child]""", """        for child in node.children:
            if child.path not in children:
                child.parents.remove(node)
        node.children.clear()
        for child in children:
            child_node = self.nodes[child]""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess
d = os.environ["DEMO_DIR"]

from vanillaplusjs.build.graph import FileDependencyGraph
g = FileDependencyGraph()
for x in "abc":
    g.add_file(x, 1, 2.5, 3)
g.set_children("a", ["b", "c"]); g.set_children("a", ["b"])
n = g.nodes
ok = [p.path for p in n["b"].parents] == ["a"] and not n["c"].parents and [c.path for c in n["a"].children] == ["b"]
sys.exit(0 if ok else 1)
'''
