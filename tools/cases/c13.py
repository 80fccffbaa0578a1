G="build/graph.py"
SETLOOP='''        for child in node.children:
            child.parents.remove(node)
        node.children.clear()
        for child in children:
            child_node = self.nodes[child]
            child_node.parents.append(node)
            node.children.append(child_node)
'''
ADDL='''        if children:
            for child in children:
                child_node = self.nodes[child]
                child_node.parents.append(node)
                node.children.append(child_node)

        self.nodes[a] = node'''
RP='''            for parent in node.parents:
                parent.children.remove(node)
            node.parents.clear()
'''
RC='''            for child in node.children:
                child.parents.remove(node)
            node.children.clear()

        del self.nodes[a]'''
CASES=[
("bug","no parents on add",[(G,"                child_node.parents.append(node)\n                node.children.append(child_node)\n\n        self.nodes[a]","                node.children.append(child_node)\n\n        self.nodes[a]")]),
("bug","old children keep parent",[(G,SETLOOP,SETLOOP[SETLOOP.index("        node.children.clear()"):])]),
("bug","skip known",[(G,SETLOOP,SETLOOP.replace("            child_node.parents.append(node)\n","            if node not in child_node.parents:\n                child_node.parents.append(node)\n"))]),
("bug","not cleared",[(G,SETLOOP,SETLOOP.replace("        node.children.clear()\n",""))]),
("bug","only first child",[(G,SETLOOP,SETLOOP.replace("            child.parents.remove(node)\n","            child.parents.remove(node)\n            break\n"))]),
("bug","removal leaves parents",[(G,RP,"            node.parents.clear()\n")]),
("bug","removal clear flags only",[(G,"        if node.children:\n            for child","        if node.children and clear_parents:\n            for child")]),
("bug","wrong list",[(G,RC,RC.replace("child.parents.remove(node)","child.children.remove(node)"))]),
("bug","swapped",[(G,ADDL,ADDL.replace("child_node.parents.append(node)","child_node.children.append(node)"))]),
("bug","load from children twice",[(G,"""for parent in item["parents"]:""","""for parent in item["children"]:""")]),
("bug","overwrite",[(G,'''        if a in self.nodes:
            raise ValueError(f"{a=} is already a file in the graph")
''','''        if a in self.nodes and self.nodes[a].inode == inode:
            raise ValueError(f"{a=} is already a file in the graph")
''')]),
("bug","edges from outside",[("build/hot_incremental_rebuild.py","    graph.set_children(","    graph.nodes.pop('x', None)\n    graph.set_children(")][:0] or [("build/cold_incremental_rebuild.py","async def cold_incremental_rebuild(","def _forget(context, p):\n    context.old_dependency_graph.nodes[p].children.clear()\n\n\nasync def cold_incremental_rebuild(")]),
("bug","dedupe one side",[(G,SETLOOP,SETLOOP.replace("        for child in children:\n            child_node = self.nodes[child]\n            child_node.parents.append(node)\n            node.children.append(child_node)\n","        for child in children:\n            self.nodes[child].parents.append(node)\n        for child in sorted(set(children)):\n            node.children.append(self.nodes[child])\n"))]),
("bug","iterating while continuing",[(G,RC,RC.replace("            for child in node.children:\n","            for child in node.children:\n                if child is node:\n                    continue\n"))][:0] or [(G,RC,RC.replace("            for child in node.children:\n","            for child in node.children:\n                if not child.children:\n                    continue\n"))]),
("same","helper",[(G,SETLOOP,'''        self._unlink_children(node)
        for child in children:
            self._link(node, self.nodes[child])

    def _unlink_children(self, node):
        for child in node.children:
            child.parents.remove(node)
        node.children.clear()

    def _link(self, parent, child):
        parent.children.append(child)
        child.parents.append(parent)
'''),(G,ADDL,'''        for child in children or ():
            self._link(node, self.nodes[child])
        self.nodes[a] = node''')]),
("same","two loops",[(G,SETLOOP,SETLOOP.replace("        for child in children:\n            child_node = self.nodes[child]\n            child_node.parents.append(node)\n            node.children.append(child_node)\n","        for child in children:\n            self.nodes[child].parents.append(node)\n        for child in children:\n            node.children.append(self.nodes[child])\n"))]),
("same","list built at once",[(G,SETLOOP,SETLOOP[:SETLOOP.index("        for child in children")].replace("        node.children.clear()\n","")+'''        node.children = [self.nodes[c] for c in children]
        for child in node.children:
            child.parents.append(node)
''')]),
("same","extend",[(G,ADDL,ADDL.replace('''            for child in children:
                child_node = self.nodes[child]
                child_node.parents.append(node)
                node.children.append(child_node)
''','''            child_nodes = [self.nodes[child] for child in children]
            for child_node in child_nodes:
                child_node.parents.append(node)
            node.children.extend(child_nodes)
'''))]),
("same","no emptiness test",[(G,"        if node.parents:\n"+RP,RP.replace("            ","        ",1).replace("\n            ","\n        ")),(G,"        if node.children:\n"+RC,RC.replace("            ","        ",1).replace("\n            ","\n        "))]),
("same","no clear on removal",[(G,RP,RP.replace("            node.parents.clear()\n",""))]),
("same","pop",[(G,"        del self.nodes[a]","        self.nodes.pop(a)")]),
("same","copy of the list",[(G,RP,RP.replace("in node.parents","in list(node.parents)"))]),
("same","order",[(G,ADDL,ADDL.replace("                child_node.parents.append(node)\n                node.children.append(child_node)\n","                node.children.append(child_node)\n                child_node.parents.append(node)\n"))]),
("same","node first",[(G,ADDL,"        self.nodes[a] = node\n"+ADDL.replace("\n\n        self.nodes[a] = node",""))]),
("same","empty list",[(G,RP,RP.replace("node.parents.clear()","node.parents = []"))]),
("same","setdefault in load",[(G,'''                node: FileDependencyGraphNode = nodes.get(path)
                if node is None:
                    node = FileDependencyGraphNode(path, 0, 0, 0, [], [])
                    nodes[path] = node
''','''                if path not in nodes:
                    nodes[path] = FileDependencyGraphNode(path, 0, 0, 0, [], [])
                node = nodes[path]
''')]),
]
CASES += [('same', 'graph load get or create', [('build/graph.py', '            for path, item in json.load(fp).items():\n                node: FileDependencyGraphNode = nodes.get(path)\n                if node is None:\n                    node = FileDependencyGraphNode(path, 0, 0, 0, [], [])\n                    nodes[path] = node\n\n                node.mtime = item["metadata"]["mtime"]\n                node.filesize = item["metadata"]["filesize"]\n                node.inode = item["metadata"]["inode"]\n\n                for parent in item["parents"]:\n                    parent_node = nodes.get(parent)\n                    if parent_node is None:\n                        parent_node = FileDependencyGraphNode(parent, 0, 0, 0, [], [])\n                        nodes[parent] = parent_node\n                    node.parents.append(parent_node)\n\n                for child in item["children"]:\n                    child_node = nodes.get(child)\n                    if child_node is None:\n                        child_node = FileDependencyGraphNode(child, 0, 0, 0, [], [])\n                        nodes[child] = child_node\n                    node.children.append(child_node)\n', '\n            def node_for(path: str) -> FileDependencyGraphNode:\n                if path not in nodes:\n                    nodes[path] = FileDependencyGraphNode(path, 0, 0, 0, [], [])\n                return nodes[path]\n\n            for path, item in json.load(fp).items():\n                metadata = item["metadata"]\n                node = node_for(path)\n                node.mtime = metadata["mtime"]\n                node.filesize = metadata["filesize"]\n                node.inode = metadata["inode"]\n                node.parents.extend(node_for(p) for p in item["parents"])\n                node.children.extend(node_for(c) for c in item["children"])\n')])]
CASES += [('same', 'graph nested neighbours', [('build/graph.py', '            seen_paths: Set[str] = set()\n            queue: List[FileDependencyGraphNode] = []\n\n            if dir == "child":\n                for child in node.children:\n                    queue.append(child)\n                    seen_paths.add(child.path)\n            else:\n                for parent in node.parents:\n                    queue.append(parent)\n                    seen_paths.add(parent.path)\n\n            while queue:\n                item = queue.pop(0)\n\n                if item.path == b:\n                    return True\n\n                if dir == "child":\n                    for child in item.children:\n                        if child.path not in seen_paths:\n                            queue.append(child)\n                            seen_paths.add(child.path)\n                else:\n                    for parent in item.parents:\n                        if parent.path not in seen_paths:\n                            queue.append(parent)\n                            seen_paths.add(parent.path)\n\n            return False\n', '            def neighbours(item: FileDependencyGraphNode):\n                return item.children if dir == "child" else item.parents\n\n            queue: List[FileDependencyGraphNode] = list(neighbours(node))\n            seen_paths: Set[str] = {item.path for item in queue}\n\n            while queue:\n                item = queue.pop()\n\n                if item.path == b:\n                    return True\n\n                for other in neighbours(item):\n                    if other.path not in seen_paths:\n                        seen_paths.add(other.path)\n                        queue.append(other)\n\n            return False\n')])]
CASES += [('bug', 'gathered from the children', [('build/graph.py', '            for path, item in json.load(fp).items():\n                node: FileDependencyGraphNode = nodes.get(path)\n                if node is None:\n                    node = FileDependencyGraphNode(path, 0, 0, 0, [], [])\n                    nodes[path] = node\n\n                node.mtime = item["metadata"]["mtime"]\n                node.filesize = item["metadata"]["filesize"]\n                node.inode = item["metadata"]["inode"]\n\n                for parent in item["parents"]:\n                    parent_node = nodes.get(parent)\n                    if parent_node is None:\n                        parent_node = FileDependencyGraphNode(parent, 0, 0, 0, [], [])\n                        nodes[parent] = parent_node\n                    node.parents.append(parent_node)\n\n                for child in item["children"]:\n                    child_node = nodes.get(child)\n                    if child_node is None:\n                        child_node = FileDependencyGraphNode(child, 0, 0, 0, [], [])\n                        nodes[child] = child_node\n                    node.children.append(child_node)\n', '\n            def node_for(path: str) -> FileDependencyGraphNode:\n                if path not in nodes:\n                    nodes[path] = FileDependencyGraphNode(path, 0, 0, 0, [], [])\n                return nodes[path]\n\n            for path, item in json.load(fp).items():\n                metadata = item["metadata"]\n                node = node_for(path)\n                node.mtime = metadata["mtime"]\n                node.filesize = metadata["filesize"]\n                node.inode = metadata["inode"]\n                node.parents.extend(node_for(p) for p in item["children"])\n                node.children.extend(node_for(c) for c in item["children"])\n')])]
CASES += [('bug', 'gathered but some', [('build/graph.py', '            for path, item in json.load(fp).items():\n                node: FileDependencyGraphNode = nodes.get(path)\n                if node is None:\n                    node = FileDependencyGraphNode(path, 0, 0, 0, [], [])\n                    nodes[path] = node\n\n                node.mtime = item["metadata"]["mtime"]\n                node.filesize = item["metadata"]["filesize"]\n                node.inode = item["metadata"]["inode"]\n\n                for parent in item["parents"]:\n                    parent_node = nodes.get(parent)\n                    if parent_node is None:\n                        parent_node = FileDependencyGraphNode(parent, 0, 0, 0, [], [])\n                        nodes[parent] = parent_node\n                    node.parents.append(parent_node)\n\n                for child in item["children"]:\n                    child_node = nodes.get(child)\n                    if child_node is None:\n                        child_node = FileDependencyGraphNode(child, 0, 0, 0, [], [])\n                        nodes[child] = child_node\n                    node.children.append(child_node)\n', '\n            def node_for(path: str) -> FileDependencyGraphNode:\n                if path not in nodes:\n                    nodes[path] = FileDependencyGraphNode(path, 0, 0, 0, [], [])\n                return nodes[path]\n\n            for path, item in json.load(fp).items():\n                metadata = item["metadata"]\n                node = node_for(path)\n                node.mtime = metadata["mtime"]\n                node.filesize = metadata["filesize"]\n                node.inode = metadata["inode"]\n                node.parents.extend(node_for(p) for p in item["parents"])\n                node.children.extend(node_for(c) for c in item["children"] if c != path)\n')])]
