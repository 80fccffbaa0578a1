G="build/graph.py"
VAL='''        if any(c not in self.nodes for c in children):
            bad_children = [c for c in children if c not in self.nodes]
            raise ValueError(f"{bad_children=} are not files in the graph")
        if prevent'''
CYC='''        if prevent_cycles and any(
            self.check_nested_relationship(a, c)
            in (FileRelationship.cyclic, FileRelationship.child)
            for c in children
        ):
            bad_children = [
                c
                for c in children
                if self.check_nested_relationship(a, c)
                in (FileRelationship.cyclic, FileRelationship.child)
            ]
            raise ValueError(
                f"{bad_children=} would have a cyclic relationship with the file {a=}"
            )

'''
CLR='''        for child in node.children:
            child.parents.remove(node)
        node.children.clear()
'''
ADDV='''        if children and any(c not in self.nodes for c in children):
            bad_children = [c for c in children if c not in self.nodes]
            raise ValueError(f"{bad_children=} are not files in the graph")
'''
RMV='''        if node.parents and not clear_parents:
            raise ValueError(
                f"{a=} has parents in the graph and clear_parents is False"
            )

'''
TREE='''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            seen_paths: Set[str] = set()
            queue: List[FileDependencyGraphNode] = []

            if dir == "child":
                for child in node.children:
                    queue.append(child)
                    seen_paths.add(child.path)
            else:
                for parent in node.parents:
                    queue.append(parent)
                    seen_paths.add(parent.path)

            while queue:
                item = queue.pop(0)

                if item.path == b:
                    return True

                if dir == "child":
                    for child in item.children:
                        if child.path not in seen_paths:
                            queue.append(child)
                            seen_paths.add(child.path)
                else:
                    for parent in item.parents:
                        if parent.path not in seen_paths:
                            queue.append(parent)
                            seen_paths.add(parent.path)

            return False

'''
CASES=[
("bug","children not validated",[(G,VAL,"        if prevent")]),
("bug","cycle check after clearing",[(G,CYC,CLR+CYC),(G,"            )\n\n"+CLR,"            )\n\n")][:0] or [(G,CYC+CLR,CLR+CYC)]),
("bug","only cyclic",[(G,"in (FileRelationship.cyclic, FileRelationship.child)","in (FileRelationship.cyclic,)",1)]),
("bug","wrong way",[(G,"self.check_nested_relationship(a, c)","self.check_nested_relationship(c, a)",1)]),
("bug","direct only",[(G,"self.check_nested_relationship(a, c)","self.check_direct_relationship(a, c)",1)]),
("bug","first child only",[(G,"            for c in children\n        ):","            for c in children[:1]\n        ):")]),
("bug","adds validate in loop",[(G,ADDV,""),(G,'''                child_node = self.nodes[child]
                child_node.parents.append(node)
                node.children.append(child_node)

        self''','''                child_node = self.nodes.get(child)
                if child_node is None:
                    raise ValueError(f"{child=} is not a file in the graph")
                child_node.parents.append(node)
                node.children.append(child_node)

        self''')]),
("bug","remove parents before checking children",[(G,'''        if node.children and not clear_children:
            raise ValueError(
                f"{a=} has children in the graph and clear_children is False"
            )

''',''),(G,'''            node.parents.clear()

''','''            node.parents.clear()

        if node.children and not clear_children:
            raise ValueError(
                f"{a=} has children in the graph and clear_children is False"
            )

''')]),
("bug","flags confused",[(G,"if node.parents and not clear_parents:","if node.parents and not (clear_parents or clear_children):")]),
("bug","existing",[(G,"        if a in self.nodes:\n            raise","        if a in self.nodes and not children:\n            raise")]),
("bug","walk swapped",[(G,'''            if dir == "child":
                for child in node.children:''','''            if dir == "parent":
                for child in node.children:'''),(G,'''                if dir == "child":
                    for child in item.children:''','''                if dir == "parent":
                    for child in item.children:''')]),
("bug","mapping",[(G,'''        b_is_parent_of_a = check_tree(a_node, "parent")
        b_is_child_of_a = check_tree(a_node, "child")
''','''        b_is_parent_of_a = check_tree(a_node, "child")
        b_is_child_of_a = check_tree(a_node, "parent")
''')]),
("bug","unknown accepted",[(G,'''        node = self.nodes.get(a)
        if node is None:
            raise ValueError(f"{a=} is not a file in the graph")
        if any''','''        node = self.nodes.get(a)
        if node is None:
            self.add_file(a, 0, 0, 0)
            node = self.nodes[a]
        if any''')]),
("bug","children only checked when preventing",[(G,"        if any(c not in self.nodes for c in children):","        if prevent_cycles and any(c not in self.nodes for c in children):")]),
("same","loops",[(G,VAL,'''        for c in children:
            if c not in self.nodes:
                raise ValueError(f"{c=} is not a file in the graph")
        if prevent''')]),
("same","list first",[(G,VAL,'''        bad_children = [c for c in children if c not in self.nodes]
        if bad_children:
            raise ValueError(f"{bad_children=} are not files in the graph")
        if prevent'''),(G,CYC,'''        if prevent_cycles:
            bad_children = [
                c
                for c in children
                if self.check_nested_relationship(a, c)
                in (FileRelationship.cyclic, FileRelationship.child)
            ]
            if bad_children:
                raise ValueError(
                    f"{bad_children=} would have a cyclic relationship with the file {a=}"
                )

''')]),
("same","helper",[(G,VAL,'''        self._require_known(children)
        if prevent'''),(G,ADDV,'''        if children:
            self._require_known(children)
'''),(G,'''    def __repr__(self) -> str:
        return f"FileDependencyGraph''','''    def _require_known(self, paths):
        bad = [c for c in paths if c not in self.nodes]
        if bad:
            raise ValueError(f"{bad=} are not files in the graph")

    def __repr__(self) -> str:
        return f"FileDependencyGraph''')]),
("same","reversed args",[(G,'''            self.check_nested_relationship(a, c)
            in (FileRelationship.cyclic, FileRelationship.child)
            for c''','''            self.check_nested_relationship(c, a)
            in (FileRelationship.cyclic, FileRelationship.parent)
            for c''')]),
("same","order",[(G,RMV,''),(G,'''        if node.parents:
            for''',RMV+'''        if node.parents:
            for''')]),
("same","cycle loop",[(G,CYC,'''        if prevent_cycles:
            for c in children:
                relation = self.check_nested_relationship(a, c)
                if relation == FileRelationship.cyclic or relation == FileRelationship.child:
                    raise ValueError(
                        f"{c=} would have a cyclic relationship with the file {a=}"
                    )

''')]),
("same","nodes looked up first",[(G,VAL,'''        try:
            child_nodes = [self.nodes[c] for c in children]
        except KeyError as e:
            raise ValueError(f"{e} is not a file in the graph")
        if prevent''')]),
('same','stack marked on pop',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            seen_paths: Set[str] = set()
            stack = list(node.children if dir == "child" else node.parents)
            while stack:
                item = stack.pop()
                if item.path in seen_paths:
                    continue
                if item.path == b:
                    return True
                seen_paths.add(item.path)
                stack.extend(item.children if dir == "child" else item.parents)
            return False

''')]),
('same','recursive walk',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            seen_paths: Set[str] = set()

            def visit(item: FileDependencyGraphNode) -> bool:
                for nxt in item.children if dir == "child" else item.parents:
                    if nxt.path in seen_paths:
                        continue
                    seen_paths.add(nxt.path)
                    if nxt.path == b or visit(nxt):
                        return True
                return False

            return visit(node)

''')]),
('same','neighbours helper',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            def neighbours(item: FileDependencyGraphNode) -> List[FileDependencyGraphNode]:
                return item.children if dir == "child" else item.parents

            queue: List[FileDependencyGraphNode] = [node]
            seen_paths: Set[str] = {node.path}
            while len(queue) > 0:
                item = queue.pop(0)
                for other in neighbours(item):
                    if other.path == b:
                        return True
                    if other.path in seen_paths:
                        continue
                    seen_paths.add(other.path)
                    queue.append(other)
            return False

''')]),
('same','found flag',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            queue: List[FileDependencyGraphNode] = [node]
            seen_paths: Set[str] = {node.path}
            found = False
            while queue and not found:
                item = queue.pop(0)
                todo = item.children if dir == "child" else item.parents
                new = [n for n in todo if n.path not in seen_paths]
                seen_paths.update(n.path for n in new)
                found = any(n.path == b for n in new)
                queue.extend(new)
            return found

''')]),
('same','early leaf',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            if not (node.children if dir == "child" else node.parents):
                return False
            seen_paths: Set[str] = set()
            queue: List[FileDependencyGraphNode] = []

            if dir == "child":
                for child in node.children:
                    queue.append(child)
                    seen_paths.add(child.path)
            else:
                for parent in node.parents:
                    queue.append(parent)
                    seen_paths.add(parent.path)

            while queue:
                item = queue.pop(0)

                if item.path == b:
                    return True

                if dir == "child":
                    for child in item.children:
                        if child.path not in seen_paths:
                            queue.append(child)
                            seen_paths.add(child.path)
                else:
                    for parent in item.parents:
                        if parent.path not in seen_paths:
                            queue.append(parent)
                            seen_paths.add(parent.path)

            return False

''')]),
('same','index walk',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            queue: List[FileDependencyGraphNode] = [node]
            seen_paths: Set[str] = {node.path}
            at = 0
            while at < len(queue):
                item = queue[at]
                at += 1
                for other in item.children if dir == "child" else item.parents:
                    if other.path == b:
                        return True
                    if other.path not in seen_paths:
                        seen_paths.add(other.path)
                        queue.append(other)
            return False

''')]),
('bug','marked, not queued',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            seen_paths: Set[str] = set()
            queue: List[FileDependencyGraphNode] = []

            if dir == "child":
                for child in node.children:
                    queue.append(child)
                    seen_paths.add(child.path)
            else:
                for parent in node.parents:
                    queue.append(parent)
                    seen_paths.add(parent.path)

            while queue:
                item = queue.pop(0)

                if item.path == b:
                    return True

                if dir == "child":
                    for child in item.children:
                        if child.path not in seen_paths:
                            queue.append(child)
                            seen_paths.add(child.path)
                else:
                    for parent in item.parents:
                        if parent.path not in seen_paths:
                            seen_paths.add(parent.path)

            return False

''')]),
('bug','unhashed files not walked',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            seen_paths: Set[str] = set()
            queue: List[FileDependencyGraphNode] = []

            if dir == "child":
                for child in node.children:
                    queue.append(child)
                    seen_paths.add(child.path)
            else:
                for parent in node.parents:
                    queue.append(parent)
                    seen_paths.add(parent.path)

            while queue:
                item = queue.pop(0)

                if item.path == b:
                    return True

                if dir == "child":
                    for child in item.children:
                        if child.path not in seen_paths:
                            if not child.path.endswith(".hash"):
                                queue.append(child)
                            seen_paths.add(child.path)
                else:
                    for parent in item.parents:
                        if parent.path not in seen_paths:
                            queue.append(parent)
                            seen_paths.add(parent.path)

            return False

''')]),
('bug','html not expanded',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            seen_paths: Set[str] = set()
            queue: List[FileDependencyGraphNode] = []

            if dir == "child":
                for child in node.children:
                    queue.append(child)
                    seen_paths.add(child.path)
            else:
                for parent in node.parents:
                    queue.append(parent)
                    seen_paths.add(parent.path)

            while queue:
                item = queue.pop(0)

                if item.path == b:
                    return True

                if item.path.endswith(".html"):
                    continue

                if dir == "child":
                    for child in item.children:
                        if child.path not in seen_paths:
                            queue.append(child)
                            seen_paths.add(child.path)
                else:
                    for parent in item.parents:
                        if parent.path not in seen_paths:
                            queue.append(parent)
                            seen_paths.add(parent.path)

            return False

''')]),
('bug','bounded walk',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            seen_paths: Set[str] = set()
            queue: List[FileDependencyGraphNode] = []

            if dir == "child":
                for child in node.children:
                    queue.append(child)
                    seen_paths.add(child.path)
            else:
                for parent in node.parents:
                    queue.append(parent)
                    seen_paths.add(parent.path)

            while queue and len(seen_paths) < 256:
                item = queue.pop(0)

                if item.path == b:
                    return True

                if dir == "child":
                    for child in item.children:
                        if child.path not in seen_paths:
                            queue.append(child)
                            seen_paths.add(child.path)
                else:
                    for parent in item.parents:
                        if parent.path not in seen_paths:
                            queue.append(parent)
                            seen_paths.add(parent.path)

            return False

''')]),
('bug','steps',[(G,TREE,'''        def check_tree(
            node: FileDependencyGraphNode, dir: Literal["child", "parent"]
        ) -> bool:
            seen_paths: Set[str] = set()
            queue: List[FileDependencyGraphNode] = []

            if dir == "child":
                for child in node.children:
                    queue.append(child)
                    seen_paths.add(child.path)
            else:
                for parent in node.parents:
                    queue.append(parent)
                    seen_paths.add(parent.path)

            for _ in range(1024):
                if not queue:
                    break
                item = queue.pop(0)

                if item.path == b:
                    return True

                if dir == "child":
                    for child in item.children:
                        if child.path not in seen_paths:
                            queue.append(child)
                            seen_paths.add(child.path)
                else:
                    for parent in item.parents:
                        if parent.path not in seen_paths:
                            queue.append(parent)
                            seen_paths.add(parent.path)

            return False

''')]),
("bug","walk leaves the neighbours early",[(G,"""                        if parent.path not in seen_paths:
                            queue.append(parent)
                            seen_paths.add(parent.path)""","""                        if parent.path not in seen_paths:
                            seen_paths.add(parent.path)
                            queue.append(parent)
                            break""")]),
("bug","walk leaves the neighbours at a seen one",[(G,"""                        if parent.path not in seen_paths:
                            queue.append(parent)
                            seen_paths.add(parent.path)""","""                        if parent.path in seen_paths:
                            break
                        seen_paths.add(parent.path)
                        queue.append(parent)""")]),
("same","target found among the neighbours",[(G,"""                        if parent.path not in seen_paths:
                            queue.append(parent)
                            seen_paths.add(parent.path)""","""                        if parent.path == b:
                            return True
                        if parent.path in seen_paths:
                            continue
                        seen_paths.add(parent.path)
                        queue.append(parent)""")]),
]
