M="build/html/manips/images/metadata.py"; G="build/graph.py"; S="build/file_signature.py"; C="build/build_context.py"; K="build/cold_incremental_rebuild.py"
CASES=[
("bug","swap mtime size",[(S,'mtime=data["mtime"],\n            filesize=data["filesize"]','mtime=data["filesize"],\n            filesize=data["mtime"]')]),
("bug","inode zero",[(S,'inode=data["inode"],','inode=0,')]),
("bug","crop left from top",[(M,'crop_left_percentage=serd["crop_settings"]["crop_left_percentage"]','crop_left_percentage=serd["crop_settings"]["crop_top_percentage"]')]),
("bug","crop pre_left dropped",[(M,'            pre_left_crop=serd["crop_settings"]["pre_left_crop"],\n','')]),
("bug","int percent",[(M,'crop_left_percentage=serd["crop_settings"]["crop_left_percentage"]','crop_left_percentage=int(serd["crop_settings"]["crop_left_percentage"])')]),
("bug","width from height",[(M,'            width=serd["source"]["width"],','            width=serd["source"]["height"],')]),
("bug","source width from settings",[(M,'            width=serd["source"]["width"],','            width=serd["target"]["settings"]["width"],')]),
("bug","settings hash from source",[(M,'settings_hash=serd["settings_hash"],','settings_hash=serd["source"]["contents_hash"],')]),
("bug","pop field",[(M,'    res = dataclasses.asdict(metadata)\n','    res = dataclasses.asdict(metadata)\n    res["source"].pop("contents_hash")\n')]),
("bug","del field",[(M,'    res = dataclasses.asdict(metadata)\n','    res = dataclasses.asdict(metadata)\n    del res["source"]["height"]\n')]),
("bug","load other name",[(M,'choice=output["choice"],','choice=output["name"],')]),
("bug","graph int mtime",[(G,'"mtime": node.mtime','"mtime": int(node.mtime)')]),
("bug","graph no inode",[(G,'                        "inode": node.inode,\n',''),(G,'item["metadata"]["inode"]','item["metadata"].get("inode", 0)')]),
("bug","graph inode not loaded",[(G,'                node.inode = item["metadata"]["inode"]\n','')]),
("bug","graph swap parents children",[(G,"""':{"parents":'""","""':{"children":'"""),(G,"""',"children":'""","""',"parents":'""")]),
("bug","graph load swap",[(G,'for parent in item["parents"]','for parent in item["children"]')]),
("bug","graph size from mtime",[(G,'"filesize": node.filesize','"filesize": node.mtime')]),
("bug","graph missing comma",[(G,"""',"metadata":'""","""'"metadata":'""")]),
("bug","graph meta key",[(G,'"metadata":\'','"meta":\'')]),
("bug","external swap",[(C,'signature=FileSignature.from_json(data["signature"])','signature=FileSignature.from_json(data)')]),
("bug","external state other key",[(C,'data["state_by_relpath"]','data["by_relpath"]')]),
("bug","external no integrity",[(C,'integrity=data["integrity"]','integrity=""')]),
("same","kwargs sig",[(S,'''        return cls(
            mtime=data["mtime"],
            filesize=data["filesize"],
            inode=data["inode"],
        )''','''        return cls(**data)''')]),
("same","get inode",[(S,'inode=data["inode"],','inode=data.get("inode", 0),')]),
("same","positional",[(S,'''        return cls(
            mtime=data["mtime"],
            filesize=data["filesize"],
            inode=data["inode"],
        )''','''        mtime, filesize, inode = data["mtime"], data["filesize"], data["inode"]
        return FileSignature(mtime, filesize, inode)''')]),
("same","crop local",[(M,'''    return ImageTargetSettings(
        width=serd["width"],
        height=serd["height"],
        crop=serd["crop"],
        crop_settings=CropSettingsCover(
            pre_top_crop=serd["crop_settings"]["pre_top_crop"],
            pre_left_crop=serd["crop_settings"]["pre_left_crop"],
            pre_right_crop=serd["crop_settings"]["pre_right_crop"],
            pre_bottom_crop=serd["crop_settings"]["pre_bottom_crop"],
            crop_left_percentage=serd["crop_settings"]["crop_left_percentage"],
            crop_top_percentage=serd["crop_settings"]["crop_top_percentage"],
        ),
    )''','''    return ImageTargetSettings(
        width=serd["width"],
        height=serd["height"],
        crop=serd["crop"],
        crop_settings=_load_crop(serd["crop_settings"]),
    )


def _load_crop(crop):
    return CropSettingsCover(
        pre_left_crop=crop["pre_left_crop"],
        pre_top_crop=crop["pre_top_crop"],
        pre_right_crop=crop["pre_right_crop"],
        pre_bottom_crop=crop["pre_bottom_crop"],
        crop_left_percentage=crop["crop_left_percentage"],
        crop_top_percentage=crop["crop_top_percentage"],
    )''')]),
("same","crop kwargs",[(M,'''CropSettingsCover(
            pre_top_crop=serd["crop_settings"]["pre_top_crop"],
            pre_left_crop=serd["crop_settings"]["pre_left_crop"],
            pre_right_crop=serd["crop_settings"]["pre_right_crop"],
            pre_bottom_crop=serd["crop_settings"]["pre_bottom_crop"],
            crop_left_percentage=serd["crop_settings"]["crop_left_percentage"],
            crop_top_percentage=serd["crop_settings"]["crop_top_percentage"],
        )''','''CropSettingsCover(**serd["crop_settings"])''')]),
("same","outputs loop",[(M,'''            outputs=dict(
                (
                    key,
                    [
                        ImageTargetOutput(
                            width=output["width"],
                            height=output["height"],
                            relpath=output["relpath"].replace("/", os.path.sep),
                            choice=output["choice"],
                        )
                        for output in value
                    ],
                )
                for key, value in serd["target"]["outputs"].items()
            ),''','''            outputs=_load_outputs(serd["target"]["outputs"]),'''),(M,'''def store_metadata(''','''def _load_outputs(serd):
    outputs = {}
    for key, value in serd.items():
        loaded = []
        for output in value:
            loaded.append(
                ImageTargetOutput(
                    width=output["width"],
                    height=output["height"],
                    relpath=output["relpath"].replace("/", os.path.sep),
                    choice=output["choice"],
                )
            )
        outputs[key] = loaded
    return outputs


def store_metadata(''')]),
("same","graph one dump",[(G,'''            print("{", file=fp, end="")
            for idx, (path, node) in enumerate(self.nodes.items()):
                if idx > 0:
                    print(",", file=fp, end="")
                json.dump(path, fp)
                print(':{"parents":', file=fp, end="")
                json.dump([parent.path for parent in node.parents], fp)
                print(',"children":', file=fp, end="")
                json.dump([child.path for child in node.children], fp),
                print(',"metadata":', file=fp, end="")
                json.dump(
                    {
                        "filesize": node.filesize,
                        "mtime": node.mtime,
                        "inode": node.inode,
                    },
                    fp,
                )
                print("}", file=fp, end="")
            print("}", file=fp)''','''            json.dump(
                {
                    path: {
                        "parents": [parent.path for parent in node.parents],
                        "children": [child.path for child in node.children],
                        "metadata": {
                            "filesize": node.filesize,
                            "mtime": node.mtime,
                            "inode": node.inode,
                        },
                    }
                    for path, node in self.nodes.items()
                },
                fp,
            )''')]),
("same","graph write fp",[(G,'''print(':{"parents":', file=fp, end="")''','''fp.write(':{"parents":')''')]),
("same","graph whole node dump",[(G,'''                print(':{"parents":', file=fp, end="")
                json.dump([parent.path for parent in node.parents], fp)
                print(',"children":', file=fp, end="")
                json.dump([child.path for child in node.children], fp),
                print(',"metadata":', file=fp, end="")
                json.dump(
                    {
                        "filesize": node.filesize,
                        "mtime": node.mtime,
                        "inode": node.inode,
                    },
                    fp,
                )
                print("}", file=fp, end="")
''','''                print(":", file=fp, end="")
                json.dump(self._serialize_node(node), fp)
'''),(G,'''    def store(self''','''    @staticmethod
    def _serialize_node(node) -> dict:
        return {
            "parents": [parent.path for parent in node.parents],
            "children": [child.path for child in node.children],
            "metadata": {
                "filesize": node.filesize,
                "mtime": node.mtime,
                "inode": node.inode,
            },
        }

    def store(self''')]),
("same","graph load helper",[(G,'''                for parent in item["parents"]:
                    parent_node = nodes.get(parent)
                    if parent_node is None:
                        parent_node = FileDependencyGraphNode(parent, 0, 0, 0, [], [])
                        nodes[parent] = parent_node
                    node.parents.append(parent_node)
''','''                node.parents.extend(kls._get_or_create(nodes, parent) for parent in item["parents"])
'''),(G,'''    @classmethod
    def load(''','''    @staticmethod
    def _get_or_create(nodes, path):
        node = nodes.get(path)
        if node is None:
            node = FileDependencyGraphNode(path, 0, 0, 0, [], [])
            nodes[path] = node
        return node

    @classmethod
    def load(''')]),
("same","graph load metadata local",[(G,'''                node.mtime = item["metadata"]["mtime"]
                node.filesize = item["metadata"]["filesize"]
                node.inode = item["metadata"]["inode"]''','''                metadata = item["metadata"]
                node.filesize = metadata["filesize"]
                node.mtime = metadata["mtime"]
                node.inode = metadata["inode"]''')]),
("same","json.dumps meta",[(K,'json.dump(dataclasses.asdict(new_external_files_state), f)','f.write(json.dumps(dataclasses.asdict(new_external_files_state)))')]),
("bug","children only of roots",[(G,'''                for child in item["children"]:''','''                for child in item["children"] if not item["parents"] else ():''')]),
("bug","missing children left out",[(G,'''[child.path for child in node.children]''','''[child.path for child in node.children if child.path in self.nodes and child.filesize > 0]''')]),
("bug","empty files have no metadata",[(G,'''                node.mtime = item["metadata"]["mtime"]
''','''                if item["metadata"]["filesize"] > 0:
                    node.mtime = item["metadata"]["mtime"]
''')]),
("bug","self edges dropped",[(G,'''                    node.children.append(child_node)
''','''                    if child_node.parents or child > path:
                        node.children.append(child_node)
''')]),
("bug","lone files not stored",[(G,'''                if idx > 0:
                    print(",", file=fp, end="")
''','''                if idx > 0:
                    print(",", file=fp, end="")
                if not node.parents and not node.children and node.inode == 0:
                    json.dump(path, fp)
                    print(':{"parents":[],"children":[],"metadata":{"filesize":0,"mtime":0,"inode":0}}', file=fp, end="")
                    continue
''')]),
("bug","known parents only",[(G,'''                    parent_node = nodes.get(parent)
                    if parent_node is None:
''','''                    parent_node = nodes.get(parent)
                    if parent_node is None and parent.endswith(".hash"):
                        continue
                    if parent_node is None:
''')]),
("same","edges by comprehension",[(G,'''                for parent in item["parents"]:
                    parent_node = nodes.get(parent)
                    if parent_node is None:
                        parent_node = FileDependencyGraphNode(parent, 0, 0, 0, [], [])
                        nodes[parent] = parent_node
                    node.parents.append(parent_node)
''','''                if item["parents"]:
                    for parent in item["parents"]:
                        if parent not in nodes:
                            nodes[parent] = FileDependencyGraphNode(parent, 0, 0, 0, [], [])
                    node.parents.extend(nodes[parent] for parent in item["parents"])
''')]),
("same","two passes",[(G,'''            for path, item in json.load(fp).items():
                node: FileDependencyGraphNode = nodes.get(path)
                if node is None:
                    node = FileDependencyGraphNode(path, 0, 0, 0, [], [])
                    nodes[path] = node

                node.mtime = item["metadata"]["mtime"]
                node.filesize = item["metadata"]["filesize"]
                node.inode = item["metadata"]["inode"]
''','''            doc = json.load(fp)
            for path, item in doc.items():
                meta = item["metadata"]
                nodes[path] = FileDependencyGraphNode(path, meta["filesize"], meta["mtime"], meta["inode"], [], [])
            for path, item in doc.items():
                node = nodes[path]
''')]),
("same","lists may be missing",[(G,'''                for child in item["children"]:''','''                for child in item.get("children") or []:''')]),
("same","lists may be missing 2",[(G,'''                for child in item["children"]:''','''                for child in item["children"] if "children" in item else ():''')]),
]
