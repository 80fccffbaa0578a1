L = "build/html/manips/link_hash.py"
O = "build/html/manips/outline.py"
I = "build/css/manips/icons/manip.py"
X = "build/html/manips/images/exporter.py"
M = "build/html/manips/images/manip.py"
U = "build/css/manips/outline_image_data.py"
V = "build/css/manips/version_urls.py"
J = "build/handlers/js_constants.py"
G = "build/handlers/image_glue.py"
H = "build/handlers/hash.py"
COLORS = """            list(
                dict(  # dict to preserve order
                    (color, None)
                    for color in args.output_colors
                    if color in self.context.icon_settings.color_map
                )
            )
"""
CONST = """            for key, value in constants.items():
                f.write(f"export const {key} = {jsify(value)};\\n")
"""
ATTRS = """        new_attribute_keys = sorted(
            itertools.chain(dep.attributes.keys(), (dep.attr_name,))
        )
"""
OUTD = """            data = dict(
                ((None, key), start_tag_attrs[key])
                for key in sorted(start_tag_attrs.keys())
            )
"""
LOOP = "        for format_name, format_settings in context.image_settings.formats.items():\n            best_export:"
EXPORTS = "            for export_name, export_settings in format_settings.exports.items():\n                if not export_settings.applies_to(out_width, out_height):\n                    continue\n                export_path"
CASES = [
    ("bug", "colors in a set", [(I, COLORS, """            list(
                {
                    color
                    for color in args.output_colors
                    if color in self.context.icon_settings.color_map
                }
            )
""")]),
    ("bug", "intersection of colors", [(I, COLORS, """            list(
                set(args.output_colors).intersection(
                    self.context.icon_settings.color_map
                )
            )
""")]),
    ("bug", "attributes in a set", [(L, ATTRS, """        new_attribute_keys = set(dep.attributes.keys()) | {dep.attr_name}
""")]),
    ("bug", "attributes of outlined blocks in a set", [(O, OUTD, """            data = dict(
                ((None, key), start_tag_attrs[key])
                for key in set(start_tag_attrs.keys())
            )
""")]),
    ("bug", "constants from a set of names", [(J, CONST, """            names = set(context.js_constants.shared)
            names |= set(constants)
            for key in names:
                f.write(f"export const {key} = {jsify(constants[key])};\\n")
""")]),
    ("bug", "constants: order of a set through a dict", [(J, """        makedirs_safely(os.path.dirname(target_path))
""", """        constants = {key: constants[key] for key in frozenset(constants)}
        makedirs_safely(os.path.dirname(target_path))
""")]),
    ("bug", "constants: deduplicated lines", [(J, CONST, """            lines = {f"export const {key} = {jsify(value)};\\n" for key, value in constants.items()}
            f.write("".join(lines))
""")]),
    ("bug", "build time in the constants", [(J, CONST, CONST + """            import time
            f.write(f"export const BUILT_AT = {int(time.time())};\\n")
""")]),
    ("bug", "banner with the date", [("build/js/manipulate_and_serialize.py", """            for in_token in tokenize(f_in):
                builder""", """            f_out.write(f"/* {datetime.date.today()} */")
            for in_token in tokenize(f_in):
                builder"""), ("build/js/manipulate_and_serialize.py", "import os\n", "import os\nimport datetime\n")]),
    ("bug", "version is the modification time", [(V, """            hash_value = f.read()
""", """            hash_value = f.read() or str(os.path.getmtime(self.context.folder))
""")]),
    ("bug", "version is hash()", [(V, """        suffix_to_add = "?" + urlencode({"v": hash_value,""", """        hash_value = format(hash(hash_value) & 0xFFFFFFFF, "x")
        suffix_to_add = "?" + urlencode({"v": hash_value,""")]),
    ("bug", "hash salted with the process", [(H, """        sha256.update(f.read())
""", """        sha256.update(f.read())
        sha256.update(str(os.getpid()).encode())
""")]),
    ("bug", "hash of mtime", [(H, """        sha256.update(f.read())
""", """        sha256.update(str(os.stat(filepath).st_mtime_ns).encode())
""")]),
    ("bug", "unique name for generated image by uuid", [(U, """            suffix = ""
""", "")] if False else [(U, """            self.image_counter += 1
            file_ext""", """            import uuid

            self.image_counter = uuid.uuid4().hex
            file_ext""")]),
    ("bug", "unique name by id", [(U, """            out_relpath = os.path.join(
                self.image_out_folder, f"{self.image_counter}.{file_ext}"
            )
""", """            out_relpath = os.path.join(
                self.image_out_folder, f"{self.image_counter}-{id(node)}.{file_ext}"
            )
""")]),
    ("bug", "formats as a set", [(X, LOOP, """        for format_name in set(context.image_settings.formats):
            format_settings = context.image_settings.formats[format_name]
            best_export:""")]),
    ("bug", "ties between exports by set order", [(X, EXPORTS, """            for export_name in {
                name
                for name, settings in format_settings.exports.items()
                if settings.applies_to(out_width, out_height)
            }:
                export_settings = format_settings.exports[export_name]
                export_path""")]),
    ("bug", "srcset in a set", [(M, """                        (None, "srcset"): ", ".join(
                            f"/{output.relpath.replace(os.path.sep, '/')} {output.width}w"
                            for output in outputs
                        )
""", """                        (None, "srcset"): ", ".join(
                            {
                                f"/{output.relpath.replace(os.path.sep, '/')} {output.width}w"
                                for output in outputs
                            }
                        )
""")]),
    ("bug", "picture sources by directory listing", [(G, """    for command_name, command in""", """    for command_name, command in""")] if False else [(M, """        for format_name, outputs in metadata.target.outputs.items():
            if format_name ==""", """        folder = os.path.join(self.context.out_folder, "www")
        for extension in os.listdir(folder):
            format_name = extension.rsplit(".", 1)[-1]
            outputs = metadata.target.outputs.get(format_name)
            if not outputs or format_name ==""")]),
    ("bug", "first of a set", [(M, """        standard_resolution_output = next(
            output
            for output in default_outputs
            if output.width == cmd.width and output.height == cmd.height
        )
""", """        standard_resolution_output = next(
            iter(
                {output for output in default_outputs if output.width >= cmd.width}
            )
        )
""")]),
    ("bug", "cache buster at random", [(L, """urlencode({"v": hash, "pv": PROCESSOR_VERSION})
""", """urlencode(
            {"v": hash or random.getrandbits(32), "pv": PROCESSOR_VERSION}
        )
"""), (L, "import os\n", "import os\nimport random\n")]),
    ("bug", "minified by the clock", [("build/js/serializer.py", """        cleaned = token["value"]""", """        import time
        if time.localtime().tm_hour > 20:
            return ""
        cleaned = token["value"]""")]),
    ("bug", "set passed as text", [(O, """                start_tag_attrs["rel"] = "stylesheet"
""", """                start_tag_attrs["rel"] = " ".join({"stylesheet", "preload"})
""")]),
    ("bug", "urlencode of a set", [(O, """                    {"v": target_hash, "pv": PROCESSOR_VERSION}
""", """                    {("v", target_hash), ("pv", PROCESSOR_VERSION)}
""")]),
    ("bug", "glue by directory listing", [(G, """        json.dump(output_dictionary, f, sort_keys=True)
""", """        output_dictionary["files"] = os.listdir(context.folder)
        json.dump(output_dictionary, f, sort_keys=True)
""")]),
    ("bug", "futures as they complete", [(X, """        for future in futures:
            if future""", """        finished = [f.result() for f in concurrent.futures.as_completed(futures)]
        outputs["order"] = finished
        for future in futures:
            if future""")]),
    ("same", "colors deduplicated otherwise", [(I, COLORS, """            [
                color
                for color in dict.fromkeys(args.output_colors)
                if color in set(self.context.icon_settings.color_map)
            ]
""")]),
    ("same", "attributes in a sorted set", [(L, ATTRS, """        new_attribute_keys = sorted(set(dep.attributes.keys()) | {dep.attr_name})
""")]),
    ("same", "attributes in a list sorted in place", [(L, ATTRS, """        new_attribute_keys = list(set(dep.attributes) | {dep.attr_name})
        new_attribute_keys.sort()
""")]),
    ("same", "constants sorted from a set", [(J, CONST, """            names = set(constants)
            for key in sorted(names):
                f.write(f"export const {key} = {jsify(constants[key])};\\n")
""")]),
    ("same", "constants written once", [(J, CONST, """            lines = [
                f"export const {key} = {jsify(value)};\\n"
                for key, value in constants.items()
            ]
            f.write("".join(lines))
""")]),
    ("same", "time for the log", [(H, """    sha256_b64 = calculate_hash(src_path_rel_to_cwd)
""", """    started = time.perf_counter()
    sha256_b64 = calculate_hash(src_path_rel_to_cwd)
    if time.perf_counter() - started > 5:
        print("slow", src_path_rel_to_cwd, time.time())
"""), (H, "import os\n", "import os\nimport time\n")]),
    ("same", "temporary name at random", [(J, CONST, CONST.replace("            for", "            for")), (J, """        with open(target_path, "w", newline="\\n") as f:
""", """        temp_path = target_path + f".{os.getpid()}.{secrets.token_hex(4)}.tmp"
        with open(temp_path, "w", newline="\\n") as f:
"""), (J, """    build_result = vanillaplusjs.build.handlers.hash.build_file(context, target_relpath)
""", """        os.replace(temp_path, target_path)

    build_result = vanillaplusjs.build.handlers.hash.build_file(context, target_relpath)
"""), (J, "import os\n", "import os\nimport secrets\n")]),
    ("same", "set used for membership", [(L, ATTRS, """        known = set(dep.attributes)
        new_attribute_keys = list(dep.attributes)
        if dep.attr_name not in known:
            new_attribute_keys.append(dep.attr_name)
        new_attribute_keys.sort()
""")]),
    ("same", "count of a set", [(U, """            self.image_counter += 1
            file_ext""", """            self.image_counter = len(set(self.image_relpath_by_data)) + 1
            file_ext""")]),
    ("same", "purge by set arithmetic", [(I, """            purge_idens = set()
            for iden, setting in real_button.button_by_identifier.items():
                if is_setting_bad(setting):
                    purge_idens.add(iden)
""", """            purge_idens = {
                iden
                for iden, setting in real_button.button_by_identifier.items()
                if is_setting_bad(setting)
            }
""")]),
    ("same", "best export from a sorted listing", [(X, EXPORTS, """            for export_name, export_settings in sorted(
                format_settings.exports.items(), key=lambda x: x[0]
            ):
                if not export_settings.applies_to(out_width, out_height):
                    continue
                export_path""")]),
    ("same", "work in any order, results in order", [(X, """        concurrent.futures.wait(futures, return_when=concurrent.futures.ALL_COMPLETED)
""", """        for future in concurrent.futures.as_completed(futures):
            logger.debug("exported one of %d", len(futures))
""")]),
    ("same", "children gone through in a set", [("build/handlers/html.py", """        children.update(build_result.children)
        produced""", """        for child in set(build_result.children):
            children.add(child)
        produced""")]),
    ("same", "dict filled from a set and looked up", [(I, """        for color in args.output_colors:
            output_relpath""", """        targets = {}
        for name in set(args.output_colors):
            targets[name] = self.context.icon_settings.color_map[name].to_hex()
        for color in args.output_colors:
            output_relpath"""), (I, """            target_color = self.context.icon_settings.color_map[color]
            new_svg = svg.replace(replacer, f'"{target_color.to_hex()}"')
""", """            new_svg = svg.replace(replacer, f'"{targets[color]}"')
""")]),
]
