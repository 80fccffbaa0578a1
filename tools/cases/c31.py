D = "runners/dev.py"
Bd = "runners/build.py"
X = "build/build_context.py"
AUTO = '        context.auto_generate_images_js_placeholders = config[\n            "auto_generate_images_js_placeholders"\n        ]\n'
LOADS = '''        if os.path.exists(context.dependency_graph_file):
            with open(context.dependency_graph_file) as f:
                old_dependency_graph = FileDependencyGraph.load(f)

        if os.path.exists(context.output_graph_file):
            with open(context.output_graph_file) as f:
                old_output_graph = FileDependencyGraph.load(f)

        if os.path.exists(context.placeholder_graph_file):
            with open(context.placeholder_graph_file) as f:
                old_placeholder_graph = FileDependencyGraph.load(f)
'''
SETTINGS = '''        context.host = config["host"]
        context.icon_settings = load_icon_settings(context)
        context.image_settings = load_image_settings(config["images"])
        context.auto_generate_images_js_placeholders = config[
            "auto_generate_images_js_placeholders"
        ]
        context.external_files = load_external_files(config["external_files"])
        context.js_constants = load_js_constants(config["js_constants"])
'''
BSETTINGS = '''    context.icon_settings = load_icon_settings(context)
    context.image_settings = load_image_settings(config["images"])
    context.auto_generate_images_js_placeholders = config[
        "auto_generate_images_js_placeholders"
    ]
    context.external_files = load_external_files(config["external_files"])
    context.js_constants = load_js_constants(config["js_constants"])
'''
CASES = [
    ("bug", "no auto placeholders", [(D, AUTO, '')]),
    ("bug", "no js constants", [(D, '        context.js_constants = load_js_constants(config["js_constants"])\n', '')]),
    ("bug", "no host", [(D, '        context.host = config["host"]\n', '')]),
    ("bug", "host fallback", [(D, 'context.host = config["host"]', 'context.host = config["host"] or "localhost"')]),
    ("bug", "icons only if icons.json changed", [(D, '        context.icon_settings = load_icon_settings(context)\n', '        if any(f.endswith("main.css") for f in changed):\n            context.icon_settings = load_icon_settings(context)\n')]),
    ("bug", "external files raw", [(D, 'load_external_files(config["external_files"])', 'config["external_files"]')]),
    ("bug", "external files empty", [(D, 'load_external_files(config["external_files"])', '{}')]),
    ("bug", "production rebuild", [(D, 'BuildContext(self.folder, dev=True, symlinks=self.symlinks)', 'BuildContext(self.folder, dev=False, symlinks=self.symlinks)')]),
    ("bug", "swapped graphs", [(D, '            old_dependency_graph,\n            old_output_graph,\n            old_placeholder_graph,\n            changed_files', '            old_output_graph,\n            old_dependency_graph,\n            old_placeholder_graph,\n            changed_files')]),
    ("bug", "placeholder from output file", [(D, 'with open(context.placeholder_graph_file) as f:', 'with open(context.output_graph_file) as f:')]),
    ("bug", "placeholder graph not loaded", [(D, '                old_placeholder_graph = FileDependencyGraph.load(f)', '                FileDependencyGraph.load(f)')]),
    ("bug", "config cached", [(D, '        with open(context.config_file) as f:\n            config = json.load(f)\n', '        config = self.config\n'), (D, '        self.folder = folder\n', '        self.folder = folder\n        with open(os.path.join(folder, "vanillaplusjs.json")) as f:\n            self.config = json.load(f)\n')]),
    ("bug", "images from default", [(D, 'load_image_settings(config["images"])', 'load_image_settings(config.get("images", {}).get("dev", config["images"]))')]),
    ("bug", "new setting in build only", [(Bd, '    context.delay_files = delay_files\n', '    context.delay_files = delay_files\n    context.default_css_file = config["default_css_file"]\n')]),
    ("bug", "cwd folder", [(D, 'BuildContext(self.folder, dev=True', 'BuildContext(os.getcwd(), dev=True')]),
    ("bug", "auto negated", [(D, AUTO, '        context.auto_generate_images_js_placeholders = not config[\n            "auto_generate_images_js_placeholders"\n        ]\n')]),
    ("bug", "constants in build replaced", [(Bd, 'load_js_constants(config["js_constants"])', 'load_js_constants(config["js"]["constants"])')]),
    ("same", "shared configure", [(D, SETTINGS, '        configure(context, config)\n'), (D, 'from .build import build', 'from .build import configure, build'), (Bd, '    context.host = config["host"]\n', ''), (Bd, BSETTINGS, '    configure(context, config)\n'), (Bd, 'def build(\n', 'def configure(context, config):\n    context.host = config["host"]\n' + BSETTINGS + '\n\ndef build(\n')]),
    ("same", "config helper", [(D, '        with open(context.config_file) as f:\n            config = json.load(f)\n', '        config = read_config(context)\n'), (D, 'class DevEventHandler', 'def read_config(context):\n    with open(context.config_file, "r") as fp:\n        return json.load(fp)\n\n\nclass DevEventHandler')]),
    ("same", "graph helper", [(D, LOADS, '        old_dependency_graph = load_graph(context.dependency_graph_file)\n        old_output_graph = load_graph(context.output_graph_file)\n        old_placeholder_graph = load_graph(context.placeholder_graph_file)\n'), (D, 'class DevEventHandler', 'def load_graph(path):\n    if not os.path.exists(path):\n        return FileDependencyGraph()\n    with open(path) as f:\n        return FileDependencyGraph.load(f)\n\n\nclass DevEventHandler')]),
    ("same", "order", [(D, '        context.host = config["host"]\n        context.icon_settings = load_icon_settings(context)\n', '        context.icon_settings = load_icon_settings(context)\n        context.host = config["host"]\n')]),
    ("same", "constructor keywords", [(D, '        context = BuildContext(self.folder, dev=True, symlinks=self.symlinks)\n\n        with open(context.config_file) as f:\n            config = json.load(f)\n\n        context.host = config["host"]\n', '        with open(os.path.join(self.folder, "vanillaplusjs.json")) as f:\n            config = json.load(f)\n\n        context = BuildContext(\n            folder=self.folder, dev=True, symlinks=self.symlinks, host=config["host"]\n        )\n')]),
    ("same", "explicit arguments", [(D, '            loop.run_until_complete(\n                hot_incremental_rebuild(\n                    *self.prepare_rebuild(deleted, changed, created)\n                )\n            )\n', '            context, deps, outs, phs, chg, add, dels = self.prepare_rebuild(\n                deleted, changed, created\n            )\n            loop.run_until_complete(\n                hot_incremental_rebuild(context, deps, outs, phs, chg, add, dels)\n            )\n')]),
    ("same", "images local", [(D, '        context.image_settings = load_image_settings(config["images"])\n', '        images = config["images"]\n        context.image_settings = load_image_settings(images)\n')]),
    ("same", "context helper method", [(D, '        context = BuildContext(self.folder, dev=True, symlinks=self.symlinks)\n', '        context = self.new_context()\n'), (D, '    def prepare_rebuild(\n', '    def new_context(self):\n        return BuildContext(self.folder, dev=True, symlinks=self.symlinks)\n\n    def prepare_rebuild(\n')]),
]
