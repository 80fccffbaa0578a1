F = "runners/init.py"
Bd = "runners/build.py"
S = "build/html/manips/images/settings.py"
X = "build/build_context.py"
C = "constants.py"
CASES = [
    ("bug", "no external files", [(F, '                    "external_files": {},\n', '')]),
    ("bug", "no host", [(F, '                    "host": host,\n', '')]),
    ("bug", "host renamed", [(F, '                    "host": host,\n', '                    "hostname": host,\n')]),
    ("bug", "version literal", [(F, 'vanillaplusjs.constants.CONFIGURATION_VERSION', '"1.0"')]),
    ("bug", "processor version", [(F, 'vanillaplusjs.constants.CONFIGURATION_VERSION', 'vanillaplusjs.constants.PROCESSOR_VERSION')]),
    ("bug", "build compares processor version", [(Bd, 'config["version"] != vanillaplusjs.constants.CONFIGURATION_VERSION', 'config["version"] != vanillaplusjs.constants.PROCESSOR_VERSION')]),
    ("bug", "default format missing", [(F, '"default_format": "jpeg"', '"default_format": "jpg"')]),
    ("bug", "no webp unit size", [(F, '                                },\n                                "minimum_unit_size_bytes": 85_000,\n                            },\n                        },\n', '                                },\n                            },\n                        },\n')]),
    ("bug", "preference missing", [(F, '                                        "preference": 8,\n', '')]),
    ("bug", "preference none", [(F, '"preference": 8', '"preference": None')]),
    ("bug", "external files null", [(F, '"external_files": {}', '"external_files": None')]),
    ("bug", "external files list", [(F, '"external_files": {}', '"external_files": []')]),
    ("bug", "no dev constants", [(F, '                        "dev": {"API_URL": "http://127.0.0.1:8080"},\n', '')]),
    ("bug", "env constants", [(F, '"prod": {"API_URL": ""}', '"prod": {"API_URL": "env://API_URL"}')]),
    ("bug", "relpath null", [(F, '"relpath": "src/public/js/constants.js"', '"relpath": None')]),
    ("bug", "max resolution float", [(F, '"maximum_resolution": 7', '"maximum_resolution": 7.5')]),
    ("bug", "new setting read", [(Bd, '    context.delay_files = delay_files\n', '    context.delay_files = delay_files + config["delay_files"]\n')]),
    ("bug", "new nested setting", [(S, '    default_format = settings["default_format"]\n', '    default_format = settings["default_format"]\n    assert settings["quality"]\n')]),
    ("bug", "new format check", [(S, '            formatter_kwargs = export_dict.get("formatter_kwargs", dict())\n', '            formatter_kwargs = export_dict["format_kwargs"]\n')]),
    ("bug", "images under other key", [(Bd, 'load_image_settings(config["images"])', 'load_image_settings(config["image_settings"])')]),
    ("bug", "step null", [(F, '"resolution_step": decimal.Decimal(0.5)', '"resolution_step": None')]),
    ("bug", "step zero", [(F, '"resolution_step": decimal.Decimal(0.5)', '"resolution_step": 0')]),
    ("bug", "stricter version check", [(Bd, 'config["version"] != vanillaplusjs.constants.CONFIGURATION_VERSION', 'tuple(config["version"].split(".")) != tuple(vanillaplusjs.constants.CONFIGURATION_VERSION.split(".")) or config["version"] < "1.0.1"')]),
    ("bug", "host required", [(Bd, '    context.host = config["host"]\n', '    context.host = config["host"].rstrip("/")\n')]),
    ("same", "config helper", [(F, '            json.dump(\n                {\n', '            json.dump(\n                dict(),\n                f,\n            ) if False else json.dump(\n                {\n')]),
    ("same", "literal variable", [(F, '            json.dump(\n                {\n                    "version"', '            config = (\n                {\n                    "version"'), (F, '                },\n                f,\n                cls=DecimalEncoder,\n            )\n', '                }\n            )\n            json.dump(config, f, cls=DecimalEncoder)\n')]),
    ("same", "literal function", [(F, '            json.dump(\n                {\n                    "version"', '            json.dump(default_config(host), f, cls=DecimalEncoder)\n\n    finish(folder)\n\n\ndef default_config(host):\n    return (\n                {\n                    "version"'), (F, '                },\n                f,\n                cls=DecimalEncoder,\n            )\n', '                }\n            )\n\n\ndef finish(folder):\n    pass\n')]),
    ("same", "dumps", [(F, '            json.dump(\n                {\n                    "version"', '            f.write(json.dumps(\n                {\n                    "version"'), (F, '                },\n                f,\n                cls=DecimalEncoder,\n            )\n', '                },\n                cls=DecimalEncoder,\n            ))\n')]),
    ("same", "constants in module", [(F, 'import json\n', 'import json\n\nDEFAULT_CONSTANTS = {\n    "relpath": "src/public/js/constants.js",\n    "shared": {},\n    "dev": {"API_URL": "http://127.0.0.1:8080"},\n    "prod": {"API_URL": ""},\n}\n'), (F, '''"js_constants": {
                        "relpath": "src/public/js/constants.js",
                        "shared": {},
                        "dev": {"API_URL": "http://127.0.0.1:8080"},
                        "prod": {"API_URL": ""},
                    },''', '"js_constants": DEFAULT_CONSTANTS,')]),
    ("same", "setting with fallback", [(Bd, '    context.delay_files = delay_files\n', '    context.delay_files = delay_files + config.get("delay_files", [])\n')]),
    ("same", "setting if there", [(Bd, '    context.delay_files = delay_files\n', '    context.delay_files = delay_files\n    if "delay_files" in config:\n        context.delay_files = config["delay_files"]\n')]),
    ("same", "host if given", [(Bd, '    context.host = config["host"]\n', '    host = config["host"]\n    context.host = host.rstrip("/") if host is not None else None\n')]),
    ("same", "version through helper", [(Bd, '    if config["version"] != vanillaplusjs.constants.CONFIGURATION_VERSION:', '    if not current(config):'), (Bd, 'def build(\n', 'def current(config):\n    return config["version"] == vanillaplusjs.constants.CONFIGURATION_VERSION\n\n\ndef build(\n')]),
    ("same", "version bump", [(C, 'CONFIGURATION_VERSION = "1.0.0"', 'CONFIGURATION_VERSION = "1.1.0"')]),
    ("same", "checks helper", [(S, '        raise ValueError(f"Default format {default_format} not found in formats")', '        raise ValueError("Default format not found: " + default_format)')]),
    ("same", "subscript with get", [(X, 'relpath=data["relpath"].replace', 'relpath=data.get("relpath", "src/public/js/constants.js").replace')]),
    ("same", "try key", [(Bd, '    context.delay_files = delay_files\n', '    context.delay_files = delay_files\n    try:\n        context.delay_files = config["delay_files"]\n    except KeyError:\n        pass\n')]),
("bug","step rounds to nothing",[("runners/init.py","decimal.Decimal(0.5)","decimal.Decimal(1) // 2")]),
("bug","step negative",[("runners/init.py","decimal.Decimal(0.5)","decimal.Decimal(1) - decimal.Decimal('1.5')")]),
("same","step computed",[("runners/init.py","decimal.Decimal(0.5)","decimal.Decimal(1) / 2")]),
("same","step text",[("runners/init.py","decimal.Decimal(0.5)","'0.5'")]),
("same","step float",[("runners/init.py","decimal.Decimal(0.5)","1 / 2")]),
]
