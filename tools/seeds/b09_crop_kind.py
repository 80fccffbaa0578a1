PROPERTY = 'C18'
NEEDS = 'two images of one source and size which differ in the crop settings only'
BREAKS = 'images which were exported for another crop are taken'
EDITS = [('build/html/manips/images/metadata.py', """            if entry_metadata.target.settings != target:
""", """            if (
                entry_metadata.target.settings.width != target.width
                or entry_metadata.target.settings.height != target.height
                or entry_metadata.target.settings.crop != target.crop
            ):
""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

import dataclasses
import vanillaplusjs.build.html.manips.images.metadata as M
from vanillaplusjs.build.html.manips.images.settings import load_image_settings
from vanillaplusjs.build.build_context import BuildContext
c = BuildContext(d, False, False)
c.image_settings = load_image_settings({"formats": {"jpeg": {"exports": {}, "minimum_unit_size_bytes": 0}}, "default_format": "jpeg", "maximum_resolution": 3, "resolution_step": "0.5"})
os.makedirs(os.path.join(c.public_folder, "img")); open(os.path.join(c.public_folder, "img/a.png"), "wb").write(b"x")
base = {"width": 10, "height": 10, "crop": "cover", "crop_settings": {"pre_top_crop": 0, "pre_left_crop": 0, "pre_bottom_crop": 0, "pre_right_crop": 0, "crop_left_percentage": 0.5, "crop_top_percentage": 0.5}}
def target(left):
    s = json.loads(json.dumps(base)); s["crop_settings"]["crop_left_percentage"] = left
    return M.load_image_target_settings(s)
t = target(0.5)
e = os.path.join(c.artifacts_folder, "img/a/0"); os.makedirs(e)
md = {"source": {"path": "img/a.png", "contents_hash": M.calculate_hash(os.path.join(c.public_folder, "img/a.png")), "width": 20, "height": 20}, "settings_hash": M.hash_image_settings(c.image_settings), "target": {"settings": dataclasses.asdict(t), "outputs": {}}}
json.dump(md, open(os.path.join(e, "metadata.json"), "w"))
M.load_metadata(json.load(open(os.path.join(e, "metadata.json"))))
same, other = M.get_target(c, "img/a.png", t), M.get_target(c, "img/a.png", target(0.0))
print(same, other)
sys.exit(0 if same == 0 and other is None else 1)
'''
