PROPERTY = 'C17'
NEEDS = 'a format option which is a fraction and changes by less than one'
BREAKS = 'images exported with the old option are reused'
EDITS = [('build/html/manips/images/metadata.py', """                else:
                    result = overflow(result * prime + stable_hash(kwarg))
""", """                else:
                    result = overflow(result * prime + stable_hash(int(kwarg) if isinstance(kwarg, float) else kwarg))
""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess, shutil
d = os.environ["DEMO_DIR"]

from vanillaplusjs.build.html.manips.images.settings import load_image_settings
from vanillaplusjs.build.html.manips.images.metadata import hash_image_settings
def h(v):
    return hash_image_settings(load_image_settings({"formats": {"jpeg": {"exports": {"a": {"min_area_px2": None, "max_area_px2": None, "preference": 0, "formatter_kwargs": {"ratio": v}}}, "minimum_unit_size_bytes": 0}}, "default_format": "jpeg", "maximum_resolution": 3, "resolution_step": "0.5"}))
sys.exit(0 if len({h(i) for i in (0.25, 0.5, 1.5, 1.75)}) == 4 else 1)
'''
