M="build/html/manips/images/metadata.py"; X="build/html/manips/images/exporter.py"; S="build/html/manips/images/scanner.py"
SET='''            if entry_metadata.settings_hash != settings_hash:
                logger.debug(
                    "{} is not a match for {}; the settings hash is {} but should be {}",
                    entry.path,
                    relpath,
                    entry_metadata.settings_hash,
                    settings_hash,
                )
                continue
'''
CON='''            if entry_metadata.source.contents_hash != contents_hash:
                logger.debug(
                    "{} is not a match for {}; the source hash is {} but should be {}",
                    entry.path,
                    relpath,
                    entry_metadata.source.contents_hash,
                    contents_hash,
                )
                continue
'''
TGT='''            if entry_metadata.target.settings != target:
                logger.debug(
                    "{} is not a match for {}; the target settings are {} but should be {}",
                    entry.path,
                    relpath,
                    entry_metadata.target.settings,
                    target,
                )
                continue
'''
PH='''                        if (
                            placeholder == target
                            and serd_placeholder.get("path", relpath) == relpath
                        ):
'''
CASES=[
("bug","no settings",[(M,SET,"")]),
("bug","no contents",[(M,CON,"")]),
("bug","no target",[(M,TGT,"")]),
("bug","target size only",[(M,"            if entry_metadata.target.settings != target:\n","            if (\n                entry_metadata.target.settings.width != target.width\n                or entry_metadata.target.settings.height != target.height\n            ):\n")]),
("bug","and instead of or",[(M,SET+CON,'''            if (
                entry_metadata.settings_hash != settings_hash
                and entry_metadata.source.contents_hash != contents_hash
            ):
                continue
''')]),
("bug","contents subscript",[(M,'''                    entry_metadata.source.contents_hash,
                    contents_hash,''','''                    entry_metadata.source["contents_hash"],
                    contents_hash,''')]),
("bug","log attribute",[(M,'''                    entry_metadata.target.settings,
                    target,''','''                    entry_metadata.target_settings,
                    target,''')]),
("bug","raise on mismatch",[(M,TGT,TGT.replace("continue","raise ValueError('stale export')"))]),
("bug","none on mismatch",[(M,CON,CON.replace("continue","return None"))]),
("bug","break on mismatch",[(M,SET,SET.replace("continue","break"))]),
("bug","placeholder no path",[(M,PH,"                        if placeholder == target:\n")]),
("bug","placeholder any",[(M,PH,'                        if serd_placeholder.get("path", relpath) == relpath:\n')]),
("bug","compare width off",[(M,"class ImageTargetSettings:\n","class ImageTargetSettings:\n    def __eq__(self, other):\n        return self.width == other.width and self.crop == other.crop\n\n")]),
("bug","eq false",[(M,"@dataclass(frozen=True)\nclass CropSettingsCover","@dataclass(eq=False)\nclass CropSettingsCover")]),
("bug","other source field",[(M,"entry_metadata.source.contents_hash != contents_hash","entry_metadata.source.path != relpath")]),
("bug","source hash of fixed",[(M,"entry_metadata.source.contents_hash != contents_hash","entry_metadata.source.contents_hash is None")]),
("bug","load mixes hash",[(M,'contents_hash=serd["source"]["contents_hash"]','contents_hash=serd["source"]["path"]')]),
("bug","settings hash of default",[(M,"    settings_hash = hash_image_settings(context.image_settings)\n","    settings_hash = hash_image_settings(context.default_image_settings)\n")]),
("bug","hash of other image",[(M,'os.path.join(context.out_folder, "www", relpath + ".hash")','os.path.join(context.out_folder, "www", os.path.basename(relpath) + ".hash")')]),
("bug","recorded other hash",[(X,'        contents_hash=contents_hash,\n','        contents_hash=str(image_width),\n')]),
("bug","recorded settings",[(X,'        settings_hash=settings_hash,\n','        settings_hash=0,\n')]),
("bug","recorded other target",[(X,'            settings=target,\n            outputs','            settings=dataclasses.replace(target, width=target.height),\n            outputs')]),
("bug","swapped request",[(X,'''        width=command.width,
        height=command.height,
        crop=''','''        width=command.height,
        height=command.width,
        crop=''')]),
("bug","scan default crop",[(S,'CropSettingsCover(**command.crop_arguments)','CropSettingsCover()')]),
("bug","encoder default crop",[(X,'''                            crop_settings,
                            format_name''','''                            CropSettingsCover(),
                            format_name''')]),
("bug","skip when one",[(M,CON,'''            if contents_hash and entry_metadata.source.contents_hash != contents_hash:
                continue
''')]),
("bug","hash optional",[(M,CON,'''            if (
                os.path.getmtime(entry.path) < os.path.getmtime(os.path.join(context.public_folder, relpath))
                and entry_metadata.source.contents_hash != contents_hash
            ):
                continue
''')]),
("same","positive",[(M,SET+CON+TGT+"\n            return int(entry.name)\n",'''            if (
                entry_metadata.settings_hash == settings_hash
                and entry_metadata.source.contents_hash == contents_hash
                and entry_metadata.target.settings == target
            ):
                return int(entry.name)
''')]),
("same","flag",[(M,SET+CON+TGT+"\n            return int(entry.name)\n",'''            same = (
                entry_metadata.settings_hash == settings_hash
                and entry_metadata.source.contents_hash == contents_hash
                and entry_metadata.target.settings == target
            )
            if same:
                return int(entry.name)
''')]),
("same","helper",[(M,SET+CON+TGT,'''            if not _matches(entry_metadata, settings_hash, contents_hash, target):
                continue
'''),(M,"def get_target(\n",'''def _matches(found, settings_hash, contents_hash, target) -> bool:
    if found.settings_hash != settings_hash:
        return False
    if found.source.contents_hash != contents_hash:
        return False
    return found.target.settings == target


def get_target(
''')]),
("same","helper tuple",[(M,SET+CON+TGT,'''            if (
                entry_metadata.settings_hash,
                entry_metadata.source.contents_hash,
                entry_metadata.target.settings,
            ) != (settings_hash, contents_hash, target):
                continue
''')]),
("same","found then return",[(M,"            return int(entry.name)\n\n        return None\n    finally","            found = int(entry.name)\n            break\n\n        return found\n    finally"),(M,"    scanner = os.scandir(art_path)\n","    found = None\n    scanner = os.scandir(art_path)\n")]),
("same","for loop",[(M,'''        while True:
            try:
                entry = next(scanner)
            except StopIteration:
                break

            if not entry''','''        for entry in scanner:
            if not entry''')]),
("same","listdir",[(M,'''    scanner = os.scandir(art_path)
    try:
        while True:
            try:
                entry = next(scanner)
            except StopIteration:
                break

            if not entry.is_dir():
                continue
''','''    try:
        for name in os.listdir(art_path):
            entry_path = os.path.join(art_path, name)
            if not os.path.isdir(entry_path):
                continue
'''),(M,"entry.path","entry_path",1),(M,"entry.name","name",1),(M,"        scanner.close()","        logger.debug('looked')")]),
("same","reorder",[(M,SET+CON+TGT,TGT+CON+SET)]),
("same","exporter helper",[(X,'''    crop_settings = CropSettingsCover(**command.crop_arguments)
    target = ImageTargetSettings(
        width=command.width,
        height=command.height,
        crop=command.crop_style,
        crop_settings=crop_settings,
    )
''','''    target = _target(command)
    crop_settings = target.crop_settings
'''),(X,"def export_command(\n",'''def _target(command):
    return ImageTargetSettings(
        command.width,
        command.height,
        command.crop_style,
        CropSettingsCover(**command.crop_arguments),
    )


def export_command(
''')]),
("same","placeholder nested",[(M,PH,'''                        same_image = serd_placeholder.get("path", relpath) == relpath
                        if same_image and target == placeholder:
''')]),
]
