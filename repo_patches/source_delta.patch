From 3c4289d9b6514266ade565163b7398090b7ec963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 01/23] fix: forget external files which are no longer
 configured even when nothing else has to be downloaded

---
 .../build/cold_incremental_rebuild.py         | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 796770a..97e6e5e 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -119,7 +119,10 @@ async def check_external_files(context: BuildContext):
     Args:
         context (BuildContext): The context to build in
     """
-    if not context.external_files:
+    desired_external_files = context.external_files or dict()
+    if not desired_external_files and not os.path.exists(
+        context.external_files_state_file
+    ):
         return
 
     external_files_state = ExternalFilesState(state_by_relpath=dict())
@@ -131,10 +134,15 @@ async def check_external_files(context: BuildContext):
 
     new_external_files_state = ExternalFilesState(state_by_relpath=dict())
 
+    forgot_external_file = False
     for old_external_file_relpath in external_files_state.state_by_relpath.keys():
-        if old_external_file_relpath not in context.external_files:
+        if old_external_file_relpath not in desired_external_files:
             logger.info("Deleting old external file {}", old_external_file_relpath)
-            os.remove(os.path.join(context.folder, old_external_file_relpath))
+            forgot_external_file = True
+            try:
+                os.remove(os.path.join(context.folder, old_external_file_relpath))
+            except FileNotFoundError:
+                pass
 
     executor: Optional[ProcessPoolExecutor] = None
     # We don't want to spin up a whole process pool unless we actually have
@@ -142,7 +150,7 @@ async def check_external_files(context: BuildContext):
 
     futures: List[concurrent.futures.Future] = []
     try:
-        for desired_external_file in context.external_files.values():
+        for desired_external_file in desired_external_files.values():
             if is_external_file_skippable(
                 context, external_files_state, desired_external_file.relpath
             ):
@@ -161,13 +169,13 @@ async def check_external_files(context: BuildContext):
         if executor is not None:
             executor.shutdown(wait=True)
 
-    if not futures:
+    if not futures and not forgot_external_file:
         return
 
     for future in futures:
         future.result()
 
-    for desired_external_file in context.external_files.values():
+    for desired_external_file in desired_external_files.values():
         if (
             desired_external_file.relpath
             not in new_external_files_state.state_by_relpath
-- 
2.43.0


From 6c3d44c5287d99abd4e91200dc3563638149a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 02/23] fix: keep pending changes when preparing a rebuild
 fails

The dev server dropped the collected changes, and the exception escaped the
event handler, when reading the graphs of the last build failed.
---
 vanillaplusjs/runners/dev.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index b4282b6..fea6039 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -211,6 +211,14 @@ class DevEventHandler(FileSystemEventHandler):
             self.changed_files.clear()
             self.created_files.clear()
 
+        self.rebuild(deleted, changed, created)
+
+    def prepare_rebuild(
+        self, deleted: Set[str], changed: Set[str], created: Set[str]
+    ) -> tuple:
+        """Determines the arguments for the hot incremental rebuild for the
+        given absolute paths to deleted, changed, and created files.
+        """
         logger.info("Rebuilding...")
 
         context = BuildContext(self.folder, dev=True, symlinks=self.symlinks)
@@ -268,18 +276,27 @@ class DevEventHandler(FileSystemEventHandler):
             for file in deleted_files:
                 logger.debug(f"{file} deleted")
 
+        return (
+            context,
+            old_dependency_graph,
+            old_output_graph,
+            old_placeholder_graph,
+            changed_files,
+            added_files,
+            deleted_files,
+        )
+
+    def rebuild(self, deleted: Set[str], changed: Set[str], created: Set[str]):
+        """Rebuilds the project for the given absolute paths to deleted, changed,
+        and created files. If the rebuild fails for any reason, they are again
+        considered pending.
+        """
         loop = asyncio.new_event_loop()
         asyncio.set_event_loop(loop)
         try:
             loop.run_until_complete(
                 hot_incremental_rebuild(
-                    context,
-                    old_dependency_graph,
-                    old_output_graph,
-                    old_placeholder_graph,
-                    changed_files,
-                    added_files,
-                    deleted_files,
+                    *self.prepare_rebuild(deleted, changed, created)
                 )
             )
 
-- 
2.43.0


From 84ebc180275e45c850002c260a11b0236d578813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 03/23] fix: look for an outlined image in the project folder,
 not the working directory

---
 vanillaplusjs/build/css/manips/outline_image_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index fa1636d..d888d06 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -132,7 +132,7 @@ class OutlineImageDataManipulator(CSSManipulator):
 
         out_path = os.path.join(self.context.folder, out_relpath)
         if need_to_create:
-            if os.path.lexists(out_relpath):
+            if os.path.lexists(out_path):
                 self.reused.add(out_relpath)
             else:
                 self.produced.add(out_relpath)
-- 
2.43.0


From 0cbfd348fe716fadef582b8b2b510915c72eebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 04/23] fix: look for an existing placeholder in the project
 folder, not the working directory

---
 vanillaplusjs/build/handlers/image_glue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index a545fcc..47e0c35 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -149,7 +149,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
         "src", "public", path_rel_to_public_no_ext + ".images.js"
     )
     if context.auto_generate_images_js_placeholders and not os.path.exists(
-        placeholder_path
+        os.path.join(context.folder, placeholder_path)
     ):
         placeholders[placeholder_path] = PLACEHOLDER_FILE
 
-- 
2.43.0


From ea152fb685dfd7e68b02f1ac3d6465b2dcf95913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 05/23] fix: link exported images by absolute path

---
 vanillaplusjs/build/html/manips/images/exporter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index af8e870..18494e1 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -128,7 +128,9 @@ def export_command(
 
                     if context.symlinks:
                         os.symlink(
-                            os.path.join(context.artifacts_folder, output.relpath),
+                            os.path.abspath(
+                                os.path.join(context.artifacts_folder, output.relpath)
+                            ),
                             os.path.join(context.folder, out_file),
                         )
                     else:
@@ -286,7 +288,7 @@ def export_command(
             )
             if context.symlinks:
                 os.symlink(
-                    desired_path,
+                    os.path.abspath(desired_path),
                     os.path.join(context.folder, out_path_relative_to_root),
                 )
             else:
-- 
2.43.0


From f818a141f566cba9d9dee55ef357b107a39ae9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 06/23] fix: the build of an icon reports the svg it reads as a
 dependency

---
 vanillaplusjs/build/css/manips/icons/manip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index a8ece96..2df1562 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -74,6 +74,7 @@ class IconManipulator(CSSManipulator):
         css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
         if self.relpath != css_file_relpath:
             self.children.add(css_file_relpath)
+        self.children.add(args.input_icon)
 
         svg = None
         replacer = None
-- 
2.43.0


From 847ec2b3e358a06027aa4c028d12d783ba197021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 07/23] fix: stylesheet strings and urls are written so that
 they read back as the same value

---
 vanillaplusjs/build/css/serializer.py | 30 ++++++---------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/vanillaplusjs/build/css/serializer.py b/vanillaplusjs/build/css/serializer.py
index 35df8ea..72adbaf 100644
--- a/vanillaplusjs/build/css/serializer.py
+++ b/vanillaplusjs/build/css/serializer.py
@@ -17,7 +17,8 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.string:
         return serialize_string_auto_quote(token["value"])
     elif token["type"] == CSSTokenType.bad_string:
-        return '"\n'
+        # the newline which made the string bad is a token of its own
+        return serialize_string(token["value"], '"')[:-1]
     elif token["type"] == CSSTokenType.hash:
         return "#" + token["value"]
     elif token["type"] == CSSTokenType.delim:
@@ -44,7 +45,7 @@ def serialize(token: CSSToken) -> str:
         return (
             "url("
             + serialize_string(
-                token["value"], quote="", simple_escape_characters=('"', "'", "(", "\\")
+                token["value"], quote="", simple_escape_characters=('"', "'", "(", ")", " ", "\\")
             )
             + ")"
         )
@@ -89,17 +90,6 @@ def serialize_string_auto_quote(string: str) -> str:
     return serialize_string(string, '"')
 
 
-SPECIAL_ESCAPE_CHARACTERS = {
-    "\n": "\\n",
-    "\r": "\\r",
-    "\t": "\\t",
-    "\b": "\\b",
-    "\f": "\\f",
-    "\v": "\\v",
-    "\0": "\\0",
-}
-
-
 def serialize_string(string: str, quote: str, simple_escape_characters=("\\",)) -> str:
     """Serializes the given string, using the given quote character."""
     res = quote
@@ -108,18 +98,10 @@ def serialize_string(string: str, quote: str, simple_escape_characters=("\\",))
             res += "\\" + char
             continue
 
-        if char in SPECIAL_ESCAPE_CHARACTERS:
-            res += SPECIAL_ESCAPE_CHARACTERS[char]
-            continue
-
         char_ord = ord(char)
-        if (
-            0 <= char_ord <= 8
-            or char_ord == 0x000B
-            or 0x000E <= char_ord <= 0x001F
-            or char_ord >= 0x007F
-        ):
-            res += "\\" + hex(char_ord)[2:]
+        if char_ord <= 0x001F or char_ord == 0x007F:
+            # the space ends the escape, so that it cannot swallow what follows
+            res += "\\" + hex(char_ord)[2:] + " "
             continue
 
         res += char
-- 
2.43.0


From d64dd1fd7c6eca51f1ce44476b4398710ce3d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 08/23] fix: script strings are escaped the way scripts read
 them

---
 vanillaplusjs/build/js/serializer.py | 31 +++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 7615e14..12af4fa 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -1,6 +1,5 @@
 from typing import Iterable, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
 
 
 def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
@@ -52,3 +51,33 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
 def serialize_many(token: Iterable[JSToken]) -> str:
     """Serializes the given JS tokens."""
     return "".join(serialize(t) for t in token)
+
+
+SPECIAL_ESCAPE_CHARACTERS = {
+    "\\": "\\\\",
+    "\n": "\\n",
+    "\r": "\\r",
+    "\t": "\\t",
+    "\b": "\\b",
+    "\f": "\\f",
+    "\v": "\\v",
+    "\u2028": "\\u2028",
+    "\u2029": "\\u2029",
+}
+
+
+def serialize_string_auto_quote(string: str) -> str:
+    """Serializes the given string, automatically choosing the best quote
+    character."""
+    quote = "'" if '"' in string and "'" not in string else '"'
+    res = quote
+    for char in string:
+        if char in SPECIAL_ESCAPE_CHARACTERS:
+            res += SPECIAL_ESCAPE_CHARACTERS[char]
+        elif char == quote:
+            res += "\\" + char
+        elif ord(char) <= 0x001F or ord(char) == 0x007F:
+            res += f"\\u{ord(char):04x}"
+        else:
+            res += char
+    return res + quote
-- 
2.43.0


From 562957e8a98a72cb0b25088defac18fa00884cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 09/23] fix: an image export of changed image contents is
 passed over instead of failing the build

---
 vanillaplusjs/build/html/manips/images/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 11a502e..a056190 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -306,7 +306,7 @@ def get_target(
                     "{} is not a match for {}; the source hash is {} but should be {}",
                     entry.path,
                     relpath,
-                    entry_metadata["source"]["contents_hash"],
+                    entry_metadata.source.contents_hash,
                     contents_hash,
                 )
                 continue
-- 
2.43.0


From 843e43ce0a4c274b6037046669b55dda6581b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 10/23] fix: images differing only in their extension do not
 share an unfinished export reservation

---
 vanillaplusjs/build/html/manips/images/metadata.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index a056190..166a182 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -284,8 +284,12 @@ def get_target(
                         with open(
                             os.path.join(entry.path, "placeholder.json"), "r"
                         ) as f:
-                            placeholder = load_image_target_settings(json.load(f))
-                        if placeholder == target:
+                            serd_placeholder = json.load(f)
+                        placeholder = load_image_target_settings(serd_placeholder)
+                        if (
+                            placeholder == target
+                            and serd_placeholder.get("path", relpath) == relpath
+                        ):
                             return int(entry.name)
                 continue
 
@@ -361,7 +365,8 @@ def reserve_target(
         placeholder_path = os.path.join(entry_path, "placeholder.json")
         makedirs_safely(entry_path)
         with open(placeholder_path, "w") as f:
-            json.dump(dataclasses.asdict(target), f)
+            # images differing only in their extension share the artifacts folder
+            json.dump({**dataclasses.asdict(target), "path": relpath}, f)
 
         return counter
 
-- 
2.43.0


From 75b295ac1cd889cee54e01adaafdea09e8a2aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 11/23] fix: two files producing the same output are never
 built at the same time

---
 .../build/hot_incremental_rebuild.py          | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 654d821..897c19b 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -270,9 +270,9 @@ async def hot_incremental_rebuild(
         updated_results: Dict[str, BuildFileResult] = dict()
         pending_results: Dict[str, asyncio.Future] = dict()
         still_dirty_outputs = set(dirtied_outputs)
-        pending_dirty_outputs = set()
         still_dirty_artifacts = set(dirtied_artifacts)
-        pending_artifacts = set()
+        # everything a file which is currently being rebuilt might write
+        pending_outputs = set()
 
         def get_file_depends_on(file: str) -> List[str]:
             if file in updated_children:
@@ -325,7 +325,7 @@ async def hot_incremental_rebuild(
 
                 all_outputs_not_pending = True
                 for output in file_creates:
-                    if output in pending_dirty_outputs or output in pending_artifacts:
+                    if output in pending_outputs:
                         all_outputs_not_pending = False
                         logger.debug(
                             "Cannot rebuild {} while we are cleaning {}",
@@ -337,11 +337,7 @@ async def hot_incremental_rebuild(
                     continue
 
                 rebuildable_files.append(file)
-                for output in file_creates:
-                    if output in still_dirty_outputs:
-                        pending_dirty_outputs.add(output)
-                    elif output in dirtied_artifacts:
-                        pending_artifacts.add(output)
+                pending_outputs.update(file_creates)
 
             if not rebuildable_files and not pending_results:
                 logger.error("No files to rebuild")
@@ -414,18 +410,16 @@ async def hot_incremental_rebuild(
 
                     updated_results[pending_file] = rebuild_result
                     del pending_results[pending_file]
+                    pending_outputs.difference_update(get_file_creates(pending_file))
                     for file in rebuild_result.produced:
                         if file in still_dirty_outputs:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Updated {} using {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Produced {} from {}", file, pending_file)
                     for file in rebuild_result.reused:
@@ -435,7 +429,6 @@ async def hot_incremental_rebuild(
                                 file,
                             )
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug(
                                 "Determined {} is not dirty using {}",
@@ -443,10 +436,8 @@ async def hot_incremental_rebuild(
                                 pending_file,
                             )
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Reused {} in {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Reused {} for {}", file, pending_file)
 
-- 
2.43.0


From 4f6b0ab385886e0d601b74636cd9505323e53bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 12/23] fix: an image changed after it was exported is exported
 again instead of failing the build

---
 vanillaplusjs/build/html/manips/images/exporter.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 18494e1..a02fcc6 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -21,7 +21,7 @@ from vanillaplusjs.build.html.manips.images.metadata import (
     ImageTarget,
     ImageTargetOutput,
     ImageTargetSettings,
-    get_target,
+    get_or_reserve_target,
     hash_image_settings,
     load_metadata,
     reserve_target_lock_path,
@@ -67,10 +67,9 @@ def export_command(
         crop_settings=crop_settings,
     )
 
-    target_id = get_target(context, path_relative_to_public, target)
-    assert (
-        target_id is not None
-    ), f"a target for {path_relative_to_public=} should have been made during scanning"
+    # usually made during scanning, but if only the image changed then the file
+    # which references it was not scanned again
+    target_id = get_or_reserve_target(context, path_relative_to_public, target)
 
     path_rel_to_public_no_ext = os.path.splitext(path_relative_to_public)[0]
     source_art_folder_relative_to_root = os.path.join(
-- 
2.43.0


From 47bc838bf2d056b812ddfa944721890235594ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 13/23] fix: initialise a folder which does not exist yet

---
 vanillaplusjs/runners/init.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/runners/init.py b/vanillaplusjs/runners/init.py
index f5f1e13..ad0773b 100644
--- a/vanillaplusjs/runners/init.py
+++ b/vanillaplusjs/runners/init.py
@@ -52,6 +52,10 @@ def init(folder: str, host: Optional[str] = None) -> None:
         host (str, None): If the host where the website will be hosted
             is known, that host to initialize the configuration with
     """
+    makedirs_safely(os.path.join(folder, "src", "public", "img"))
+    makedirs_safely(os.path.join(folder, "src", "public", "js"))
+    makedirs_safely(os.path.join(folder, "src", "partials"))
+
     if not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):
         with open(os.path.join(folder, "vanillaplusjs.json"), "w") as f:
             json.dump(
@@ -162,10 +166,6 @@ def init(folder: str, host: Optional[str] = None) -> None:
                 cls=DecimalEncoder,
             )
 
-    makedirs_safely(os.path.join(folder, "src", "public", "img"))
-    makedirs_safely(os.path.join(folder, "src", "public", "js"))
-    makedirs_safely(os.path.join(folder, "src", "partials"))
-
     if not os.path.exists(os.path.join(folder, "src", "public", "index.html")):
         with open(os.path.join(folder, "src", "public", "index.html"), "w") as f:
             print("<!DOCTYPE html>", file=f)
-- 
2.43.0


From 535b697569bd031cbbb2f7301b2b97666b5cb73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 14/23] fix: record the mode of the constants file only once
 the build succeeded

---
 .../build/hot_incremental_rebuild.py          | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 897c19b..32f8850 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Set, Tuple
+from typing import Dict, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -87,6 +87,7 @@ async def hot_incremental_rebuild(
         context.folder,
     )
 
+    new_constants_mode: Optional[Literal["dev", "prod"]] = None
     if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
         current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
         old_constants_mode = None
@@ -109,11 +110,13 @@ async def hot_incremental_rebuild(
                     os.path.join(context.folder, context.js_constants.relpath)
                 )
 
-            makedirs_safely(context.out_folder)
-            with open(
-                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
-            ) as f:
-                f.write(current_mode)
+            # Until this build succeeds we do not know which mode the constants
+            # file was generated for.
+            new_constants_mode = current_mode
+            try:
+                os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
+            except FileNotFoundError:
+                pass
     else:
         try:
             os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
@@ -598,6 +601,12 @@ async def hot_incremental_rebuild(
         with open(context.placeholder_graph_file, "w") as fp:
             new_placeholder_graph.store(fp)
 
+        if new_constants_mode is not None:
+            with open(
+                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
+            ) as f:
+                f.write(new_constants_mode)
+
         logger.debug("Finished storing dependency, output, and placeholder graphs")
         logger.info('"{}" rebuilt successfully', context.folder)
 
-- 
2.43.0


From a8ed7e9d6486b0cc8b472b091b7cf22e58071388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 15/23] fix: other files producing a cleaned output are rebuilt
 as well

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 32f8850..615afc1 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -244,6 +244,13 @@ async def hot_incremental_rebuild(
                     else:
                         dirtied_outputs.add(child)
 
+                    # this output might be cleaned, so everything else which
+                    # needs it has to produce it again
+                    for par in old_output_graph.get_parents(child):
+                        if par not in files_to_rebuild:
+                            files_to_rebuild.add(par)
+                            stack.append(par)
+
         files_to_rebuild = [
             file for file in files_to_rebuild if file not in deleted_files
         ]
-- 
2.43.0


From 6f0e6cd5e8a7d9f76522549f6fc11af016f8ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 16/23] fix: wait for the server to stop when the observer died

---
 vanillaplusjs/runners/dev.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index fea6039..98ce36c 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -150,6 +150,7 @@ def dev(folder: str, host: str, port: int, watch: bool, debounce: int) -> None:
                 shutdown_event.set()
                 break
             event_handler.rebuild_if_appropriate()
+        server_thread.join()
         logger.info("Server stopped")
         if observer.is_alive():
             observer.stop()
-- 
2.43.0


From 975f1bd2a43bc61242d89a2a2567f292727a9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 17/23] fix: leave protocol-relative references alone

---
 vanillaplusjs/build/css/manips/version_urls.py | 3 +++
 vanillaplusjs/build/html/manips/link_hash.py   | 3 +++
 vanillaplusjs/build/js/manips/hash_imports.py  | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index a6957c1..ea54fd0 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -81,6 +81,9 @@ class VersionURLsManipulator(CSSManipulator):
         if not url.startswith("/"):
             return None
 
+        if url.startswith("//"):
+            return None
+
         if "?" in url:
             return None
 
diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index 6117fec..f6c7ea9 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -190,6 +190,9 @@ class LinkHash(HTMLManipulator):
         if href is None or not href.startswith("/") or any(c in "?#" for c in href):
             return None
 
+        if href.startswith("//"):
+            return None
+
         return LinkDependency(
             name=node["name"],
             attr_name=link_type.attr_name,
diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index d23cd20..baf4265 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -117,6 +117,8 @@ class HashImportsManipulator(JSYieldManipulator):
     def _handle_import(self, import_path: str) -> Union[Literal[False], List[JSToken]]:
         if not any(import_path.startswith(prefix) for prefix in ("/", "./", "../")):
             return self._mark_import_bad("unexpected path format")
+        if import_path.startswith("//"):
+            return self._mark_import_bad("unexpected path format")
         if any(ch in import_path for ch in "?#"):
             return self._mark_import_bad("path contains invalid characters")
 
-- 
2.43.0


From 5add4ab7408ccc723e96795925eb1941a2de743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 18/23] fix: leave stylesheet urls with a fragment alone

---
 vanillaplusjs/build/css/manips/version_urls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index ea54fd0..3b62ca3 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -84,7 +84,7 @@ class VersionURLsManipulator(CSSManipulator):
         if url.startswith("//"):
             return None
 
-        if "?" in url:
+        if "?" in url or "#" in url:
             return None
 
         path_relative_to_public = url[1:].replace("/", os.path.sep)
-- 
2.43.0


From 4712a9f57377d44937d1bfb08d2266d856f57bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 19/23] fix: probe for symlinks in a temporary directory

---
 vanillaplusjs/runners/build.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/runners/build.py b/vanillaplusjs/runners/build.py
index c7c4533..cb7ffb1 100644
--- a/vanillaplusjs/runners/build.py
+++ b/vanillaplusjs/runners/build.py
@@ -4,6 +4,7 @@ from loguru import logger
 import os
 import sys
 import json
+import tempfile
 from vanillaplusjs.build.build_context import (
     BuildContext,
     ExternalFile,
@@ -190,15 +191,13 @@ def build(
 
 def detect_symlink_support() -> bool:
     try:
-        with open("___symlink_test___.txt", "w") as f:
-            f.write("test")
+        with tempfile.TemporaryDirectory() as folder:
+            target = os.path.join(folder, "target.txt")
+            with open(target, "w") as f:
+                f.write("test")
 
-        os.symlink("___symlink_test___.txt", "___symlink_test___2.txt")
+            os.symlink(target, os.path.join(folder, "link.txt"))
         return True
     except OSError:
         logger.debug("Symlinks disabled (unsupported)")
         return False
-    finally:
-        if os.path.exists("___symlink_test___2.txt"):
-            os.remove("___symlink_test___2.txt")
-        os.remove("___symlink_test___.txt")
-- 
2.43.0


From 2995ed5a75acaccd51f1361de42a3e7b1b2f38be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 20/23] fix: do not publish files of folders whose name starts
 like the public folder

---
 vanillaplusjs/build/handlers/copy.py       | 4 ++--
 vanillaplusjs/build/handlers/image_glue.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/handlers/copy.py b/vanillaplusjs/build/handlers/copy.py
index 88f1ff3..cf749ed 100644
--- a/vanillaplusjs/build/handlers/copy.py
+++ b/vanillaplusjs/build/handlers/copy.py
@@ -16,10 +16,10 @@ def get_target_path(context: BuildContext, relpath: str) -> Optional[str]:
     """
     # A lot of the path related functions here are shockingly slow, hence
     # this is a bit of a hack to make scanning faster
-    rel_public_folder = f"src{os.path.sep}public"
+    rel_public_folder = f"src{os.path.sep}public{os.path.sep}"
     if not relpath.startswith(rel_public_folder):
         return None
-    relative_to_public_folder = relpath[len(rel_public_folder) + len(os.path.sep) :]
+    relative_to_public_folder = relpath[len(rel_public_folder) :]
     return f"out{os.path.sep}www{os.path.sep}{relative_to_public_folder}"
 
 
diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 47e0c35..6554ee2 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -117,7 +117,7 @@ def handles_file(context: BuildContext, relpath: str) -> bool:
     Returns:
         bool: True if this handler wants to handle the file, false otherwise
     """
-    return relpath.startswith(os.path.join("src", "public")) and (
+    return relpath.startswith(os.path.join("src", "public") + os.path.sep) and (
         relpath.endswith(".images.json") or relpath.endswith(".images.js")
     )
 
-- 
2.43.0


From 26c6459eac0b78648bf16e04684d4ffc40d3b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 21/23] fix: build stylesheets and scripts outside the public
 folder to nothing

---
 vanillaplusjs/build/handlers/css.py | 6 ++++++
 vanillaplusjs/build/handlers/js.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 6492a4f..817016a 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -41,6 +41,10 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".css"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -67,6 +71,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index e608d0e..3e810e1 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -35,6 +35,10 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".js"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -61,6 +65,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
-- 
2.43.0


From a72b48c89c908af88c608b46332e1d77a3488ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 22/23] fix: do not take images from beside the public folder

---
 vanillaplusjs/build/html/manips/images/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index e9ff9f6..86a2d07 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -178,7 +178,9 @@ def validate_command(
     path_relative_to_root = command.source_path_relative_to_root(
         context, command_file_path
     )
-    if not path_relative_to_root.startswith(os.path.join("src", "public")):
+    if not path_relative_to_root.startswith(
+        os.path.join("src", "public") + os.path.sep
+    ):
         return False
 
     try:
-- 
2.43.0


From 40464be067f58c9c8b961a31750e56273784963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:55 +0000
Subject: [PATCH 23/23] fix: keep the attributes of inline style blocks instead
 of failing on them

---
 vanillaplusjs/build/html/manips/outline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index be7aa16..40e4fbe 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -109,7 +109,7 @@ class OutlineManipulator(HTMLManipulator):
                     os.path.join(self.context.folder, self.outlining_to_path), "w"
                 )
                 self.start_tag_attrs = dict(
-                    (key, val) for (_, key), val in node["data"]
+                    (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
 
-- 
2.43.0

