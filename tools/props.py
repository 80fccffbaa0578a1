#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
B = "vanillaplusjs/build/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in state]
    P.append(d)

COLD = B + "cold_incremental_rebuild.py"; HOT = B + "hot_incremental_rebuild.py"; GRAPH = B + "graph.py"
DEV = "vanillaplusjs/runners/dev.py"; BUILD = "vanillaplusjs/runners/build.py"; CLEAN = "vanillaplusjs/runners/clean.py"
INIT = "vanillaplusjs/runners/init.py"; CTX = B + "build_context.py"
IMG = B + "html/manips/images/"; HND = B + "handlers/"

p("C01", "External files are installed only after their integrity was verified",
  "Content downloaded for a configured external file reaches that file's location in the project only by atomically moving a complete temporary download whose digest was compared equal to the configured integrity after the last byte was written. A failed transfer, an HTTP error status or a digest mismatch makes the build fail, puts nothing of the download at the location and leaves no temporary file behind.",
  ["inputs", "fault_sequences", "crash_points"], "for every configured file, server response, truncation, digest mismatch and crash point of the download",
  "The external-file test needs the network and is excluded; it only exercises one good URL, never a bad digest, truncated body or a crash between the download and the move.",
  [COLD], [("handle_external_file", COLD), ("ensure_integrity", COLD)])
p("C02", "External files are remembered as good only after every download succeeded",
  "The remembered state of external files is written only after every download started in that build finished without error, and each file is remembered with the integrity configured for it and a signature of the file at its own location. Files no longer configured are deleted from the project and are forgotten in the same build, including when nothing else has to be downloaded.",
  ["fault_sequences", "histories", "configurations"], "for every sequence of configurations and every subset of failing downloads",
  "Tests run one build with one download that succeeds; the failure of one of several downloads, and removing an entry later, are never exercised.",
  [COLD, CTX], [("check_external_files", COLD), ("ExternalFilesState", CTX)])
p("C03", "An external file is re-verified unless nothing about it changed",
  "Verification of an external file is skipped only if the file is remembered, the remembered integrity equals the configured one, the file exists, and its current modification time, size and inode all equal the remembered ones. In every other case the content is checked against the configured integrity before the build goes on.",
  ["histories", "configurations"], "for every earlier build, edit of the file on disk and change of the configured integrity",
  "No stable test changes the configured integrity or the file between two builds.",
  [COLD, B + "file_signature.py"], [("is_external_file_skippable", COLD), ("get_file_signature", B + "file_signature.py")])
p("C04", "Dev watcher state is touched only under its lock",
  "While the development server watches for changes, the shared record of pending created, changed and deleted files, the time of the last change and the unbuildable flag are read and written only while the watcher's lock is held, on every path of the file-event callbacks and of the rebuild loop. The lock is released on every path, including failures.",
  ["schedules"], "for every interleaving of file-system notifications with the rebuild loop",
  "There are no tests of the watcher; a race needs a notification at one particular instant.",
  [DEV], [("DevEventHandler", DEV)])
p("C05", "A failed rebuild in watch mode loses no file event and does not stop watching",
  "The pending created, changed and deleted files are taken over and cleared in one critical section, so an event arriving meanwhile is kept for the next rebuild. If anything in the rebuild fails afterwards, including reading the configuration or the stored graphs or inspecting a file that vanished, the failure is contained and all taken events that still match the disk are put back, and the project is not rebuilt again until a new event arrives.",
  ["schedules", "fault_sequences"], "for every failure point of a rebuild and every arrival time of events",
  "There are no tests of the watcher; the failure points are malformed configuration, files deleted between notification and rebuild, and build errors.",
  [DEV], [("DevEventHandler.rebuild_if_appropriate", DEV)])
p("C06", "Scanning and building choose the same processing for every file",
  "For every project file, the scan step and the build step select the same kind of processing (script constants, generated image metadata, page, stylesheet, script or plain copy) by the same tests in the same precedence. Every file is handled by exactly one kind.",
  ["inputs"], "for every relative path and configuration",
  "Tests use a handful of file names; a precedence difference shows only for paths matching two kinds at once.",
  [B + "scan_file.py", B + "build_file.py"], [("scan_file", B + "scan_file.py"), ("build_file", B + "build_file.py")])
p("C07", "Building a file reports only outputs its scan announced",
  "Every output or artifact path that building a file can report as produced or as reused is of a form which scanning the same file announces among the paths it will produce. The scheduler relies on this to keep two builders off one output and to clean dirty outputs.",
  ["inputs", "configurations"], "for every source file, whether its outputs already exist or not",
  "Tests compare the results for a few projects; a mismatch in a rarely taken branch (output already present, second inline block) is not sampled.",
  [HND + "css.py", HND + "html.py", HND + "js.py", HND + "image_glue.py", IMG + "exporter.py", IMG + "scanner.py", B + "html/manips/outline.py", B + "css/manips/outline_image_data.py", B + "css/manips/icons/manip.py"],
  [("scan_file / build_file of each handler", HND), ("scan_result / build_result of each manipulator", B)])
p("C08", "Every project file a build step reads is reported as a dependency",
  "Whenever building one source file reads the contents of another file of the project (its source, or a hash or artifact produced from it), that file or its product is reported among the dependencies of the built file, and the scan of the same file reports it too, except files the same step itself produced. Hence editing the read file rebuilds the reader.",
  ["inputs", "histories"], "for every source file and every edit of a file it reads",
  "Incremental tests cover a few pairs of files; a missing dependency only shows after editing exactly the read file.",
  [B + "html/manips/link_hash.py", B + "html/manips/template.py", B + "css/manips/version_urls.py", B + "js/manips/hash_imports.py", IMG + "exporter.py", B + "css/manips/icons/manip.py"],
  [("start_mark/continue_mark/handle of each manipulator", B)])
p("C09", "Every file a build step leaves under out or artifacts is reported",
  "Each file which building a source file writes, copies, links or moves into the output or artifacts folder and does not remove again is reported by that build step as produced, so that it can be cleaned when the source goes away; and an output is reported as reused only when it was found to exist.",
  ["inputs", "histories"], "for every source file and every prior content of the output folders",
  "Tests list outputs of some projects; an unreported output is only noticed when its source is deleted later.",
  [HND, IMG + "exporter.py", B + "css/manips/icons/manip.py", B + "css/manips/outline_image_data.py", B + "html/manips/outline.py"],
  [("build_file of each handler", HND), ("export_command", IMG + "exporter.py")])
p("C10", "Every stylesheet and script token kind can be written back",
  "Every kind of token that the stylesheet tokenizer or the script tokenizer can emit, or that a rewriting step can insert, has a serialization, and each serialization that depends on token details uses all the details the tokenizer recorded for that kind (value, unit, flags). No input can therefore reach an unknown-token error or silently lose a recorded detail, and no character of a quoted text or an address can end it early or change what follows when the result is read again.",
  ["inputs"], "for every stylesheet and script",
  "Tests tokenize a few inputs and never all token kinds.",
  [B + "css/tokenizer.py", B + "css/serializer.py", B + "js/tokenizer.py", B + "js/serializer.py"],
  [("serialize", B + "css/serializer.py"), ("serialize", B + "js/serializer.py"), ("tokenize", B + "css/tokenizer.py")])
p("C11", "Cache-busting query strings carry the hash of the file they point to",
  "Whenever a reference in a page, stylesheet or script gets a cache-busting query, the query's version is the stored hash of exactly the file the reference names, together with the processor version, and it is appended to that reference's own path (in its root-relative form). References which already have a query or a fragment, which name another host, and those of pages and stylesheets which are not root-relative, get none.",
  ["inputs"], "for every reference in every source file",
  "Tests use one or two references per file, so a stale hash or one taken from a neighbouring reference is rarely visible.",
  [B + "html/manips/link_hash.py", B + "html/manips/outline.py", B + "css/manips/version_urls.py", B + "css/manips/outline_image_data.py", B + "js/manips/hash_imports.py"],
  [("continue_mark", B)])
p("C12", "A published hash is the digest of the finished published bytes",
  "The stored hash of a processed output is the URL-safe base64 SHA-256 digest of the complete bytes of that same output, computed only after the output was completely written and closed; no build step modifies an output after its hash was computed.",
  ["inputs"], "for every output and every order of rewriting steps",
  "Tests compare hashes for small inputs; buffering effects show only for large outputs and ordering bugs only for particular steps.",
  [HND + "hash.py", HND + "css.py", HND + "js.py", HND + "html.py", HND + "js_constants.py", HND + "image_glue.py"],
  [("calculate_hash", HND + "hash.py"), ("build_file of each handler", HND)])
p("C13", "The file graph's parent and child edges always mirror each other",
  "After every operation on the dependency, output and placeholder graphs, each recorded child edge has the matching parent edge and vice versa, and removing a file removes it from all its neighbours. Only the graph itself changes its edges.",
  ["histories"], "for every sequence of graph operations",
  "Unit tests run short fixed sequences and mostly look at one direction.",
  [GRAPH], [("FileDependencyGraph.add_file/remove_file/set_children", GRAPH)])
p("C14", "A rejected graph operation leaves the graph unchanged",
  "Every file-graph operation that raises an error for unknown files, existing files, remaining neighbours or a cycle raises before it changes anything. A cycle through the updated file is rejected before the edges are replaced unless the caller disabled that.",
  ["histories", "inputs"], "for every graph and every invalid argument",
  "Unit tests check that errors are raised, not that the graph is intact afterwards.",
  [GRAPH], [("FileDependencyGraph.add_file/remove_file/set_children", GRAPH)])
p("C15", "Everything persisted between builds is read back field for field",
  "Each record written to disk between builds (file graphs, remembered external files with their signatures, reserved image targets, image metadata) is read back with every written field restored into the field of the same meaning, and nothing is required that was not written.",
  ["histories"], "for every build history",
  "Round-trip tests cover graphs only, with values that would not reveal swapped fields.",
  [GRAPH, CTX, B + "file_signature.py", IMG + "metadata.py"],
  [("store/load", GRAPH), ("from_json", CTX), ("store_metadata/load_metadata", IMG + "metadata.py")])
p("C16", "A source file counts as unchanged only if its whole signature matches",
  "A cold build treats a source file as unchanged only if it is known from the previous build and its modification time, size and inode each equal the recorded ones; a known file that differs in any of them is rebuilt as changed, an unknown one as added, and a recorded one that is missing as deleted. The three values are never confused with each other between measuring, recording and comparing.",
  ["histories", "inputs"], "for every edit history of the source folder",
  "Tests edit contents (changing several values at once), so dropping or swapping one of the three values stays invisible.",
  [COLD, HOT, GRAPH, B + "file_signature.py"],
  [("cold_incremental_rebuild", COLD), ("check_file", GRAPH), ("get_file_signature", B + "file_signature.py")])
p("C17", "Changing any image setting invalidates previously exported images",
  "The fingerprint of the image settings depends on every configured image setting: each format's name and minimum size, each export's name, area limits, preference and encoder arguments, and the default format, maximum resolution and resolution step, independent of dictionary order and of the process computing it.",
  ["configurations"], "for every pair of image configurations",
  "Tests use one image configuration.",
  [IMG + "metadata.py", IMG + "settings.py"], [("hash_image_settings", IMG + "metadata.py")])
p("C18", "Exported images are reused only for the same image, settings and crop",
  "A finished image export found in the artifacts is reused for a request only if its recorded settings fingerprint, source content hash and target size and crop all equal those of the request; an unfinished export is joined only by requests for the same image, size and crop; and an export differing in one of them is passed over without failing the build.",
  ["histories", "configurations"], "for every history of image, setting and crop changes",
  "Tests build the same image with the same settings; changing the image under an existing export is not tested.",
  [IMG + "metadata.py"], [("get_target", IMG + "metadata.py")])
p("C19", "Concurrent reservations of image export ids never collide",
  "The next export id of an image is read, incremented and written back, and its folder claimed, entirely within one inter-process lock specific to that image's artifacts folder; whoever inspects a not yet finished reservation does so under the same lock.",
  ["schedules"], "for every interleaving of worker processes",
  "Tests do not race two workers on one image.",
  [IMG + "metadata.py"], [("reserve_target/get_target", IMG + "metadata.py")])
p("C20", "An image export is marked complete only after all its files exist",
  "The metadata which marks an image export as complete is written last, after every encoder job finished without error and every listed artifact is in its final place, so an interrupted or failed export is never taken for a complete one.",
  ["crash_points", "fault_sequences"], "for every crash point and encoder failure during an export",
  "Tests never interrupt an export.",
  [IMG + "exporter.py"], [("export_command", IMG + "exporter.py")])
p("C21", "Initialising a project never overwrites existing files",
  "Initialising a project creates its configuration and starter page only where no file of that name exists, deletes nothing, and needs no particular prior state; running it again changes nothing the user has.",
  ["histories", "inputs"], "for every prior content of the project folder",
  "Tests initialise an empty folder and check few variants.",
  [INIT], [("init", INIT)])
p("C22", "Cleaning deletes only generated files",
  "Cleaning a project removes only the output folder and the artifacts folder of that project and, only when asked for, source files which the recorded placeholder graph marks as generated by another file.",
  ["inputs", "histories"], "for every project folder and recorded graph",
  "Tests clean one project and check a few files.",
  [CLEAN], [("clean", CLEAN)])
p("C23", "Building writes and deletes only where it is allowed to",
  "A build creates, overwrites, moves or deletes files only under the project's output and artifacts folders, with three exceptions: missing placeholder sources (never overwriting one), the transient generated source of an inline block, and configured external files (including ones no longer configured). Every file a build step reports as produced or reused lies under those two folders, and what a rebuild deletes are recorded outputs. Folders are removed only when empty. Files in the system's temporary directory do not count.",
  ["inputs", "histories"], "for every project and every step of a build",
  "Tests do not snapshot everything outside the outputs.",
  [HOT, COLD, HND, B + "html/manips/outline.py", IMG],
  [("hot_incremental_rebuild", HOT), ("check_external_files", COLD)])
p("C24", "Builds do not depend on the current working directory",
  "Every project file that scanning, building, watching or cleaning opens, tests, lists, creates, moves or deletes is located from the configured project folder, never from the process's working directory; and links created in the output folder have absolute targets.",
  ["configurations"], "for every project folder, relative or absolute, and every working directory",
  "Tests mostly run with one relative folder and links disabled.",
  [HND, HOT, COLD, IMG, B + "css/manips/outline_image_data.py", B + "html/manips/template.py"],
  [("all file-system operations reachable from a build", "vanillaplusjs")])
p("C25", "Only files of the public folder are published",
  "A source file is copied or processed into the published folder only if it lies inside the public source folder (not merely beside it with a similar name), at the mirrored relative path; files elsewhere, such as partials, produce no output and do not fail the build, whatever their type.",
  ["inputs"], "for every relative path under the source folder",
  "Tests place files only in the obvious folders.",
  [HND + "copy.py", HND + "hash.py", HND + "css.py", HND + "js.py", HND + "html.py", HND + "image_glue.py"],
  [("get_target_path", HND + "copy.py")])
p("C26", "Script constants match the build mode",
  "The generated constants file contains the shared constants overridden by those of the current mode (development or production) and nothing of the other mode. It is regenerated whenever the mode differs from that of the last successful build, and the mode is recorded only once the build has succeeded.",
  ["histories", "configurations", "fault_sequences"], "for every alternation of development and production builds, including failed ones",
  "Tests switch mode between successful builds only.",
  [HOT, HND + "js_constants.py"], [("hot_incremental_rebuild", HOT), ("build_file", HND + "js_constants.py")])
p("C27", "Recorded build state is stored only after everything was rebuilt",
  "The dependency, output and placeholder graphs are stored only after every scheduled file was rebuilt, each rebuild's result was obtained and any failure was propagated, and stale artifacts were removed; a failing build leaves the previous graphs in place so that the next build repeats the work.",
  ["fault_sequences", "crash_points"], "for every failing file and order of completion",
  "Tests of failing builds do not inspect the stored graphs or build again.",
  [HOT], [("hot_incremental_rebuild", HOT)])
p("C28", "A file is built only after the files it depends on",
  "In a rebuild a file is handed to a builder only when every file it depends on that is also being rebuilt has been rebuilt, and when no other running builder is going to write one of the same outputs; each file is handed out once. If nothing can proceed and nothing is running, the build fails instead of waiting forever.",
  ["schedules", "inputs"], "for every dependency graph and completion order",
  "Tests use small graphs and do not control the completion order.",
  [HOT], [("hot_incremental_rebuild scheduling loop", HOT)])
p("C29", "The recorded signature of a source file predates building it",
  "The signature recorded for a source file was taken before that file was scanned and built (or is the one of the previous build if it was not rebuilt), never measured afterwards. A file edited while a build runs is therefore rebuilt by the next one.",
  ["schedules"], "for every edit that happens while a build is running",
  "Needs an edit during a build; no test does that.",
  [HOT, COLD, DEV], [("hot_incremental_rebuild graph construction", HOT), ("cold_incremental_rebuild", COLD)])
p("C30", "Outputs still needed by another source file survive a rebuild",
  "When an output or artifact produced by several source files becomes dirty because some of them changed or were deleted, it is either kept or all its remaining producers are rebuilt as well; it never disappears while an existing source file still needs it.",
  ["histories"], "for every sharing of outputs and every change history",
  "Incremental tests have no output shared between an edited and an unedited file.",
  [HOT], [("files_to_rebuild / dirtied outputs computation", HOT)])
p("C31", "Watch rebuilds use the same configuration as full builds",
  "A rebuild in watch mode sets up its configuration (host, icon, image, placeholder, external file and script-constant settings and the previous graphs) from the same configuration values as a full development build does, leaving no setting at a default that the full build fills in.",
  ["configurations"], "for every configuration file",
  "There are no tests of the watcher.",
  [DEV, BUILD], [("build", BUILD), ("DevEventHandler.rebuild_if_appropriate", DEV)])
p("C32", "A freshly initialised project has every setting a build requires",
  "The configuration written by initialising a project contains every setting that a build reads without a fallback, with the version that the build accepts.",
  ["configurations"], "for every default configuration and every required setting",
  "Tests build initialised projects but most write their own configuration.",
  [INIT, BUILD, CTX, IMG + "settings.py"], [("init", INIT), ("build", BUILD)])
p("C33", "The working directory and transient files are restored on every exit",
  "Every command or build step that changes the working directory restores it, and every temporary file used for probing link support, downloading, or outlining inline blocks is removed, on each normal exit and where the code promises it also on failures; servers started for a command are told to stop and joined when it ends.",
  ["fault_sequences"], "for every failure point after the change",
  "Tests do not inject failures.",
  [DEV, "vanillaplusjs/runners/run.py", BUILD, "vanillaplusjs/http_server.py", COLD],
  [("run_server", "vanillaplusjs/runners/run.py"), ("dev", DEV), ("host_static_files", "vanillaplusjs/http_server.py"), ("detect_symlink_support", BUILD)])
p("C34", "Build outputs are deterministic",
  "The bytes written into outputs never depend on the iteration order of unordered collections, on the time, on random numbers, on process identity or on randomised hashing.",
  ["inputs", "schedules"], "for every project, process and hash seed",
  "Tests run once per process and compare with fixed expectations.",
  [HND, B + "css", B + "js", B + "html"], [("everything reachable from building a file", B + "build_file.py")])
p("C35", "Inline scripts and styles never survive in published pages",
  "Every inline script (without a source) and every inline style block of a page is moved to a generated file and replaced by a reference carrying that file's hash, keeping the element's other attributes; each inline block of a page gets its own file.",
  ["inputs"], "for every page",
  "Tests have one or two inline blocks without extra attributes.",
  [B + "html/manips/outline.py"], [("OutlineManipulator", B + "html/manips/outline.py")])
p("C36", "No token of a page, stylesheet or script is dropped or duplicated by rewriting",
  "While a document is rewritten, each token is either passed through in order or handed to exactly one rewriting step, whose replacement is processed in its place before anything that follows; a step that gives up returns exactly the tokens it took. Nothing is lost, repeated or reordered.",
  ["inputs"], "for every document and set of rewriting steps",
  "Tests exercise particular rewriting sequences only.",
  [B + "html/builder.py", B + "css/builder.py", B + "js/builder.py", B + "js/yield_manipulator.py"],
  [("handle_token", B + "css/builder.py"), ("JSYieldManipulator", B + "js/yield_manipulator.py")])
p("C37", "Tokenizing always terminates",
  "On every input, each round of every loop of the stylesheet, script and icon-command tokenizers either consumes input or leaves the loop, and reaching the end of the input leaves it. Building can therefore not hang on malformed source.",
  ["inputs"], "for every input text, in particular truncated ones",
  "Tests feed well-formed inputs; a hang needs a truncated construct.",
  [B + "css/tokenizer.py", B + "js/tokenizer.py", B + "css/manips/icons/tokenizer.py"],
  [("tokenize", B + "css/tokenizer.py"), ("tokenize", B + "js/tokenizer.py")])
p("C38", "Template inclusion keeps variable scopes balanced",
  "Including a template opens exactly one new variable scope holding the given variables, places the template's content inside it and closes it again after the content, so variables of the including page are unchanged afterwards and the included ones do not leak. A page whose scopes do not balance fails to build.",
  ["inputs"], "for every page and nesting of templates",
  "Tests include one or two levels.",
  [B + "html/manips/template.py"], [("TemplateManipulator", B + "html/manips/template.py")])
# ---- honest not-applicable ----
p("N01", "Rewritten stylesheets and scripts keep their meaning",
  "Apart from the documented rewrites, a published stylesheet or script means the same to a browser as its source.",
  ["inputs"], "for every stylesheet and script", "Tests compare a few documents.",
  [B + "css", B + "js"], [("tokenize+serialize", B + "css/serializer.py")])
p("N02", "Cropping picks a rectangle of the requested aspect inside the image",
  "For every image size, target size and crop settings the cropped rectangle lies inside the image and has the target's aspect ratio up to rounding.",
  ["inputs"], "for all sizes and crop settings", "Tests sample sizes.",
  [IMG + "cover_fit.py"], [("cover_fit", IMG + "cover_fit.py")])
p("N03", "An incremental build equals a clean build",
  "After any history of edits and builds, the output folder equals what a build from scratch would produce.",
  ["histories"], "for every history of edits and builds", "Tests use short histories.",
  [HOT], [("hot_incremental_rebuild", HOT)])
p("N04", "Watch rebuilds are debounced",
  "In watch mode a rebuild starts only after no event arrived for the configured time, and bursts of events cause one rebuild.",
  ["schedules"], "for every timing of events", "There are no watcher tests.",
  [DEV], [("rebuild_if_appropriate", DEV)])
p("N05", "Graph equality is structural",
  "Two file graphs compare equal exactly if they have the same files with the same signatures and the same edges.",
  ["inputs"], "for every pair of graphs", "Tests compare small graphs.",
  [GRAPH], [("FileDependencyGraphNode.__eq__", GRAPH)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
