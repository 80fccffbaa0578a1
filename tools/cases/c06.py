S="build/scan_file.py"; F="build/build_file.py"; G="build/handlers/image_glue.py"
H="vanillaplusjs.build.handlers."
CH='''    if relpath.endswith(".html"):
        return vanillaplusjs.build.handlers.html.scan_file(context, relpath)
    elif relpath.endswith(".css"):
        return vanillaplusjs.build.handlers.css.scan_file(context, relpath)
    elif relpath.endswith(".js"):
        return vanillaplusjs.build.handlers.js.scan_file(context, relpath)
    return vanillaplusjs.build.handlers.copy_and_hash.scan_file(context, relpath)
'''
CB=CH.replace("scan_file(context","build_file(build_context")
CB='''    if relpath.endswith(".html"):
        return vanillaplusjs.build.handlers.html.build_file(build_context, relpath)
    elif relpath.endswith(".css"):
        return vanillaplusjs.build.handlers.css.build_file(build_context, relpath)
    elif relpath.endswith(".js"):
        return vanillaplusjs.build.handlers.js.build_file(build_context, relpath)
    return vanillaplusjs.build.handlers.copy_and_hash.build_file(build_context, relpath)
'''
JC='''    if relpath == context.js_constants.relpath:
        return vanillaplusjs.build.handlers.js_constants.scan_file(context, relpath)
'''
IG='''    if vanillaplusjs.build.handlers.image_glue.handles_file(context, relpath):
        return vanillaplusjs.build.handlers.image_glue.scan_file(context, relpath)
'''
CASES=[
("bug","order swapped",[(S,JC,""),(S,IG,IG+JC)]),
("bug","htm too",[(S,'relpath.endswith(".html")','relpath.endswith(".htm")')]),
("bug","mjs",[(F,'relpath.endswith(".js")','relpath.endswith((".js", ".mjs"))')]),
("bug","css copied",[(F,'''    elif relpath.endswith(".css"):
        return vanillaplusjs.build.handlers.css.build_file(build_context, relpath)
''','')]),
("bug","case",[(F,'relpath.endswith(".css")','relpath.lower().endswith(".css")')]),
("bug","no handles",[(F,"    if vanillaplusjs.build.handlers.image_glue.handles_file(build_context, relpath):\n",'    if relpath.endswith(".images.json"):\n')]),
("bug","scan calls build",[(S,"handlers.js.scan_file","handlers.css.scan_file")]),
("bug","basename constants",[(S,"    if relpath == context.js_constants.relpath:","    if relpath.endswith(context.js_constants.relpath):")]),
("bug","minified copy",[(F,'    elif relpath.endswith(".js"):\n','    elif relpath.endswith(".js") and not relpath.endswith(".min.js"):\n')]),
("bug","both",[(F,"        return vanillaplusjs.build.handlers.js.build_file(build_context, relpath)\n","        vanillaplusjs.build.handlers.copy_and_hash.build_file(build_context, relpath)\n        return vanillaplusjs.build.handlers.js.build_file(build_context, relpath)\n")]),
("same","table",[(S,CH,'''    for suffix, handler in (
        (".html", vanillaplusjs.build.handlers.html),
        (".css", vanillaplusjs.build.handlers.css),
        (".js", vanillaplusjs.build.handlers.js),
    ):
        if relpath.endswith(suffix):
            return handler.scan_file(context, relpath)
    return vanillaplusjs.build.handlers.copy_and_hash.scan_file(context, relpath)
''')]),
("same","reordered suffixes",[(S,CH,'''    if relpath.endswith(".js"):
        return vanillaplusjs.build.handlers.js.scan_file(context, relpath)
    if relpath.endswith(".css"):
        return vanillaplusjs.build.handlers.css.scan_file(context, relpath)
    if not relpath.endswith(".html"):
        return vanillaplusjs.build.handlers.copy_and_hash.scan_file(context, relpath)
    return vanillaplusjs.build.handlers.html.scan_file(context, relpath)
''')]),
("same","selector helper",[(S,CH,'''    return select_handler(relpath).scan_file(context, relpath)


def select_handler(relpath):
    if relpath.endswith(".html"):
        return vanillaplusjs.build.handlers.html
    elif relpath.endswith(".css"):
        return vanillaplusjs.build.handlers.css
    elif relpath.endswith(".js"):
        return vanillaplusjs.build.handlers.js
    return vanillaplusjs.build.handlers.copy_and_hash
''')]),
("same","selector variable",[(F,CB,'''    handler = None
    if relpath.endswith(".html"):
        handler = vanillaplusjs.build.handlers.html
    elif relpath.endswith(".css"):
        handler = vanillaplusjs.build.handlers.css
    elif relpath.endswith(".js"):
        handler = vanillaplusjs.build.handlers.js
    if handler is None:
        handler = vanillaplusjs.build.handlers.copy_and_hash
    return handler.build_file(build_context, relpath)
''')]),
("same","splitext",[(F,CB,'''    ext = os.path.splitext(relpath)[1]
    if ext == ".html":
        handler = vanillaplusjs.build.handlers.html.build_file
    elif ext == ".css":
        handler = vanillaplusjs.build.handlers.css.build_file
    elif ext == ".js":
        handler = vanillaplusjs.build.handlers.js.build_file
    else:
        handler = vanillaplusjs.build.handlers.copy_and_hash.build_file
    return handler(build_context, relpath)
'''),(F,"import time\n","import time\nimport os\n")]),
("same","ext dict",[(F,CB,'''    ext = os.path.splitext(relpath)[1]
    handler = {
        ".html": vanillaplusjs.build.handlers.html,
        ".css": vanillaplusjs.build.handlers.css,
        ".js": vanillaplusjs.build.handlers.js,
    }.get(ext, vanillaplusjs.build.handlers.copy_and_hash)
    return handler.build_file(build_context, relpath)
'''),(F,"import time\n","import time\nimport os\n")]),
("same","early flag",[(F,"    if relpath == build_context.js_constants.relpath:\n","    is_constants = relpath == build_context.js_constants.relpath\n    if is_constants:\n")]),
("same","rename",[(F,"build_context","ctx",1)]),
]
