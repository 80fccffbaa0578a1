H="build/handlers/hash.py"; CSS="build/handlers/css.py"; JSH="build/handlers/js.py"; M="build/css/manipulate_and_serialize.py"; O="build/css/manips/outline_image_data.py"; JC="build/handlers/js_constants.py"; G="build/handlers/image_glue.py"; HT="build/handlers/html.py"
BODY='''    sha256 = hashlib.sha256()
    with open(filepath, "rb") as f:
        sha256.update(f.read())

    return base64.urlsafe_b64encode(sha256.digest()).decode("utf-8")'''
OUT='''    with open(outfile, "w", newline="\\n") as f_out:'''
CASES=[
("bug","css hash of the source",[(CSS,"vanillaplusjs.build.handlers.hash.build_file(context, target_path),","vanillaplusjs.build.handlers.hash.build_file(context, relpath),")]),
("bug","js hash of the source",[(JSH,"vanillaplusjs.build.handlers.hash.build_file(context, target_path)","vanillaplusjs.build.handlers.hash.build_file(context, relpath)")]),
("bug","plain base64",[(H,"urlsafe_b64encode","b64encode")]),
("bug","sha1",[(H,"hashlib.sha256","hashlib.sha1")]),
("bug","hex digest",[(H,'base64.urlsafe_b64encode(sha256.digest()).decode("utf-8")','sha256.hexdigest()')]),
("bug","text mode",[(H,'open(filepath, "rb")','open(filepath, "r")'),(H,"f.read()","f.read().encode()")]),
("bug","one chunk",[(H,"f.read()","f.read(1 << 20)")]),
("bug","truncated digest",[(H,"sha256.digest()","sha256.digest()[:12]")]),
("bug","stripped padding",[(H,'.decode("utf-8")','.decode("utf-8").rstrip("=")')]),
("bug","small files only",[(H,'''        sha256.update(f.read())''','''        if os.fstat(f.fileno()).st_size < (1 << 24):
            sha256.update(f.read())''')]),
("bug","outlined image hashed before it is closed",[(O,'''                    f.write(unquote(image_data))

            hash_build_result = hash_handler.build_file(self.context, out_relpath)''','''                    f.write(unquote(image_data))
                    hash_build_result = hash_handler.build_file(self.context, out_relpath)
            if os.path.lexists(out_path + ".hash"):
                hash_build_result = hash_handler.build_file(self.context, out_relpath)''')]),
("bug","constants hashed before being written",[(JC,'''    build_result = vanillaplusjs.build.handlers.hash.build_file(context, target_relpath)
''',''),(JC,'''        makedirs_safely(os.path.dirname(target_path))
        with open(''','''        makedirs_safely(os.path.dirname(target_path))
        open(target_path, "w").close()
    build_result = vanillaplusjs.build.handlers.hash.build_file(context, target_relpath)
    if target_relpath in produced:
        with open('''),(JC,'''        constants = context.js_constants.shared.copy()''','''        if True:
            pass
        constants = context.js_constants.shared.copy()''')][:0] or [(CSS,'''    produced.add(target_path)

    sub_build''','''    produced.add(target_path)
    first = vanillaplusjs.build.handlers.hash.build_file(context, target_path)
    with open(os.path.join(context.folder, target_path), "a") as f:
        f.write("\\n")

    sub_build''')]),
("bug","hash of a sibling",[(H,"calculate_hash(src_path_rel_to_cwd)",'calculate_hash(os.path.splitext(src_path_rel_to_cwd)[0] + ".css")')]),
("bug","path hashed",[(H,"sha256.update(f.read())","sha256.update(filepath.encode())")]),
("bug","salted",[(H,"    sha256 = hashlib.sha256()\n",'    sha256 = hashlib.sha256(filepath.encode("utf-8"))\n')]),
("bug","licence appended after hashing",[(JSH,'''    for build_result in sub_build''','''    with open(os.path.join(context.folder, target_path), "a") as f:
        f.write("// end")
    for build_result in sub_build''')]),
("same","chunks",[(H,'''        sha256.update(f.read())''','''        while True:
            chunk = f.read(65536)
            if not chunk:
                break
            sha256.update(chunk)''')]),
("same","walrus",[(H,'''        sha256.update(f.read())''','''        while chunk := f.read(65536):
            sha256.update(chunk)''')]),
("same","iter",[(H,'''        sha256.update(f.read())''','''        for chunk in iter(lambda: f.read(65536), b""):
            sha256.update(chunk)''')]),
("same","one expression",[(H,BODY,'''    with open(filepath, "rb") as f:
        data = f.read()
    return base64.urlsafe_b64encode(hashlib.sha256(data).digest()).decode("ascii")''')]),
("same","new",[(H,"hashlib.sha256()",'hashlib.new("sha256")')]),
("same","helper",[(H,BODY,'''    return _encode(_digest(filepath))


def _digest(path):
    digester = hashlib.sha256()
    with open(path, "rb") as stream:
        digester.update(stream.read())
    return digester.digest()


def _encode(digest: bytes) -> str:
    return str(base64.urlsafe_b64encode(digest), "utf-8")''')]),
("same","lines",[(H,'''        sha256.update(f.read())''','''        for line in f:
            sha256.update(line)''')]),
("same","try finally",[(H,'''    with open(filepath, "rb") as f:
        sha256.update(f.read())
''','''    f = open(filepath, "rb")
    try:
        sha256.update(f.read())
    finally:
        f.close()
''')]),
("same","hash first",[(CSS,'''    sub_build_results: List[BuildFileResult] = [
        vanillaplusjs.build.handlers.hash.build_file(context, target_path),
        *[''','''    hashed = vanillaplusjs.build.handlers.hash.build_file(context, target_path)
    sub_build_results: List[BuildFileResult] = [
        hashed,
        *[''')]),
("same","explicit close",[(M,'''        with open(outfile, "w", newline="\\n") as f_out:
            for in_token in tokenize(f_in):
                builder.handle_token(in_token)
                for out_token in builder.consume_tokens():
                    f_out.write(serialize(out_token))''','''        f_out = open(outfile, "w", newline="\\n")
        try:
            for in_token in tokenize(f_in):
                builder.handle_token(in_token)
                for out_token in builder.consume_tokens():
                    f_out.write(serialize(out_token))
        finally:
            f_out.close()''')]),
("same","file digest",[(H,BODY,'''    with open(filepath, "rb") as f:
        return base64.urlsafe_b64encode(hashlib.file_digest(f, "sha256").digest()).decode("utf-8")''')]),
("bug","file digest md5",[(H,BODY,'''    with open(filepath, "rb") as f:
        return base64.urlsafe_b64encode(hashlib.file_digest(f, "md5").digest()).decode("utf-8")''')]),
("bug","short chunk dropped",[(H,'''        sha256.update(f.read())''','''        while True:
            chunk = f.read(65536)
            if len(chunk) < 65536:
                break
            sha256.update(chunk)''')]),
("bug","first chunk dropped",[(H,'''        sha256.update(f.read())''','''        chunk = f.read(65536)
        while chunk:
            chunk = f.read(65536)
            sha256.update(chunk)''')]),
("bug","every other chunk",[(H,'''        sha256.update(f.read())''','''        while chunk := f.read(65536):
            sha256.update(chunk)
            f.read(1)''')]),
("bug","small chunks skipped",[(H,'''        sha256.update(f.read())''','''        for line in f:
            if len(line) > 1:
                sha256.update(line)''')]),
("same","prefetch",[(H,'''        sha256.update(f.read())''','''        chunk = f.read(65536)
        while chunk:
            sha256.update(chunk)
            chunk = f.read(65536)''')]),
("same","length",[(H,'''        sha256.update(f.read())''','''        while True:
            chunk = f.read(65536)
            if len(chunk) == 0:
                break
            sha256.update(chunk)''')]),
("same","short ends",[(H,'''        sha256.update(f.read())''','''        while True:
            chunk = f.read(65536)
            sha256.update(chunk)
            if len(chunk) < 65536:
                break''')]),
("same","compared with empty",[(H,'''        sha256.update(f.read())''','''        chunk = f.read(65536)
        while chunk != b"":
            sha256.update(chunk)
            chunk = f.read(65536)''')]),
("same","flag",[(H,'''        sha256.update(f.read())''','''        more = True
        while more:
            chunk = f.read(65536)
            more = len(chunk) > 0
            if more:
                sha256.update(chunk)''')]),
("same","generator helper",[(H,"import hashlib","import hashlib\nfrom functools import partial"),(H,'''        sha256.update(f.read())''','''        for chunk in iter(partial(f.read, 8192), b""):
            sha256.update(chunk)''')]),
("same","nonempty lines",[(H,'''        sha256.update(f.read())''','''        for line in f:
            if line:
                sha256.update(line)''')]),
]
