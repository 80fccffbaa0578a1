C="build/cold_incremental_rebuild.py"; G="build/graph.py"; S="build/file_signature.py"; H="build/hot_incremental_rebuild.py"
LOOP='''    for (dirpath, _, filenames) in os.walk(context.src_folder):
        for filename in filenames:
            relpath = os.path.relpath(os.path.join(dirpath, filename), context.folder)
            signature = get_file_signature(os.path.join(context.folder, relpath))
            if relpath in old_dependency_graph:
                relpaths_deleted.remove(relpath)
                if not old_dependency_graph.check_file(
                    relpath, signature.filesize, signature.mtime, signature.inode
                ):
                    relpaths_changed[relpath] = signature
            else:
                relpaths_added[relpath] = signature
'''
DEL='''    relpaths_deleted: Set[str] = set(old_dependency_graph.nodes.keys())
'''
CASES=[
("bug","check_file no inode",[(G,'''            and a_node.mtime == mtime
            and a_node.inode == inode
''','''            and a_node.mtime == mtime
''')]),
("bug","check_file no mtime",[(G,'''            and a_node.mtime == mtime
''','')]),
("bug","check_file int mtime",[(G,'''and a_node.mtime == mtime
''','''and int(a_node.mtime) == int(mtime)
''')]),
("bug","check_file or",[(G,'''            a_node.filesize == filesize
            and a_node.mtime''','''            a_node.filesize == filesize
            or a_node.mtime''')]),
("bug","check_file mtime newer",[(G,'''and a_node.mtime == mtime
''','''and a_node.mtime >= mtime
''')]),
("bug","call swapped",[(C,'relpath, signature.filesize, signature.mtime, signature.inode','relpath, signature.mtime, signature.filesize, signature.inode')]),
("bug","signature swap",[(S,'''        mtime=stats.st_mtime,
        filesize=stats.st_size,''','''        mtime=stats.st_size,
        filesize=stats.st_mtime,''')]),
("bug","signature ctime",[(S,'mtime=stats.st_mtime','mtime=stats.st_ctime')]),
("bug","signature inode 0",[(S,'''        inode = stats.st_ino
''','''        inode = 0
''')]),
("bug","signature truncated",[(S,'mtime=stats.st_mtime','mtime=int(stats.st_mtime)')]),
("bug","added not recorded",[(C,'''            else:
                relpaths_added[relpath] = signature
''','''            elif not relpath.endswith(".partial.html"):
                relpaths_added[relpath] = signature
''')]),
("bug","skip hidden",[(C,'''            relpath = os.path.relpath(os''','''            if filename.startswith("."):
                continue
            relpath = os.path.relpath(os''')]),
("bug","not removed from deleted",[(C,'''                relpaths_deleted.remove(relpath)
                if not old_dependency_graph.check_file(
                    relpath, signature.filesize, signature.mtime, signature.inode
                ):
''','''                if not old_dependency_graph.check_file(
                    relpath, signature.filesize, signature.mtime, signature.inode
                ):
                    relpaths_deleted.remove(relpath)
''')]),
("bug","deleted empty",[(C,DEL,'    relpaths_deleted: Set[str] = set()\n')]),
("bug","deleted cleared",[(C,'''    await hot_incremental_rebuild(
''','''    if not relpaths_changed and not relpaths_added:
        relpaths_deleted.clear()
    await hot_incremental_rebuild(
''')]),
("bug","changed into added",[(C,'''                    relpaths_changed[relpath] = signature
            else''','''                    relpaths_added[relpath] = signature
            else''')]),
("bug","stored by filename",[(C,'relpaths_added[relpath] = signature','relpaths_added[filename] = signature')]),
("bug","stop after first",[(C,'''                relpaths_added[relpath] = signature
''','''                relpaths_added[relpath] = signature
                break
''')]),
("bug","size only if same mtime",[(C,'''                if not old_dependency_graph.check_file(
''','''                if old_dependency_graph.nodes[relpath].mtime < signature.mtime and not old_dependency_graph.check_file(
''')]),
("bug","record swapped",[(H,'''            new_dependency_graph.add_file(
                file, new_signature.filesize, new_signature.mtime, new_signature.inode
            )''','''            new_dependency_graph.add_file(
                file, new_signature.mtime, new_signature.filesize, new_signature.inode
            )''')]),
("bug","old node swapped",[(H,'''                    old_node.mtime, old_node.filesize, old_node.inode
''','''                    old_node.filesize, old_node.mtime, old_node.inode
''')]),
("bug","walk public only",[(C,'os.walk(context.src_folder)','os.walk(context.public_folder)')]),
("bug","other file's record",[(G,'''        a_node = self.nodes.get(a)
        if a_node is None:
            return False
        return (''','''        a_node = self.nodes.get(os.path.basename(a))
        if a_node is None:
            return False
        return ('''),(G,'import io','import io\nimport os')]),
("bug","cached signatures",[(S,'''    stats = os.lstat(file)
''','''    stats = os.lstat(os.path.dirname(file))
''')]),
("same","compare inline",[(C,'''                if not old_dependency_graph.check_file(
                    relpath, signature.filesize, signature.mtime, signature.inode
                ):
''','''                old = old_dependency_graph.nodes[relpath]
                if (
                    old.mtime != signature.mtime
                    or old.inode != signature.inode
                    or old.filesize != signature.filesize
                ):
''')]),
("same","full path",[(C,'get_file_signature(os.path.join(context.folder, relpath))','get_file_signature(os.path.join(dirpath, filename))')]),
("same","known early continue",[(C,LOOP,'''    for (dirpath, _, filenames) in os.walk(context.src_folder):
        for filename in filenames:
            filepath = os.path.join(dirpath, filename)
            relpath = os.path.relpath(filepath, context.folder)
            signature = get_file_signature(filepath)
            if relpath not in old_dependency_graph:
                relpaths_added[relpath] = signature
                continue

            relpaths_deleted.discard(relpath)
            unchanged = old_dependency_graph.check_file(
                relpath,
                filesize=signature.filesize,
                mtime=signature.mtime,
                inode=signature.inode,
            )
            if not unchanged:
                relpaths_changed[relpath] = signature
''')]),
("same","helper",[(C,LOOP,'''    for relpath, signature in _walk_source(context):
        if relpath in old_dependency_graph:
            relpaths_deleted.remove(relpath)
            if not old_dependency_graph.check_file(
                relpath, signature.filesize, signature.mtime, signature.inode
            ):
                relpaths_changed[relpath] = signature
        else:
            relpaths_added[relpath] = signature
'''),(C,'''async def check_external_files(''','''def _walk_source(context):
    for (dirpath, _, filenames) in os.walk(context.src_folder):
        for filename in filenames:
            relpath = os.path.relpath(os.path.join(dirpath, filename), context.folder)
            yield relpath, get_file_signature(os.path.join(context.folder, relpath))


async def check_external_files(''')]),
("same","helper dict",[(C,LOOP,'''    current = _current_signatures(context)
    for relpath, signature in current.items():
        if relpath in old_dependency_graph:
            relpaths_deleted.remove(relpath)
            if not old_dependency_graph.check_file(
                relpath, signature.filesize, signature.mtime, signature.inode
            ):
                relpaths_changed[relpath] = signature
        else:
            relpaths_added[relpath] = signature
'''),(C,'''async def check_external_files(''','''def _current_signatures(context):
    result = dict()
    for (dirpath, _, filenames) in os.walk(context.src_folder):
        for filename in filenames:
            relpath = os.path.relpath(os.path.join(dirpath, filename), context.folder)
            result[relpath] = get_file_signature(os.path.join(context.folder, relpath))
    return result


async def check_external_files(''')]),
("same","classify helper",[(C,'''                if not old_dependency_graph.check_file(
                    relpath, signature.filesize, signature.mtime, signature.inode
                ):
                    relpaths_changed''','''                if _differs(old_dependency_graph, relpath, signature):
                    relpaths_changed'''),(C,'''async def check_external_files(''','''def _differs(graph, relpath, signature):
    return not graph.check_file(
        relpath, signature.filesize, signature.mtime, signature.inode
    )


async def check_external_files(''')]),
("same","seen set",[(C,DEL,'    relpaths_seen: Set[str] = set()\n'),(C,'''            if relpath in old_dependency_graph:
                relpaths_deleted.remove(relpath)
''','''            relpaths_seen.add(relpath)
            if relpath in old_dependency_graph:
'''),(C,'''    logger.info(
        "Cold start inc''','''    relpaths_deleted: Set[str] = set(
        relpath for relpath in old_dependency_graph.nodes if relpath not in relpaths_seen
    )
    logger.info(
        "Cold start inc''')]),
("same","set difference",[(C,DEL,'    relpaths_seen: Set[str] = set()\n'),(C,'''            if relpath in old_dependency_graph:
                relpaths_deleted.remove(relpath)
''','''            relpaths_seen.add(relpath)
            if relpath in old_dependency_graph:
'''),(C,'''    logger.info(
        "Cold start inc''','''    relpaths_deleted: Set[str] = set(old_dependency_graph.nodes) - relpaths_seen
    logger.info(
        "Cold start inc''')]),
("same","check_file explicit",[(G,'''        return (
            a_node.filesize == filesize
            and a_node.mtime == mtime
            and a_node.inode == inode
        )''','''        if a_node.filesize != filesize:
            return False
        if a_node.mtime != mtime:
            return False
        return a_node.inode == inode''')]),
("same","check_file try",[(G,'''        a_node = self.nodes.get(a)
        if a_node is None:
            return False
        return (''','''        if a not in self.nodes:
            return False
        a_node = self.nodes[a]
        return (''')]),
("same","getattr inode",[(S,'''    try:
        inode = stats.st_ino
    except AttributeError:
        inode = 0
''','''    inode = getattr(stats, "st_ino", 0)
''')]),
("same","tuple compare",[(G,'''        return (
            a_node.filesize == filesize
            and a_node.mtime == mtime
            and a_node.inode == inode
        )''','''        return (a_node.filesize, a_node.mtime, a_node.inode) == (filesize, mtime, inode)''')]),
]
