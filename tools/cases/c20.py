X="build/html/manips/images/exporter.py"; M="build/html/manips/images/metadata.py"
WAIT='''        concurrent.futures.wait(futures, return_when=concurrent.futures.ALL_COMPLETED)
        for future in futures:
            if future.exception() is not None:
                raise future.exception()
            assert future.done()
'''
META='''    metadata = ImageMetadata(
        settings_hash=settings_hash,
        source=source,
        target=ImageTarget(
            settings=target,
            outputs=outputs,
        ),
    )

    with open(
        os.path.join(
            context.folder, target_art_folder_relative_to_root, "metadata.json"
        ),
        "w",
    ) as f:
        json.dump(store_metadata(metadata), f, indent=2)

'''
REN='''            os.rename(best_export_path, desired_path)

'''
CASES=[
("bug","not waited",[(X,WAIT,"")]),
("bug","no exception check",[(X,'''            if future.exception() is not None:
                raise future.exception()
            assert''','''            assert''')]),
("bug","log only",[(X,'''                raise future.exception()
''','''                logger.exception("export failed")
''')]),
("bug","break after first",[(X,'''            assert future.done()
''','''            assert future.done()
            if future.result() is None:
                break
''')]),
("bug","future dropped",[(X,'''                    futures.append(
                        executor.submit(
                            produce_image,''','''                    futures = list(futures[-7:])
                    (
                        executor.submit(
                            produce_image,''')]),
("bug","rename after metadata",[(X,REN,'''            moves.append((best_export_path, desired_path))

'''),(X,"    outputs: Dict[str","    moves = []\n    outputs: Dict[str"),(X,'''        json.dump(store_metadata(metadata), f, indent=2)

    return''','''        json.dump(store_metadata(metadata), f, indent=2)

    for a, b in moves:
        os.rename(a, b)

    return''')]),
("bug","encoder swallows",[(X,'''    image.save(dst_file, format=format, **formatter_kwargs)
''','''    try:
        image.save(dst_file, format=format, **formatter_kwargs)
    except OSError:
        logger.exception("failed to export {}", dst_file)
''')]),
("bug","encoder skips",[(X,'''    now = time.perf_counter()
    image.save(''','''    now = time.perf_counter()
    if width > image.width:
        return
    image.save(''')]),
("bug","rename swallowed",[(X,REN,'''            try:
                os.rename(best_export_path, desired_path)
            except OSError:
                logger.debug("{} is already there", desired_path)

''')]),
("bug","metadata before jobs",[(X,'''        concurrent.futures.wait(futures, ''','''        with open(
            os.path.join(
                context.folder, target_art_folder_relative_to_root, "metadata.json"
            ),
            "w",
        ) as f:
            json.dump({}, f)
        concurrent.futures.wait(futures, ''')]),
("bug","reserve writes metadata",[(M,'''        return counter
''','''        with open(os.path.join(entry_path, "metadata.json"), "w") as f:
            json.dump({}, f)

        return counter
''')]),
("bug","listed other name",[(X,'''                        f"{out_width}x{out_height}.{format_name}",
                    ),
                    choice''','''                        f"{out_width}x{out_height}-{best_export_name}.{format_name}",
                    ),
                    choice''')]),
("bug","conditional wait",[(X,"        for future in futures:\n            if future","        for future in futures[1:]:\n            if future")]),
("bug","skip cancelled",[(X,"            if future.exception() is not None:","            if not future.done():\n                continue\n            if future.exception() is not None:")]),
("same","result",[(X,WAIT,'''        for future in futures:
            future.result()
''')]),
("same","collect",[(X,WAIT,'''        failed = [f.exception() for f in futures if f.exception() is not None]
        if failed:
            raise failed[0]
''')]),
("same","as completed",[(X,WAIT,'''        for future in concurrent.futures.as_completed(futures):
            future.result()
''')]),
("same","error local",[(X,'''            if future.exception() is not None:
                raise future.exception()
            assert future.done()
''','''            error = future.exception()
            if error is not None:
                raise error
''')]),
("same","temp then replace",[(X,'''    with open(
        os.path.join(
            context.folder, target_art_folder_relative_to_root, "metadata.json"
        ),
        "w",
    ) as f:
        json.dump(store_metadata(metadata), f, indent=2)
''','''    metadata_path = os.path.join(
        context.folder, target_art_folder_relative_to_root, "metadata.json"
    )
    with open(metadata_path + ".tmp", "w") as f:
        json.dump(store_metadata(metadata), f, indent=2)
    os.replace(metadata_path + ".tmp", metadata_path)
''')]),
("same","replace move",[(X,"os.rename(best_export_path, desired_path)","os.replace(best_export_path, desired_path)")]),
("same","list then move",[(X,REN,""),(X,'''            produced.append(os.path.relpath(desired_path, context.folder))
''','''            os.rename(best_export_path, desired_path)
            produced.append(os.path.relpath(desired_path, context.folder))
''')]),
("same","store helper",[(X,META[META.index("    with open"):],"    _store(context, target_art_folder_relative_to_root, metadata)\n\n"),(X,"def produce_image(\n",'''def _store(context, folder, metadata):
    with open(os.path.join(context.folder, folder, "metadata.json"), "w") as f:
        json.dump(store_metadata(metadata), f, indent=2)


def produce_image(
''')]),
("same","desired name",[(X,'''                        f"{out_width}x{out_height}.{format_name}",
                    ),
                    choice''','''                        desired_filename,
                    ),
                    choice''')]),
("same","job list",[(X,"futures: List[concurrent.futures.Future] = []","futures = list()")]),
('same', 'exporter one list of sizes', [('build/html/manips/images/exporter.py', '    with concurrent.futures.ProcessPoolExecutor() as executor:\n        futures: List[concurrent.futures.Future] = []\n        for out_width, out_height in yield_sizes(\n            context, image_width, image_height, command.width, command.height\n        ):\n', '    sizes = list(\n        yield_sizes(context, image_width, image_height, command.width, command.height)\n    )\n    with concurrent.futures.ProcessPoolExecutor() as executor:\n        futures: List[concurrent.futures.Future] = []\n        for out_width, out_height in sizes:\n'), ('build/html/manips/images/exporter.py', '    for out_width, out_height in yield_sizes(\n        context, image_width, image_height, command.width, command.height\n    ):\n        for format_name, format_settings in context.image_settings.formats.items():\n            best', '    for out_width, out_height in sizes:\n        for format_name, format_settings in context.image_settings.formats.items():\n            best'), ('build/html/manips/images/exporter.py', '        concurrent.futures.wait(futures, return_when=concurrent.futures.ALL_COMPLETED)\n        for future in futures:\n            if future.exception() is not None:\n                raise future.exception()\n            assert future.done()\n', '        for future in futures:\n            future.result()\n'), ('build/html/manips/images/exporter.py', '            output_list = outputs.get(format_name)\n            if output_list is None:\n                output_list = []\n                outputs[format_name] = output_list\n\n            output_list.append(', '            outputs.setdefault(format_name, []).append(')]),
]
