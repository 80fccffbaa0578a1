M="build/html/manips/images/metadata.py"
KW='''                if isinstance(kwarg, str):
                    result = overflow(result * prime + stable_hash(kwarg))
                else:
                    result = overflow(result * prime + stable_hash(kwarg))
'''
BODY=open("/repo/vanillaplusjs/"+M).read()
a=BODY.index("    prime = 31\n    result = 1\n\n    sorted_formats"); b=BODY.index("def overflow")
BODY=BODY[a:b]
EXP='''            result = overflow(result * prime + stable_hash(export_name))
            result = overflow(result * prime + stable_hash(export.min_area_px2))
            result = overflow(result * prime + stable_hash(export.max_area_px2))
            result = overflow(result * prime + stable_hash(export.preference))

            sorted_formatter_kwarg_names = sorted(export.formatter_kwargs.keys())
            for kwarg_name in sorted_formatter_kwarg_names:
                kwarg = export.formatter_kwargs[kwarg_name]
                result = overflow(result * prime + stable_hash(kwarg_name))
'''+KW
D=lambda l:("bug","drop "+l,[(M,"    result = overflow(result * prime + stable_hash(%s))\n"%l,"    pass\n")])
CASES=[
D("format_name"),D("export_name"),D("export.min_area_px2"),D("export.max_area_px2"),D("export.preference"),D("kwarg_name"),
D("settings.default_format"),D("settings.maximum_resolution"),D("settings.resolution_step"),D("format.minimum_unit_size_bytes"),
("bug","no kwarg value",[(M,KW,"")]),
("bug","kwarg str only",[(M,'''                else:
                    result = overflow(result * prime + stable_hash(kwarg))
''','')]),
("bug","min twice",[(M,"stable_hash(export.max_area_px2)","stable_hash(export.min_area_px2)")]),
("bug","restart per format",[(M,'''        format = settings.formats[format_name]
        result = overflow(result * prime +''','''        format = settings.formats[format_name]
        result = overflow(prime +''')]),
("bug","result lost",[(M,'''    result = overflow(result * prime + stable_hash(settings.default_format))''','''    result = overflow(prime + stable_hash(settings.default_format))''')]),
("bug","int step",[(M,"stable_hash(settings.resolution_step)","stable_hash(int(settings.resolution_step))")]),
("bug","unsorted formats",[(M,"sorted(settings.formats.keys())","settings.formats.keys()")]),
("bug","unsorted kwargs",[(M,"sorted(export.formatter_kwargs.keys())","list(export.formatter_kwargs)")]),
("bug","sorted by len",[(M,"sorted(format.exports.keys())","sorted(format.exports.keys(), key=len)")]),
("bug","builtin hash",[(M,"        result = overflow(result * prime + ord(c))","        result = overflow(result * prime + hash(c))")]),
("bug","builtin hash str",[(M,'''    if isinstance(v, str):
        return hash_str(v)
''','''    if isinstance(v, str):
        return hash(v)
''')]),
("bug","sum only",[(M,"        result = overflow(result * prime + ord(c))","        result = overflow(result + ord(c))")]),
("bug","last char",[(M,"        result = overflow(result * prime + ord(c))","        result = overflow(prime + ord(c))")]),
("bug","prefix only",[(M,"    for c in s:\n","    for c in s[:8]:\n")]),
("bug","skip spaces",[(M,"    for c in s:\n","    for c in s:\n        if c == ' ':\n            continue\n")]),
("bug","break",[(M,"    for c in s:\n","    for c in s:\n        if c == '.':\n            break\n")]),
("bug","falsy same",[(M,"    if v is None:\n        return 447684","    if not v:\n        return 447684")]),
("bug","decimal int",[(M,"31 * hash_str(str(v)) + 563112335098849","31 * int(v) + 563112335098849")]),
("bug","small mask",[(M,"0xFFFFFFFFFFFFFFFF","0xFF")]),
("bug","stop at first kwarg",[(M,KW,KW+"                break\n")]),
("bug","truthy min area",[(M,"            result = overflow(result * prime + stable_hash(export.min_area_px2))\n","            if export.min_area_px2 is not None:\n                result = overflow(result * prime + stable_hash(export.preference))\n")]),
("bug","xor",[(M,"result = overflow(result * prime + stable_hash(export.max_area_px2))","result = overflow(result ^ stable_hash(export.max_area_px2))")]),
("bug","skip default export",[(M,"            export = format.exports[export_name]\n","            export = format.exports[export_name]\n            if export_name == 'default':\n                continue\n")]),
("same","merge kwargs branch",[(M,KW,"                result = overflow(result * prime + stable_hash(kwarg))\n")]),
("same","helper mix",[(M,"    result = overflow(result * prime + stable_hash(settings.default_format))","    result = _mix(result, settings.default_format)"),(M,"            result = overflow(result * prime + stable_hash(export.min_area_px2))","            result = _mix(result, export.min_area_px2)"),(M,"def overflow","def _mix(result, value):\n    return overflow(result * 31 + stable_hash(value))\n\n\ndef overflow")]),
("same","helper export",[(M,EXP,"            result = _hash_export(result, export_name, export)\n"),(M,"def overflow","def _hash_export(result, export_name, export):\n    prime = 31\n"+EXP.replace("            ","    ",99).replace("    ","    ")+"    return result\n\n\ndef overflow")]) if False else
("same","items sorted",[(M,'''    sorted_formats = sorted(settings.formats.keys())
    for format_name in sorted_formats:
        format = settings.formats[format_name]
''','''    for format_name, format in sorted(settings.formats.items()):
''')]),
("same","sorted dict",[(M,'''            sorted_formatter_kwarg_names = sorted(export.formatter_kwargs.keys())
            for kwarg_name in sorted_formatter_kwarg_names:
''','''            for kwarg_name in sorted(export.formatter_kwargs):
''')]),
("same","loop values",[(M,'''            result = overflow(result * prime + stable_hash(export_name))
            result = overflow(result * prime + stable_hash(export.min_area_px2))
            result = overflow(result * prime + stable_hash(export.max_area_px2))
            result = overflow(result * prime + stable_hash(export.preference))
''','''            for value in (
                export_name,
                export.min_area_px2,
                export.max_area_px2,
                export.preference,
            ):
                result = overflow(result * prime + stable_hash(value))
''')]),
("same","inner function",[(M,"    prime = 31\n    result = 1\n\n    sorted_formats","    prime = 31\n    result = 1\n\n    def mix(current, value):\n        return overflow(current * prime + stable_hash(value))\n\n    sorted_formats"),(M,"    result = overflow(result * prime + stable_hash(settings.maximum_resolution))","    result = mix(result, settings.maximum_resolution)")]),
("same","reorder masks",[(M,"    return n & 0xFFFFFFFFFFFFFFFF","    return n % 18446744073709551616")]),
("same","elif stable",[(M,'''    if isinstance(v, float):
        return overflow(31 * hash_str(str(v)) + 843027630870857)

    if isinstance(v, Decimal):
        return overflow(31 * hash_str(str(v)) + 563112335098849)

    if isinstance(v, str):
        return hash_str(v)

    raise ValueError(f"Unsupported type: {type(v)}")
''','''    if isinstance(v, str):
        result = hash_str(v)
    elif isinstance(v, (float, Decimal)):
        salt = 843027630870857 if isinstance(v, float) else 563112335098849
        result = overflow(31 * hash_str(str(v)) + salt)
    else:
        raise ValueError(f"Unsupported type: {type(v)}")
    return result
''')]),
("same","aug",[(M,"        result = overflow(result * prime + ord(c))","        result *= prime\n        result += ord(c)\n        result = overflow(result)")]),
("same","while index",[(M,"    for c in s:\n        result = overflow(result * prime + ord(c))","    for index in range(len(s)):\n        result = overflow(result * prime + ord(s[index]))")]),
("bug","preference sign",[(M,"stable_hash(export.preference))","stable_hash(bool(export.preference)))")]),
("bug","preference sign local",[(M,"            result = overflow(result * prime + stable_hash(export.preference))","            preferred = bool(export.preference)\n            result = overflow(result * prime + stable_hash(preferred))")]),
("bug","preference bucket",[(M,"stable_hash(export.preference))","stable_hash(export.preference // 10))")]),
("bug","kwarg parity",[(M,KW,"                result = overflow(result * prime + stable_hash(bool(kwarg) if not isinstance(kwarg, str) else kwarg))\n")]),
]
