PROPERTY = 'C12'
NEEDS = 'a published file of more than 64 KiB'
BREAKS = 'the end of a large file does not enter its hash, so its links keep an outdated version'
EDITS = [('build/handlers/hash.py', """        sha256.update(f.read())
""", """        remaining = os.fstat(f.fileno()).st_size
        while remaining > 0:
            chunk = f.read(65536)
            remaining -= len(chunk)
            if remaining <= 0 and len(chunk) < 65536 and f.tell() > 65536:
                break
            sha256.update(chunk)
""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess
d = os.environ["DEMO_DIR"]

from vanillaplusjs.build.handlers.hash import calculate_hash
import hashlib, base64
ok = True
for n in (0, 10, 65536, 65537, 200000):
    p = os.path.join(d, "f"); open(p, "wb").write(bytes(i % 251 for i in range(n)))
    if calculate_hash(p) != base64.urlsafe_b64encode(hashlib.sha256(open(p, "rb").read()).digest()).decode():
        ok = False; print("wrong for", n)
sys.exit(0 if ok else 1)
'''
