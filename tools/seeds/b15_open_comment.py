PROPERTY = 'C37'
NEEDS = 'a script which ends inside of a comment'
BREAKS = 'the build never ends'
EDITS = [('build/js/tokenizer.py', """    while (peeked := peekable.peek(2)) and peeked != "*/":
        res += peekable.read(1)
""", """    while (peeked := peekable.peek(2)) != "*/":
        if peeked:
            res += peekable.read(1)
""")]
DEMO = r'''
import os, sys, json, time, asyncio, subprocess
d = os.environ["DEMO_DIR"]

code = "import io, sys\nfrom vanillaplusjs.build.js.tokenizer import tokenize\nfrom vanillaplusjs.build.ioutil import *\ntry:\n    list(tokenize(PeekableTextIO(io.StringIO('/* open'))))\nexcept Exception as e:\n    print(repr(e))\n"
try:
    r = subprocess.run([sys.executable, "-c", code], timeout=20, capture_output=True, text=True)
    print(r.stdout, r.stderr)
    sys.exit(0)
except subprocess.TimeoutExpired:
    sys.exit(1)
'''
