"""Restores the line endings a file of /repo has in HEAD (crlf.py FILE...)."""
import subprocess, sys
for f in sys.argv[1:]:
    old = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True).stdout
    b = open("/repo/" + f, "rb").read().replace(b"\r\n", b"\n")
    if b"\r\n" in old:
        b = b.replace(b"\n", b"\r\n")
    open("/repo/" + f, "wb").write(b)
