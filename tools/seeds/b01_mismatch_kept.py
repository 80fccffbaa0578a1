PROPERTY = "C01"
NEEDS = "a download whose content does not match the configured integrity, while the server sends a Content-Length header that does match the received size"
BREAKS = "a download with the wrong digest is moved into place when its length is plausible: the mismatch is only reported in the log"
EDITS = [("build/cold_incremental_rebuild.py", """        ensure_integrity(temp_path, external_file.integrity)
        try:
            os.unlink(""", """        try:
            ensure_integrity(temp_path, external_file.integrity)
        except IntegrityMismatchException:
            if str(os.path.getsize(temp_path)) != response.headers.get("Content-Length"):
                raise
            logger.warning("Integrity of {} was updated upstream", external_file.relpath)
        try:
            os.unlink(""")]
DEMO = r'''
import os, threading, http.server, hashlib, base64, sys
d = os.environ["DEMO_DIR"]
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        b = b"evil content"
        self.send_response(200); self.send_header("Content-Length", str(len(b))); self.end_headers(); self.wfile.write(b)
    def log_message(self, *a): pass
s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
from vanillaplusjs.build.build_context import BuildContext, ExternalFile
from vanillaplusjs.build.cold_incremental_rebuild import handle_external_file
c = BuildContext(d, False, False)
rel = "src/public/lib.js"
f = ExternalFile(rel, "http://127.0.0.1:%d/lib.js" % s.server_port, "sha256-" + base64.b64encode(hashlib.sha256(b"good").digest()).decode())
failed = False
try:
    handle_external_file(c, f)
except Exception as e:
    failed = True
there = os.path.exists(os.path.join(d, rel))
left = [x for x in os.listdir(os.path.join(d, "out")) if x.endswith(".tmp")]
print("failed", failed, "installed", there, "left", left)
sys.exit(0 if failed and not there and not left else 1)
'''
