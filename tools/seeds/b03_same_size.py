PROPERTY = "C03"
NEEDS = "an external file whose configured integrity changes while the file on disk stays as it is"
BREAKS = "a remembered external file whose integrity was reconfigured is not verified again as long as its signature is unchanged and the remembered digest has the same algorithm"
EDITS = [("build/cold_incremental_rebuild.py", """    if old_state.integrity != desired_file.integrity:
        return False
""", """    if old_state.integrity.split("-")[0] != desired_file.integrity.split("-")[0]:
        return False
""")]
DEMO = r'''
import os, asyncio, sys, json, hashlib, base64
d = os.environ["DEMO_DIR"]
from vanillaplusjs.build.build_context import BuildContext, ExternalFile
from vanillaplusjs.build.cold_incremental_rebuild import check_external_files
c = BuildContext(d, False, False)
rel = "src/public/lib.js"
os.makedirs(os.path.dirname(os.path.join(d, rel)))
open(os.path.join(d, rel), "w").write("old")
i = "sha256-" + base64.b64encode(hashlib.sha256(b"old").digest()).decode()
c.external_files = {rel: ExternalFile(rel, "http://127.0.0.1:9/lib.js", i)}
asyncio.run(check_external_files(c))
c.external_files = {rel: ExternalFile(rel, "http://127.0.0.1:9/lib.js", "sha256-" + "A" * 43 + "=")}
try:
    asyncio.run(check_external_files(c))
except Exception:
    sys.exit(0)
print("the file was not verified although its integrity was reconfigured")
sys.exit(1)
'''
