PROPERTY = "C02"
NEEDS = "a download that fails while an older version of the file is still in the project"
BREAKS = "a failed update of an existing external file does not fail the build, and the old content is remembered under the new integrity, so it is never verified again"
EDITS = [("build/cold_incremental_rebuild.py", """    for future in futures:
        future.result()
""", """    for future in futures:
        try:
            future.result()
        except IntegrityMismatchException:
            raise
        except Exception:
            # the previous version is still usable, e.g. while offline
            logger.exception("Could not update an external file")
""")]
DEMO = r'''
import os, asyncio, sys, json
d = os.environ["DEMO_DIR"]
from vanillaplusjs.build.build_context import BuildContext, ExternalFile
from vanillaplusjs.build.cold_incremental_rebuild import check_external_files
c = BuildContext(d, False, False)
rel = "src/public/lib.js"
os.makedirs(os.path.dirname(os.path.join(d, rel)))
open(os.path.join(d, rel), "w").write("old")
c.external_files = {rel: ExternalFile(rel, "http://127.0.0.1:9/lib.js", "sha256-" + "A" * 43 + "=")}
failed = False
try:
    asyncio.run(check_external_files(c))
except Exception:
    failed = True
p = c.external_files_state_file
known = os.path.exists(p) and rel in json.load(open(p))["state_by_relpath"]
print("failed", failed, "remembered", known)
sys.exit(0 if failed and not known else 1)
'''
