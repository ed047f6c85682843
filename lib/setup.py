import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt, tempfile, shutil
os.makedirs(vt.BUILD, exist_ok=True)
c = vt.Check.__new__(vt.Check)
c.work = tempfile.mkdtemp(prefix="work-setup-", dir=vt.BUILD)
c.java = vt.build_java()
rc, out = c.tlc("RatSelfTest", "RatSelfTest.cfg")
shutil.rmtree(c.work, ignore_errors=True)
print(out[-400:])
sys.exit(0 if rc == 0 and "No error has been found" in out else 1)
