"""Setup: the tools the checks need are there, and the specifications parse."""
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import rec   # noqa: E402
import tlc   # noqa: E402

print(len(rec.classes()), "optimizers")
for f in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tlc.SPEC)
    if p.returncode or "*** Errors" in p.stdout:
        print(p.stdout)
        sys.exit(1)
    print("ok", os.path.basename(f))
os.makedirs(os.path.join(os.path.dirname(HERE), "evidence"), exist_ok=True)
