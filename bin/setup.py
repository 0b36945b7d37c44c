"""Builds the harness and has SANY parse every module of the specification."""
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

work = vlib.work_dir()
try:
    vlib.build(work, False)
    vlib.build(work, True)
    mods = [os.path.join(vlib.SPEC, f) for f in sorted(os.listdir(vlib.SPEC)) if f.endswith(".tla")]
    p = subprocess.run(["java", "-cp", vlib.tla_classpath(), "tla2sany.SANY"] + mods, cwd=vlib.SPEC, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or "***Parse Error***" in p.stdout or "Semantic errors" in p.stdout:
        print(p.stdout[-5000:])
        sys.exit(1)
    print("harness built, %d modules parsed" % len(mods))
finally:
    shutil.rmtree(work, ignore_errors=True)
