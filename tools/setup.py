#!/usr/bin/env python3
"""Nothing is compiled ahead: verifies that the tools are there and that every specification parses."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import tlc
mods = sorted(f for f in os.listdir(tlc.SPEC) if f.endswith(".tla"))
p = subprocess.run(["java", "-cp", tlc.JAR, "tla2sany.SANY"] + mods, cwd=tlc.SPEC, capture_output=True, text=True)
if p.returncode != 0:
    print(p.stdout[-3000:], p.stderr[-1000:])
    sys.exit(1)
subprocess.run(["/opt/venv/bin/python", "-B", "-c", "import docria.collection"], check=True,
               env=dict(os.environ, PYTHONPATH="/repo/py", PYTHONDONTWRITEBYTECODE="1"))
print("%d modules parse" % len(mods))
