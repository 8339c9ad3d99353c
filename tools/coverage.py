#!/usr/bin/env python3
"""tools/coverage.py [MODEL...]: runs the design models with -coverage and lists actions and expressions never evaluated.

Development helper; no check uses it.
"""
import os
import re
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from plan import FAMILIES  # noqa: E402

TLA = "/opt/veriftools/tla"
for m in sys.argv[1:] or sorted({m for f in FAMILIES.values() for m in f["models"]}):
    with tempfile.TemporaryDirectory(prefix="cov-") as work:
        out = subprocess.run(
            ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g", "-cp", "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA),
             "tlc2.TLC", "-workers", "1", "-noGenerateSpecTE", "-metadir", work, "-coverage", "1", "-config", m + "_quick.cfg", m + ".tla"],
            cwd=os.path.join(ROOT, "spec"), capture_output=True, text=True,
            env=dict(os.environ, EMIT_FILE=os.path.join(work, "emit"), PROP="C00")).stdout
    last = out[out.rfind("The coverage statistics"):]
    print(m, "no error" if "No error has been found" in out else "ERROR")
    for line in last.splitlines():
        if re.match(r"^<\w+ .*>: 0:0$", line):
            print("   action", line)
        z = re.match(r"^\s*\|*line (\d+), col (\d+) to line (\d+), col (\d+) of module (\w+): 0$", line)
        if z and os.path.exists(os.path.join(ROOT, "spec", z.group(5) + ".tla")):
            l, c, l2, c2 = map(int, z.groups()[:4])
            src = open(os.path.join(ROOT, "spec", z.group(5) + ".tla")).read().splitlines()
            print("   never:", z.group(5), l, src[l - 1][c - 1:(c2 if l2 == l else None)])
