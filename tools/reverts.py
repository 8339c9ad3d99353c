#!/usr/bin/env python3
"""tools/reverts.py [commit...]: reverts each repaired defect in a scratch copy of /repo and runs its check.

Development helper; no check uses it. Prints `commit property rc` (rc 1: reported again).
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for line in open(os.path.join(ROOT, "known_findings.txt")):
    m = re.match(r"fixed: property=(C\d\d) (\w+) ", line)
    if not m or (sys.argv[1:] and m.group(2) not in sys.argv[1:]):
        continue
    prop, commit = m.groups()
    work = tempfile.mkdtemp(prefix="revert-")
    try:
        repo = os.path.join(work, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        git = ["git", "-C", repo, "-c", "user.name=x", "-c", "user.email=x@x"]
        if subprocess.run(git + ["revert", "--no-commit", commit], capture_output=True).returncode != 0:
            # later repairs touch the same lines: the tree with the commits before it
            subprocess.run(git + ["revert", "--abort"], capture_output=True)
            subprocess.run(git + ["reset", "-q", "--hard", commit + "^"], check=True)
            how = "before it"
        else:
            how = "reverted"
        r = subprocess.run([os.path.join(ROOT, "bin", "check"), prop], cwd=ROOT, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
        print(commit, prop, how, r.returncode, (r.stdout.strip().splitlines() or [""])[-1][:100], flush=True)
    finally:
        shutil.rmtree(work)
