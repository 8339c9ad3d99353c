#!/usr/bin/env python3
"""tools/seed.py SEEDS.py: writes seeded/<id>/ from a list of planted bugs and confirms each in a scratch copy.

Development helper; no check uses it. SEEDS.py defines SEEDS, a list of dicts with id, property, file,
edits [(old, new)], needs, breaks and demo (body of a Go main function plus imports).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# Exit 0 when the behaviour is right, not 0 when it is broken. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TZ=UTC
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go.txt" "$d/main.go"
cp "$repo/go.sum" "$d/go.sum"
printf 'module demo\n\ngo 1.16\n\nrequire (\n\tgithub.com/vanclief/ez v1.1.3\n\tgithub.com/vanclief/finmod v0.0.0\n)\n\nreplace github.com/vanclief/finmod => %s\n' "$repo" > "$d/go.mod"
cd "$d" && go build -o demo . && timeout 60 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    only = sys.argv[2:]
    for s in runpy.run_path(sys.argv[1])["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        scratch = "/tmp/seed-" + s["id"]
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree("/repo", scratch)
        sh("git checkout -q -- .", cwd=scratch)
        files = s["file"]
        for old, new, *f in s["edits"]:
            p = os.path.join(scratch, f[0] if f else files)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit("%s: text found %d times" % (s["id"], t.count(old)))
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=scratch).stdout)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.go.txt"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        good = sh("bash %s/demo.sh" % d, cwd="/repo")
        bad = sh("bash %s/demo.sh" % d, cwd=scratch)
        test = sh("sed 's#cd /repo#cd %s#g' /opt/vp/test.sh > /tmp/seed-test.sh; bash /tmp/seed-test.sh /tmp/seed-out.json >/dev/null 2>&1; cat /tmp/seed-out.json" % scratch)
        res = json.loads(test.stdout)
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("stable_tests") or base.get("tests")
        names = set(stable if isinstance(stable, list) else stable.keys())
        got = res.get("passed") or [k for k, v in (res.get("tests") or res).items() if v in ("pass", "passed")]
        missing = sorted(names - set(got))
        print(s["id"], "good" if good.returncode == 0 else "GOOD-FAILS " + good.stdout[-800:],
              "demo-fails" if bad.returncode not in (0,) and "VIOLATED" in bad.stdout else "DEMO-DOES-NOT-SHOW " + bad.stdout[-800:],
              "tests ok" if not missing else "TESTS %s" % missing, flush=True)
        if os.environ.get("CHECK", "1") == "1":
            for p in [s["property"]]:
                r = sh("VERIF_REPO=%s VERIF_SEED=%s bin/check %s" % (scratch, os.environ.get("VERIF_SEED", "1"), p), cwd=ROOT)
                print("   ", p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), r.stdout.strip()[-300:].replace("\n", " | "), flush=True)
        shutil.rmtree(scratch)


main()
