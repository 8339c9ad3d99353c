#!/usr/bin/env python3
"""tools/mutate.py MUTANTS.jsonl OUT.jsonl [file-substring]: runs the checks on source mutants.

Development helper; no check uses it. MUTANTS.jsonl comes from tools/mutants. Every mutant is applied to a
scratch copy; the checks listed for its file run (with the behaviours of the design models generated once)
until one reports a violation.
"""
import concurrent.futures
import importlib.machinery
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
loader = importlib.machinery.SourceFileLoader("check", os.path.join(ROOT, "bin", "check"))
spec = importlib.util.spec_from_loader("check", loader)
check = importlib.util.module_from_spec(spec)
loader.exec_module(check)

C = lambda *n: ["C%02d" % k for k in n]
RELEVANT = {
    "market/orderbook.go": C(2, 3, 1, 4, 5, 6, 7, 44, 40, 46, 38, 39),
    "market/orderbook_types.go": C(2, 3, 38, 39),
    "market/candle.go": C(17, 18, 20, 19, 38, 39, 42, 43, 21, 15, 16),
    "market/candle_load.go": C(21, 22),
    "market/position.go": C(8, 9, 10, 11, 41, 45, 15, 16, 38, 39),
    "market/trade.go": C(12, 15, 16, 38, 39, 8),
    "market/order.go": C(14, 13, 15, 16, 38, 39),
    "market/order_request.go": C(13, 14),
    "market/asset.go": C(36, 38, 39), "market/asset_helpers.go": C(36),
    "market/pair.go": C(35, 38, 39), "market/balances.go": C(38, 39), "market/ticker.go": C(38, 39),
    "indicators/ma.go": C(31, 23, 24, 25, 30), "indicators/rsi.go": C(31, 26, 30), "indicators/ewv.go": C(27, 30),
    "indicators/williams_fractals.go": C(28, 29, 30, 38),
    "strategy/actions.go": C(32, 33), "strategy/annotation.go": C(33, 15, 16, 38),
    "strategy/order_actions.go": C(32), "strategy/position_actions.go": C(32), "strategy/strategy.go": C(34),
    "utils/date.go": C(37),
}
CACHE = "/tmp/mutate-cache"
lock = threading.Lock()
local = threading.local()


class Fast(check.Check):
    def __init__(self, prop, repo, tag):
        super().__init__(prop)
        self.repo = repo
        self.work = "/tmp/mutate-work/%s-%s" % (tag, prop)

    def design(self, module):
        keep = os.path.join(CACHE, module)
        with lock:
            if not os.path.exists(keep):
                os.makedirs(CACHE, exist_ok=True)
                shutil.move(super().design(module), keep)
        emit = os.path.join(self.work, module + ".behaviours")
        shutil.copy(keep, emit)
        return emit

    def build(self):
        src = os.path.join(self.work, "harness")
        shutil.copytree(os.path.join(ROOT, "harness"), src)
        mod = os.path.join(src, "go.mod")
        text = open(mod).read()
        open(mod, "w").write(text.replace("=> /repo", "=> " + self.repo))
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="0")
        self.bin = os.path.join(self.work, "harness.bin")
        p = check.run([check.GO, "build", "-o", self.bin, "."], cwd=src, env=env)
        if p.returncode != 0:
            raise check.CheckError("BUILD " + p.stdout[-500:])

    def evidence(self, *a):
        pass


def one(k, m):
    repo = "/tmp/mutate-repo/%d" % k
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), repo, ignore=shutil.ignore_patterns(".git", "test_dataset"))
    p = os.path.join(repo, m["file"])
    b = open(p, "rb").read()
    open(p, "wb").write(b[:m["from"]] + m["new"].encode() + b[m["to"]:])
    res = dict(m, k=k, verdict="MISSED", errors=[])
    try:
        for prop in m.get("props") or RELEVANT.get(m["file"], []):
            try:
                rc = Fast(prop, repo, k).main()
            except check.CheckError as e:
                if str(e).startswith("BUILD"):
                    res["verdict"] = "nobuild"
                    break
                res["errors"].append([prop, str(e)[:300]])
                continue
            except subprocess.TimeoutExpired:
                res["errors"].append([prop, "timeout"])
                continue
            if rc == 1:
                res["verdict"] = "caught"
                res["by"] = prop
                break
    finally:
        shutil.rmtree(repo, ignore_errors=True)
    return res


def main():
    muts = [json.loads(l) for l in open(sys.argv[1])]
    want = sys.argv[3] if len(sys.argv) > 3 else ""
    sys.stdout = open(os.devnull, "w")
    with open(sys.argv[2], "w") as out, concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("JOBS", "4"))) as ex:
        jobs = [ex.submit(one, k, m) for k, m in enumerate(muts) if want in m["file"] and m["file"] in RELEVANT]
        for j in concurrent.futures.as_completed(jobs):
            r = j.result()
            out.write(json.dumps(r) + "\n")
            out.flush()
            sys.stderr.write("%s %s:%d %r -> %r %s\n" % (r["verdict"], r["file"], r["line"], r["old"][:60], r["new"][:60], r.get("by", r["errors"])))


main()
