#!/usr/bin/env python3
"""tools/corrupt.py [PROPERTY...]: changes single fields of recorded logs and asks which changes are rejected.

Development helper, shows how tightly a trace specification binds what was recorded. For every property the log of a
quick run is recorded; for every kind of record and every field some records get a changed value, each in a copy of
the log of its case. Prints the fields with how many of the changes were rejected.
"""
import concurrent.futures
import importlib.machinery
import importlib.util
import json
import os
import random
import re
import shutil
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
loader = importlib.machinery.SourceFileLoader("check", os.path.join(ROOT, "bin", "check"))
spec = importlib.util.spec_from_loader("check", loader)
check = importlib.util.module_from_spec(spec)
loader.exec_module(check)
TRIES = 3


def paths(x, at=()):
    """Leaves and lists of a record, list positions left open."""
    if isinstance(x, dict):
        for k, v in x.items():
            if at or k not in ("case", "op", "panic"):
                yield from paths(v, at + (k,))
    elif isinstance(x, list):
        yield at + ("[]",)
        if x:
            yield from paths(x[-1], at + ("*",))
    else:
        yield at


def change(x, path, rng):
    """Changes one leaf in place; False if there is nothing to change."""
    head, rest = path[0], path[1:]
    if head == "[]":
        if not x:
            return False
        del x[rng.randrange(len(x))]
        return True
    if head == "*":
        if not x:
            return False
        head = rng.randrange(len(x))
    elif not isinstance(x, dict) or head not in x:
        return False
    if rest:
        return change(x[head], rest, rng)
    v = x[head]
    if isinstance(v, bool):
        x[head] = not v
    elif isinstance(v, int):
        x[head] = v + rng.choice([1, -1])
    elif isinstance(v, str):
        x[head] = v + "x"
    else:
        return False
    return True


def one(prop):
    c = check.Check(prop)
    os.makedirs(c.work, exist_ok=True)
    try:
        c.build()
        c.behaviours = os.path.join(c.work, "behaviours")
        with open(c.behaviours, "w") as o:
            for m in c.fam["models"]:
                with open(c.design(m)) as i:
                    shutil.copyfileobj(i, o)
        log = os.path.join(c.work, "run.log")
        c.random = min(c.random, 300)
        c.every = max(c.every, 20)
        c.drive(log)
        rng = random.Random(c.seed)
        cases, found = {}, {}
        with open(log) as f:
            for line in f:
                if len(line) > 6000:
                    continue
                r = json.loads(line)
                cases.setdefault(r["case"], []).append(r)
        for rs in cases.values():
            if len(rs) > 300:
                continue
            for k, r in enumerate(rs):
                for p in set(paths(r)):
                    l = found.setdefault((r.get("op"),) + p, [])
                    if len(l) < 40:
                        l.append((r["case"], k))
                    elif rng.random() < 0.01:
                        l[rng.randrange(40)] = (r["case"], k)
        jobs = []
        for p, where in found.items():
            for case, k in rng.sample(where, min(TRIES, len(where))):
                rs = json.loads(json.dumps(cases[case]))
                if not change(rs[k], p[1:], rng):
                    continue
                name = os.path.join(c.work, "j%d" % len(jobs))
                with open(name, "w") as f:
                    for r in rs:
                        f.write(json.dumps(r, separators=(",", ":")) + "\n")
                jobs.append((p, name, len(rs)))

        def judge(j):
            p, name, n = j
            _, out = c.tlc(c.fam["trace"] + ".tla", "Trace.cfg", os.path.basename(name), {"TRACE_FILE": name, "PROP": prop}, heap="1g")
            m = re.search(r'<<"VALIDATED", (\d+), "OF", (\d+)>>', out)
            return p, (not m) or int(m.group(1)) < n
        seen = {}
        with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
            for p, rejected in ex.map(judge, jobs):
                a = seen.setdefault(".".join(p), [0, 0])
                a[0] += rejected
                a[1] += 1
        total = sum(a[1] for a in seen.values())
        hit = sum(a[0] for a in seen.values())
        print("%s %d of %d changes rejected; fields: %s" % (prop, hit, total, " ".join("%s %d/%d" % (p, a, b) for p, (a, b) in sorted(seen.items()))), flush=True)
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


for prop in sys.argv[1:] or sorted(check.CHECKS):
    one(prop)
