#!/usr/bin/env python3
"""Assembles DESIGN.md from doc/, properties.jsonl, bin/plan.py, known_findings.txt and the planted bugs."""
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from plan import CHECKS, FAMILIES  # noqa: E402


def read(*name):
    return open(os.path.join(ROOT, *name)).read()


def cfg(module, tier):
    """The constants of a model, without the derived ones."""
    name = os.path.join(ROOT, "spec", "%s_%s.cfg" % (module, tier))
    if not os.path.exists(name):
        return None
    keep = []
    for line in open(name):
        line = re.sub(r"^CONSTANTS?\s*", "", line.strip())
        if re.match(r"(SPECIFICATION|VIEW|ACTION_CONSTRAINT|INVARIANTS?|PROPERT|CHECK_DEADLOCK|SYMMETRY|POSTCONDITION)", line) or "<-" in line:
            continue
        keep += re.findall(r"\w+ = (?:\{[^}]*\}|\S+)", line)
    return "; ".join(keep)


def costs(tier):
    out = {}
    name = os.path.join(ROOT, "doc", "cost_%s.txt" % tier)
    if os.path.exists(name):
        for line in open(name):
            m = re.match(r"(C\d\d) 0 .*held: (\d+) states, (\d+) cases, (\d+) steps.* ([\d.]+)s(?: (\d+)KB)?$", line.strip())
            if m:
                out[m.group(1)] = m.groups()[1:]
    return out


props = [json.loads(l) for l in read("properties.jsonl").splitlines()]
details = {}
for block in re.split(r"^# ", read("doc", "properties.md"), flags=re.M)[1:]:
    head, *lines = block.strip().split("\n")
    details[head] = dict(l.split(": ", 1) for l in lines)
bugs = []
for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.loads(read("seeded", name, "meta.json"))
    bugs.append((m["property"], name, m))
missed = json.loads(read("doc", "missed.json"))
assert not set(missed) - {b[1] for b in bugs}, set(missed) - {b[1] for b in bugs}

text = []
for p in props:
    d = details[p["id"]]
    fam = FAMILIES[CHECKS[p["id"]][0]]
    mine = [b[1] for b in bugs if b[0] == p["id"]]
    text.append("### %s %s\n" % (p["id"], p["title"]))
    text.append("- *Specified and enumerated:* %s" % d["Spec"])
    text.append("- *Executed on the code:* %s" % d["Runs"])
    text.append("- *Oracle:* %s" % d["Oracle"])
    text.append("- *Beyond tests:* %s" % p["why_tests_cant"])
    text.append("- *Models:* %s; judged by %s.%s\n" % (", ".join(fam["models"]), fam["trace"],
                " Planted: %s." % ", ".join(mine) if mine else ""))

bounds = ["| model | quick | thorough |", "|---|---|---|"]
for m in sorted({m for f in FAMILIES.values() for m in f["models"]}):
    q, t = cfg(m, "quick"), cfg(m, "thorough")
    if q and t:  # only what differs
        qs = q.split("; ")
        t = "; ".join(x for x in t.split("; ") if x not in qs) or "more invariants"
    bounds.append("| %s | %s | %s |" % (m, q or "–", t or "as quick"))
quick, deep = costs("quick"), costs("thorough")
cost = ["| check | quick: states / cases / steps | seconds, GB | thorough: states / cases / steps | seconds, GB |", "|---|---|---|---|---|"]
for p in props:
    row = [p["id"]]
    for c in (quick, deep):
        if p["id"] in c:
            s, k, n, sec, kb = c[p["id"]]
            row += ["%s / %s / %s" % (s, k, n), "%.0f, %s" % (float(sec), "%.1f" % (int(kb) / 1e6) if kb else "–")]
        else:
            row += ["not measured", "–"]
    cost.append("| %s |" % " | ".join(row))

seeds = ["| property | bug | needs | missed first: what was added |", "|---|---|---|---|"]
for prop, name, m in sorted(bugs):
    seeds.append("| %s | %s | %s | %s |" % (prop, name, m["needs"], missed.get(name, "")))

fixed = ["- %s (`%s`) %s" % m for m in re.findall(r"^fixed: property=(C\d\d) (\w+) (.*)$", read("known_findings.txt"), flags=re.M)]
out = read("doc", "design.md")
for key, value in (("EXTRA_MODULES", read("doc", "modules.md").strip()), ("PROPERTIES", "\n".join(text)),
                   ("COST", "\n".join(bounds) + "\n\n" + "\n".join(cost)), ("MUTATION", read("doc", "mutation.md").strip()),
                   ("NSEEDS", str(len(bugs))), ("SEEDS", "\n".join(seeds)), ("FIXED", "\n".join(fixed))):
    out = out.replace("@@%s@@" % key, value)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(out)
