#!/usr/bin/env python3
"""Runs all properties at once against a tree and prints which of them are violated and how often.

VERIF_REPO=<tree> matrix.py [seed] [scale]      (used to try planted bugs; not a registered check)
"""
import json, os, re, shutil, sys, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check, plan

def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    scale = float(sys.argv[2]) if len(sys.argv) > 2 else 0.5
    profiles = collections.Counter()
    for p in plan.PLANS.values():
        for name, n in p.get("record", []):
            profiles[name] = max(profiles[name], n)
    c = check.Check("P12", "quick")
    found = collections.OrderedDict()
    try:
        c.build()
        for k, (name, n) in enumerate(sorted(profiles.items())):
            out = os.path.join(c.dir, "t.ndjson")
            n = max(4, int(n * scale))
            c.drive(["gen", "-profile", name, "-n", str(n), "-seed", str(seed * 77 + k), "-verify", "-query", "-out", out])
            cfg = ("SPECIFICATION Spec\nCONSTANTS\n  Scripts <- TraceScripts\n  Rates <- TraceRates\n"
                   "  Checked = {%s}\nINVARIANT Conforms\nVIEW View\nCHECK_DEADLOCK FALSE\n"
                   % ", ".join('"%s"' % p for p in plan.PLANS))
            status, text = c.tlc("Trace", cfg, {"TRACE": out, "UNIVERSE": c.universe}, args=["-continue"])
            counts = collections.Counter()
            lines = open(out).read().split("\n")
            example = {}
            for block in re.split(r"is violated", text)[1:]:
                b = re.findall(r"(?m)^/\\ bad = \{(.*?)\}", block)
                l = re.findall(r"(?m)^/\\ l = (\d+)", block)
                if not b:
                    continue
                for p in re.findall(r"P\d\d", b[-1]):
                    counts[p] += 1
                    example.setdefault(p, int(l[-1]) - 1)
            if status == "error" and not counts:
                print(name, "ERROR", text[-1500:])
            for p, n in counts.items():
                found.setdefault(p, {})[name] = n
                if os.environ.get("SHOW"):
                    i = example[p]
                    print(p, name, "BEFORE", lines[i - 2][:1500], "\n   CALL", lines[i - 1][:1500])
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    print("violated:", json.dumps(found))

main()
