#!/usr/bin/env python3
"""Which actions and expressions of the specification are never reached:  coverage.py [MODEL | trace:PROP:SUITE:N]...

Without arguments: all models.  An expression that no state reaches would be vacuous.
"""
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import run  # noqa: E402
import plan  # noqa: E402


def report(name, out):
    part = out[out.rindex("The coverage statistics"):] if "The coverage statistics" in out else ""
    best = {}
    for line in part.splitlines():
        m = re.search(r"line (\d+), col (\d+) to line (\d+), col (\d+) of module (\w+)[^:]*: (\d+)(?::(\d+))?", line)
        if m:
            k = (m.group(5),) + tuple(int(x) for x in m.groups()[:4])
            best[k] = max(best.get(k, 0), int(m.group(7) or m.group(6)))
    dead = [k for k, n in best.items() if n == 0]
    ok = "No error has been found" in out
    print("%s: %s, %d expressions not reached" % (name, "complete" if ok else "INCOMPLETE " + out[-300:], len(set(dead))))
    for mod, a, b, c, d in sorted(set(dead)):
        with open(os.path.join(ROOT, "spec", mod + ".tla")) as f:
            lines = f.read().splitlines()
        text = lines[a - 1][b - 1:] if a != c else lines[a - 1][b - 1:d]
        print("   %s:%d  %s" % (mod, a, text.strip()[:100]))


def main():
    args = sys.argv[1:] or sorted(plan.MODELS)
    work = "/tmp/coverage"
    for a in args:
        if a.startswith("trace:"):
            _, prop, suite, n = a.split(":")
            c = run.Check(prop, "quick", 1)
            os.makedirs(c.work, exist_ok=True)
            files = []
            c.validate = lambda suite, name, f: files.append(f)
            if "gen" in plan.SUITES[suite]:
                c.shard(suite, 0, 1, int(n), script=c.scripts(suite, 0, int(n)))
            else:
                c.shard(suite, 0, 1, int(n))
            f = files[0]
            rc, out = run.tlc(work, "x", plan.SUITES[suite]["spec"], c.trace_cfg(f, False), args=("-coverage", "60"), heap="6g", timeout=3000)
        else:
            m = plan.MODELS[a]
            rc, out = run.tlc(work, a, m["module"], m["cfg"], args=("-coverage", "60"), heap="8g", workers=4, timeout=3000)
        report(a, out)


main()
