#!/usr/bin/env python3
"""Teeth of the binding: python3 tools/selftest.py [SUITE ...]

Records traces of the real code, corrupts one place of one event in each of many copies, and has TLC (with the guards
of all properties in force) say which copies are still behaviours of the specification.  Prints, for every kind of event, place
and corruption, how many of the copies were rejected.  Copies that are accepted are choices of the environment that
nothing later depends on, or holes.
"""
import collections
import copy
import json
import os
import random
import re
import shutil
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import run  # noqa: E402

ALL = ",".join('"C%02d"' % i for i in range(1, 40))
N = {"ga": 40, "pso": 40, "pso-rules": 12, "pso-again": 12, "search": 60, "twin": 12}


def places(x, path=()):
    """paths of all leaves and lists in an event"""
    if isinstance(x, dict):
        for key, v in x.items():
            if key not in ("e",):
                yield from places(v, path + (key,))
    elif isinstance(x, list):
        yield path
        for i, v in enumerate(x):
            yield from places(v, path + (i,))
    else:
        yield path


def get(x, path):
    for p in path:
        x = x[p]
    return x


def put(x, path, v):
    get(x, path[:-1])[path[-1]] = v


def name(path):
    return ".".join("*" if isinstance(p, int) else p for p in path)


def corrupt(ev, rnd):
    """returns (kind, place, how, corrupted events) or None"""
    i = rnd.randrange(len(ev))
    e = ev[i]
    kind = e["e"] + ("-" + e["w"] if isinstance(e.get("w"), str) else "")
    if rnd.random() < 0.12:
        how = rnd.choice(["drop", "double", "swap"])
        out = list(ev)
        if how == "drop":
            del out[i]
        elif how == "double":
            out.insert(i, ev[i])
        else:
            if i + 1 >= len(ev) or ev[i] == ev[i + 1]:
                return None
            out[i], out[i + 1] = ev[i + 1], ev[i]
        return kind, "(event)", how, out
    ps = list(places(e))
    if not ps:
        return None
    # by place, so that rare places are corrupted as often as common ones
    by = collections.defaultdict(list)
    for p in ps:
        by[name(p)].append(p)
    p = rnd.choice(by[rnd.choice(sorted(by))])
    v = get(e, p)
    if isinstance(v, bool):
        how, w = "flip", not v
    elif isinstance(v, int):
        d = rnd.choice([-1, 1, 2])
        how, w = "+-", v + d
    elif isinstance(v, str):
        return None
    elif v is None:
        return None
    elif isinstance(v, list):
        how = rnd.choice(["drop", "double", "swap"])
        w = list(v)
        if not v:
            return None
        j = rnd.randrange(len(v))
        if how == "drop":
            del w[j]
        elif how == "double":
            w.insert(j, v[j])
        else:
            if len(v) < 2:
                return None
            j = rnd.randrange(len(v) - 1)
            w[j], w[j + 1] = v[j + 1], v[j]
            if w == v:
                return None
    else:
        return None
    c = copy.deepcopy(e)
    put(c, p, w)
    return kind, name(p), how, ev[:i] + [c] + ev[i + 1:]


def suite(s, rnd, copies):
    work = os.path.join(ROOT, "work", "self-" + s)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    f = os.path.join(work, "t.ndjson")
    rc, out = run.sh([run.VH[0], run.SUITES[s].get("cmd", s), f, "5", "0", "1", str(N.get(s, 60))], 300)
    if rc != 0:
        raise SystemExit("harness failed: " + out)
    traces = [json.loads(x) for x in open(f)]
    traces = [t for t in traces if len(json.dumps(t)) < 60000] or traces
    muts = []
    tries = 0
    while len(muts) < copies and tries < 50 * copies:
        tries += 1
        t = rnd.choice(traces)
        if not t["ev"]:
            continue
        m = corrupt(t["ev"], rnd)
        if m:
            muts.append((m[:3], {**t, "ev": m[3]}))
    g = os.path.join(work, "m.ndjson")
    todo = list(range(len(muts)))
    verdict = {}
    rounds = 0
    while todo:
        rounds += 1
        with open(g, "w") as h:
            for k in todo:
                h.write(json.dumps(muts[k][1]) + "\n")
        cfg = ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Enforce = {%s}\n'
               'CONSTANT TraceFile = "%s"\nCONSTANT Diagnose = FALSE\n' % (ALL, g))
        rc, out = run.tlc(work, "tlc", run.SUITES[s]["spec"], cfg, workers=1)
        ok = set(int(x) for x in re.findall(r'<<"OK", (\d+)>>', out))
        if "No error has been found" in out:
            for j, k in enumerate(todo):
                verdict[k] = (j + 1) not in ok
            todo = []
        else:
            m = re.findall(r"/\\ t = (\d+)", out)
            if not m:
                # an error in an initial state
                m = re.findall(r"t = (\d+)", out)
            if not m or len(todo) == 1:
                for k in todo:
                    verdict[k] = True
                todo = []
                continue
            bad = int(m[-1])
            verdict[todo[bad - 1]] = True     # evaluation error: rejected
            del todo[bad - 1]
            if rounds > 400:
                break
    tab = collections.Counter()
    ex = {}
    for k, rej in verdict.items():
        tab[(muts[k][0], rej)] += 1
        if not rej:
            ex[muts[k][0]] = muts[k][1]["id"]
    keys = sorted(set(k for k, _ in tab))
    n = sum(tab.values())
    r = sum(v for (k, rej), v in tab.items() if rej)
    print("== %s: %d of %d corrupted traces rejected" % (s, r, n))
    for k in keys:
        a, b = tab[(k, True)], tab[(k, False)]
        if b:
            print("   %-14s %-22s %-7s rejected %d of %d   (e.g. %s)" % (k[0], k[1], k[2], a, a + b, ex[k]))
    sys.stdout.flush()
    shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    run.build()
    rnd = random.Random(7)
    for s in sys.argv[1:] or [x for x in run.SUITES if "gen" not in run.SUITES[x]]:
        suite(s, rnd, 300)
