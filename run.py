#!/usr/bin/env python3
"""Decides one property:  python3 run.py C01 [--tier quick|thorough] [--seed N]

Builds the harness from /repo's working tree, records executions of the real code (random scenarios and
scripts generated by TLC from the specification), has TLC decide whether each of them is a behaviour of the
specification with the guards of this property in force, and model-checks the specification itself.
exit 0: held; exit 1: VIOLATION line; exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from plan import PROPS, SUITES, MODELS  # noqa: E402

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
# every other shard runs in the other build: with debug assertions and overflow checks, and without
BUILDS = ("release", "plain")
VH = [os.path.join(HARNESS, "target", b, "vh") for b in BUILDS]
PAR = 7


class ToolError(Exception):
    pass


def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace")
    return p.returncode, p.stdout.decode("utf8", "replace")


def build():
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(HARNESS, "target"))
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env["PATH"]
    def one(b):
        return sh(["cargo", "build", "--profile", b, "--offline"], 800, cwd=HARNESS, env=env)
    with cf.ThreadPoolExecutor(len(BUILDS)) as ex:
        for rc, out in ex.map(one, BUILDS):
            if rc != 0:
                raise ToolError("harness build failed:\n" + out[-4000:])


def tlc(work, name, module, cfg, args=(), heap="3g", timeout=600, workers=1):
    """Runs TLC on a module of spec/ with a generated configuration."""
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss1000m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", *args, module + ".tla"]
    for attempt in (1, 2):
        rc, out = sh(cmd, timeout, cwd=d)
        if rc is None:
            raise ToolError("TLC timed out: %s" % name)
        # the checker itself has failed: that says nothing about the trace
        broken = re.search(r"StackOverflowError|OutOfMemoryError|Java heap space|GC overhead", out)
        if not broken and rc >= 0 and rc not in (134, 137, 143):
            break
        if attempt == 2:
            raise ToolError("TLC failed: %s\n%s" % (name, out[-2000:]))
        cmd = ["-Xmx8g" if c.startswith("-Xmx") else c for c in cmd]
    out = "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing")))
    return rc, out


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(ROOT, "work", "%s-%d" % (prop, os.getpid()))
        self.lock = threading.Lock()
        self.states = self.transitions = self.accepted = self.events = 0
        self.models = []
        self.suites = {}
        self.samples = []
        self.violations = []
        self.only_suites = False

    # ---- one shard: record, validate ----
    def shard(self, suite, k, shards, n, script=None, seed=None, vh=None):
        seed = self.seed if seed is None else seed
        name = "%s-%d" % (suite, k)
        f = os.path.join(self.work, name + ".ndjson")
        cmd = [vh or VH[(k + k // 2) % 2], SUITES[suite].get("cmd", suite), f, str(seed), str(k if script is None else 0),
               str(shards if script is None else 1), str(n)] + ([script] if script else [])
        rc, out = sh(cmd, 600)
        if rc in (7, -9):  # time and memory are also spent by others: does it happen again?
            rc, out = sh(cmd, 600)
        if rc == 7:
            t = json.loads(open(f + ".hang").readline())
            self.violate(suite, t, 1, "the code under test does not return")
            return
        if rc != 0:
            if rc is not None and (rc < 0 or rc >= 128 or rc == 134):
                self.violate(suite, {"id": "crash", "cfg": cmd, "ev": []}, 0, "the process died: " + out[-500:])
                return
            raise ToolError("harness %s failed (%s): %s" % (name, rc, out[-2000:]))
        if os.path.getsize(f) == 0:
            return
        self.validate(suite, name, f)

    def validate(self, suite, name, f):
        spec = SUITES[suite]["spec"]
        cfg = self.trace_cfg(f, False)
        rc, out = tlc(self.work, name, spec, cfg)
        with open(f) as h:
            n = sum(1 for _ in h)
        ok = set(int(x) for x in re.findall(r'<<"OK", (\d+)>>', out))
        st, tr = counts(out)
        bad = [k for k in range(1, n + 1) if k not in ok]
        finished = "Model checking completed. No error has been found." in out
        with self.lock:
            self.states += st
            self.transitions += tr
            self.accepted += len(ok)
            s = self.suites.setdefault(suite, {"traces": 0, "accepted": 0})
            s["traces"] += n
            s["accepted"] += len(ok)
        if finished and not bad:
            with self.lock:
                if len(self.samples) < 3:
                    with open(f) as h:
                        self.samples.append({"suite": suite, "trace": h.readline()[:1500]})
            return
        if not finished:
            # evaluation error: the observed value is outside the domain of the specification
            m = re.findall(r"/\\ t = (\d+)", out)
            if not m and not bad:
                raise ToolError("TLC failed on %s:\n%s" % (name, out[-3000:]))
            if m:
                bad = [int(m[-1])]
            elif "Finished computing initial states" not in out and "Computing initial states" not in out:
                raise ToolError("TLC failed on %s:\n%s" % (name, out[-3000:]))
        with open(f) as h:
            lines = h.readlines()
        for k in bad[:3]:
            t = json.loads(lines[k - 1])
            one = os.path.join(self.work, "%s-bad%d.ndjson" % (name, k))
            with open(one, "w") as h:
                h.write(lines[k - 1])
            rc, out1 = tlc(self.work, "%s-bad%d" % (name, k), spec, self.trace_cfg(one, True))
            if '<<"OK", 1>>' in out1 and "No error has been found" in out1:
                if finished:
                    raise ToolError("trace %s rejected once and accepted once:\n%s" % (t["id"], out[-3000:]))
                continue
            m = re.findall(r'<<"STUCK", 1, (\d+)', out1) or re.findall(r"/\\ l = (\d+)", out1)
            why = "" if "STUCK" in out1 else (re.findall(r"Error: (.*)", out1) or [""])[0]
            self.violate(suite, t, int(m[-1]) if m else 0, why)

    def trace_cfg(self, f, diagnose):
        return ('INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Enforce = {"%s"}\n'
                'CONSTANT TraceFile = "%s"\nCONSTANT Diagnose = %s\n'
                % (self.prop, f, "TRUE" if diagnose else "FALSE"))

    def violate(self, suite, trace, line, why):
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        p = os.path.join(ROOT, "replays", "%s-%s-%s.json" % (self.prop, suite, re.sub(r"\W", "_", str(trace["id"]))))
        ev = trace["ev"][line - 1] if 0 < line <= len(trace["ev"]) else None
        with open(p, "w") as f:
            json.dump({"property": self.prop, "suite": suite, "seed": self.seed, "tier": self.tier,
                       "trace_id": trace["id"], "first_unexplained_event": line, "event": ev, "why": why,
                       "spec": SUITES[suite]["spec"], "trace": trace}, f)
        with self.lock:
            self.violations.append((p, suite, trace["id"], line, ev, why))

    # ---- scripts generated from the specification, replayed on the code ----
    def scripts(self, suite, k, n):
        g = SUITES[suite]["gen"]
        name = "gen-%s-%d" % (suite, k)
        if g["mode"] == "simulate":
            args = ["-simulate", "num=%d" % n, "-depth", str(g.get("depth", 600)),
                    "-seed", str(self.seed * 100 + k)]
        else:
            args = []
        rc, out = tlc(self.work, name, g["module"], g["cfg"].replace("@N@", str(n)), args)
        lines = []
        for l in out.splitlines():
            if l.startswith('"SCRIPT '):
                lines.append(json.loads(l)[7:])
        if not lines or re.search(r"^Error:", out, re.M):
            raise ToolError("no scripts from %s:\n%s" % (name, out[-3000:]))
        f = os.path.join(self.work, name + ".txt")
        with open(f, "w") as h:
            h.write("\n".join(lines) + "\n")
        if g["mode"] == "simulate":
            self.shard(suite, k, 1, 0, f)
        else:
            # enumerated: one generation, several shards
            parts = g.get("parts", 4)
            for p in range(parts):
                with open(f + ".%d" % p, "w") as h:
                    h.write("\n".join(lines[p::parts]) + "\n")
            with cf.ThreadPoolExecutor(parts) as ex:
                for r in [ex.submit(self.shard, suite, p, 1, 0, f + ".%d" % p, None, VH[(p + p // 2) % 2]) for p in range(parts)]:
                    r.result()

    # ---- the specification itself ----
    def model(self, name):
        m = MODELS[name]
        rc, out = tlc(self.work, "mc-" + name, m["module"], m["cfg"], heap=m.get("heap", "6g"),
                      workers=m.get("workers", 3), timeout=m.get("timeout", 800))
        st, tr = counts(out)
        if "Model checking completed. No error has been found." not in out:
            raise ToolError("the specification fails its own properties (%s):\n%s" % (name, out[-4000:]))
        with self.lock:
            self.states += st
            self.transitions += tr
            self.models.append({"model": name, "distinct_states": st, "states_generated": tr})

    def run(self):
        t0 = time.time()
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        try:
            build()
            p = PROPS[self.prop]
            big = self.tier == "thorough"
            with cf.ThreadPoolExecutor(PAR) as ex:
                fs = []
                for m in [] if self.only_suites else p.get("models", []):
                    fs.append(ex.submit(self.model, m))
                if big and not self.only_suites:
                    for m in p.get("models_thorough", []):
                        fs.append(ex.submit(self.model, m))
                for suite, nq, nt in p["suites"]:
                    n = nt if big else nq
                    if "gen" in SUITES[suite]:
                        if SUITES[suite]["gen"]["mode"] == "simulate":
                            parts = 4 if n >= 200 else 2
                            for k in range(parts):
                                fs.append(ex.submit(self.scripts, suite, k, max(1, n // parts)))
                        else:
                            fs.append(ex.submit(self.scripts, suite, 0, n))
                    else:
                        shards = SUITES[suite].get("shards", PAR) * (4 if big else 1)
                        shards = max(1, min(shards, n))
                        for k in range(shards):
                            fs.append(ex.submit(self.shard, suite, k, shards, n))
                err = None
                for x in fs:
                    try:
                        x.result()
                    except ToolError as e:
                        err = err or e
                if err and not self.violations:
                    raise err
            self.evidence(time.time() - t0)
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            for p, suite, tid, line, ev, why in self.violations[:5]:
                print("  %s trace %s event %s: %s %s" % (suite, tid, line, json.dumps(ev)[:400], why))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("%s held: %d traces of the code accepted, %d states, %.0f s" % (
            self.prop, self.accepted, self.states, time.time() - t0))
        return 0

    def evidence(self, wall):
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
             "coverage": {"states": self.states, "transitions": self.transitions,
                          "traces_validated_against_impl": self.accepted,
                          "suites": self.suites, "models": self.models,
                          "samples": self.samples or [{"note": "no accepted trace"}]},
             "assumptions": PROPS[self.prop].get("assumptions", []),
             "wall_s": round(wall, 1), "violations": len(self.violations)}
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)


def main():
    a = sys.argv[1:]
    prop = a[0]
    if prop == "--build":
        build()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    try:
        c = Check(prop, tier, seed)
        c.only_suites = "--no-models" in a  # for trying changes of the code, on which the models do not depend
        sys.exit(c.run())
    except ToolError as e:
        print("ERROR of the check: %s" % e)
        sys.exit(2)


if __name__ == "__main__":
    main()
