#!/usr/bin/env python3
"""Builds and confirms planted bugs:  plant.py [--check] ID...

Each definition (tools/seeds.py) names a property, replacements in /repo's sources, and a demonstration.
The change is made in a scratch copy of /repo, compiled, run through the stable tests and the demonstration;
when all of that is as it must be, seeded/ID is written.  With --check the property's check is then run
against the change applied to /repo itself (and undone).
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS, DEMO_SH  # noqa: E402
import seeds2  # noqa: E402,F401
import seeds3  # noqa: E402,F401
import seeds4  # noqa: E402,F401
import seeds5  # noqa: E402,F401
import seeds6  # noqa: E402,F401
import seeds7  # noqa: E402,F401
import seeds8  # noqa: E402,F401

COPY = "/tmp/seedrepo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", RUSTC_WRAPPER="",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="2",
           PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ["PATH"])
FLAKY = ("genetic-paraboloid", "genetic-schwefel", "particleswarm-paraboloid")


def sh(cmd, cwd=COPY, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def tests():
    t = ["--lib"]
    for f in sorted(os.listdir(COPY + "/optlib/tests")):
        n = f[:-3]
        if f.endswith(".rs") and n not in FLAKY:
            t += ["--test", n]
    a, o1 = sh("timeout 720 cargo test --workspace --no-fail-fast --offline " + " ".join(t) + " -- --test-threads 8")
    b, o2 = sh("timeout 300 cargo test --workspace --no-fail-fast --offline --doc -- --test-threads 8")
    return a == 0 and b == 0, o1[-1500:] + o2[-800:]


def plant(i):
    s = SEEDS[i]
    if not os.path.isdir(COPY):
        subprocess.check_call(["cp", "-a", "/repo", COPY])
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    d = os.path.join(ROOT, "seeded", i)
    tmp = "/tmp/seeddir/" + i
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/demo.rs", "w").write(s["demo"])
    open(tmp + "/demo.sh", "w").write(DEMO_SH.replace("cargo run", "cargo run --release") if s.get("release") else DEMO_SH)
    os.chmod(tmp + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(tmp + "/meta.json", "w"), indent=1)
    rc, out = sh("bash %s/demo.sh" % tmp)
    if rc != 0:
        print(i, "DEMO FAILS ON CLEAN TREE", rc, out[-1500:])
        return False
    for f, old, new in s["edits"]:
        p = COPY + "/" + f
        t = open(p).read()
        if t.count(old) != 1:
            print(i, "pattern occurs %d times in %s: %s" % (t.count(old), f, old))
            sh("git checkout -q -- .")
            return False
        open(p, "w").write(t.replace(old, new))
    rc, diff = sh("git diff")
    open(tmp + "/patch.diff", "w").write(diff)
    rc, out = sh("bash %s/demo.sh" % tmp)
    if rc == 0 or "error: could not compile" in out or "error[E" in out:
        print(i, "DEMO PASSES (or does not compile) WITH THE CHANGE", rc, out[-2500:])
        sh("git checkout -q -- .")
        return False
    ok, out = tests()
    sh("git checkout -q -- .")
    if not ok:
        print(i, "TESTS FAIL", out)
        return False
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    print(i, "planted")
    return True


def check(i, props=None, tier="quick"):
    p = os.path.join(ROOT, "seeded", i, "patch.diff")
    meta = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    assert subprocess.run(["git", "-C", "/repo", "apply", p]).returncode == 0
    try:
        for prop in props or [meta["property"]]:
            r = subprocess.run(["python3", "run.py", prop, "--tier", tier], cwd=ROOT, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            o = r.stdout.decode()
            v = [l for l in o.splitlines() if "VIOLATION property=%s" % prop in l]
            print(i, prop, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and v else "missed",
                  "" if v else o[-300:], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])


if __name__ == "__main__":
    a = sys.argv[1:]
    c = "--check" in a
    only = "--only-check" in a
    ids = [x for x in a if not x.startswith("--")] or list(SEEDS)
    for i in ids:
        if (only or plant(i)) and (c or only):
            check(i)
