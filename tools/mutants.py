#!/usr/bin/env python3
"""Small changes to every line of the library, and whether the suites notice them:

    mutants.py [-j N] [--file SUBSTRING] [--lines A-B] [--survivors FILE]

Each change is made in a scratch copy that is mounted over /repo (a copy of /verif over /verif), the harness is
built, the suites that exercise the file are recorded at a small size and their traces validated with the guards of
all properties in force.  Changes that do not compile are skipped; those that nothing notices are printed (they keep
the behaviour, or a check is blind).  Nothing in /repo or /verif is touched.
"""
import concurrent.futures
import json
import os
import re
import subprocess
import sys
import tempfile
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOTH = [("twin", 14), ("crash", 60), ("used", 30), ("pieces", 30), ("search", 60)]
FILES = {
    "optlib/src/genetic/mod.rs": [("ga", 150)] + BOTH + [("records", 30)],
    "optlib/src/genetic/selection/mod.rs": [("select", 300), ("ga", 80)],
    "optlib/src/genetic/selection/vec_float.rs": [("select", 300)],
    "optlib/src/genetic/pre_birth/vec_float.rs": [("select", 300), ("ga", 100)],
    "optlib/src/genetic/pairing/mod.rs": [("pairing", 150), ("twin", 14)],
    "optlib/src/genetic/creation/vec_float.rs": [("creation", 150)],
    "optlib/src/genetic/cross/mod.rs": [("bytes", 256), ("words", 200), ("numeric", 300)],
    "optlib/src/genetic/mutation/mod.rs": [("mutation", 300)],
    "optlib/src/particleswarm/mod.rs": [("pso", 120), ("pso-again", 40)] + BOTH,
    "optlib/src/particleswarm/velocitycalc/mod.rs": [("pso-rules", 96), ("pso", 150), ("pso-again", 40)],
    "optlib/src/particleswarm/postmove/mod.rs": [("moves", 300), ("pso", 60)],
    "optlib/src/particleswarm/postvelocitycalc/mod.rs": [("limits", 600), ("pso", 60)],
    "optlib/src/particleswarm/initializing/mod.rs": [("creation", 150), ("pso", 60)],
    "optlib/src/tools/mod.rs": [("creation", 150)],
    "optlib/src/tools/stopchecker/mod.rs": [("stop", 600), ("stop-long", 20), ("search", 100)],
    "optlib/src/tools/statistics/mod.rs": [("records", 150), ("aggregates", 200), ("rates", 150), ("counters", 150)],
    "optlib/src/tools/logging/mod.rs": [("text", 150)],
    "optlib/src/lib.rs": [("ga", 60), ("pso", 60), ("search", 60), ("counters", 60)],
    "optlib-testfunc/src/lib.rs": [("func", 150)],
}
SWAPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < ", " >= "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > ", " <= "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
    (r" % ", [" / "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\+= ", ["-= ", "= "]), (r"-= ", ["+= "]), (r"\^= ", ["|= ", "= "]),
    (r" & ", [" | "]), (r" \| ", [" & ", " ^ "]), (r"<< ", [">> "]), (r">> ", ["<< "]),
    (r"!self|!state|!checker|!\(|!x\.|!y\.|!coord|!indiv|!popul|!best|!0", [lambda m: m[1:]]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"Ordering::Less", ["Ordering::Greater", "Ordering::Equal"]), (r"Ordering::Greater", ["Ordering::Less", "Ordering::Equal"]),
    (r"Ordering::Equal", ["Ordering::Less", "Ordering::Greater"]),
    (r"(?<![\w.])(\d+)(?![\w.])", [lambda m: str(int(m) + 1), lambda m: str(max(int(m) - 1, 0)) if int(m) else "2"]),
    (r"(?<![\w.])\d+\.\d+", [lambda m: str(float(m) + 1.0), lambda m: str(float(m) / 2)]),
    (r"\.0\b", [".1"]), (r"\.1\b", [".0"]),
    (r"min_by", ["max_by"]), (r"max_by", ["min_by"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"is_finite", ["is_nan", "is_normal"]), (r"is_nan", ["is_infinite"]), (r"is_alive\(\)", ["is_alive() == false"]),
    (r"\.iter\(\)", [".iter().skip(1)", ".iter().rev()", ".iter().take(9)"]),
    (r"\.iter_mut\(\)", [".iter_mut().skip(1)", ".iter_mut().rev()", ".iter_mut().take(3)"]),
    (r"in &mut (self\.\w+)", [lambda m: "in " + m[8:] + ".iter_mut().rev()", lambda m: "in " + m[8:] + ".iter_mut().skip(1)",
                              lambda m: "in " + m[8:] + ".iter_mut().take(2)"]),
    (r"best", ["worst"]), (r"worst", ["best"]), (r"personal", ["global"]), (r"global", ["personal"]), (r"current", ["global"]),
    (r"first", ["second"]), (r"second", ["first"]), (r"_1\b", ["_2"]), (r"_2\b", ["_1"]),
    (r"new_inclusive", ["new"]), (r"Uniform::new\(", ["Uniform::new_inclusive("]),
    (r"\.abs\(\)", [""]), (r"\.sqrt\(\)", [""]), (r"\.signum\(\)", [".abs()"]), (r"\.hypot\(", [".max("]), (r"sin\(\)", ["cos()"]), (r"cos\(\)", ["sin()"]),
    (r"\.pop\(\)", [".last()"]), (r"filter_map", ["map"]), (r"continue", ["break"]), (r"\.get_iteration\(\)", [".get_iteration().saturating_sub(1)", ".get_iteration() + 1"]),
    (r"\.len\(\)", [".len().saturating_sub(1)", ".len() + 1", ".len().min(8)"]), (r"self\.iteration\b", ["(self.iteration + 1)", "(self.iteration % 256)"]),
    (r"w_min", ["w_max"]), (r"w_max", ["w_min"]), (r"powi\(2\)", ["abs()"]), (r"self\.max_iter\b", ["(self.max_iter + 1)", "(self.max_iter % 256)"]),
    (r"f64::NAN", ["0.0", "f64::MAX"]), (r"as f64", ["as f32 as f64"]), (r"\.clone\(\)\.count", [".skip(1).count"]),
    (r"MAX", ["MIN"]), (r"\bn\b", ["(n + 1)"]), (r"\bi\b", ["0"]), (r"subsec_millis", ["subsec_micros"]), (r"as_secs", ["subsec_millis"]),
]


def code_lines(path):
    """line numbers of the library's code"""
    out = []
    depth = None
    for k, l in enumerate(open(path).read().split("\n")):
        t = l.strip()
        if t.startswith("#[cfg(test)]"):
            break
        if not t or t.startswith("//") or t.startswith("use ") or t.startswith("pub mod") or t.startswith("#") or "with_capacity" in t:
            continue
        out.append((k, l))
    return out


def mutants(path):
    seen = set()
    for k, l in code_lines(path):
        code = l.split(" // ")[0]
        t = code.strip()
        for pat, to in SWAPS:
            for m in re.finditer(pat, code):
                for x in to:
                    r = x(m.group(0)) if callable(x) else x
                    n = code[:m.start()] + r + code[m.end():]
                    if n != code and (k, n) not in seen:
                        seen.add((k, n))
                        yield k, n
        if t.endswith(";") and not re.match(r"(let|return|pub|type|const|fn|use)\b", t) and t.count("(") == t.count(")") and (k, "") not in seen:
            seen.add((k, ""))
            yield k, ""
        # a condition that always or never holds
        m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", code)
        if m:
            for c in ("true", "false"):
                n = m.group(1) + c + m.group(3)
                if (k, n) not in seen:
                    seen.add((k, n))
                    yield k, n


# ---- inside of a mounted copy ----
def inside(suites):
    sys.path.insert(0, "/verif")
    os.chdir("/verif")
    import run
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               RUSTC_WRAPPER="", CARGO_TARGET_DIR="/verif/harness/target", CARGO_PROFILE_RELEASE_OPT_LEVEL="1",
               CARGO_INCREMENTAL="1", CARGO_BUILD_JOBS="2")
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env["PATH"]
    rc, out = run.sh(["cargo", "build", "--release", "--offline"], 900, cwd="/verif/harness", env=env)
    if rc != 0:
        print("RESULT nobuild")
        return
    every = '","'.join("C%02d" % k for k in range(1, 33))
    for s, n in suites:
        f = "/verif/work/m.ndjson"
        os.makedirs("/verif/work", exist_ok=True)
        rc, out = run.sh([run.VH[0], run.SUITES[s].get("cmd", s), f, "1", "0", "1", str(n)], 300)
        if rc != 0:
            print("RESULT killed %s (harness %s)" % (s, rc))
            return
        c = run.Check(every, "quick", 1)
        rc, out = run.tlc("/verif/work/mm", s, run.SUITES[s]["spec"], c.trace_cfg(f, False), timeout=300)
        k = sum(1 for _ in open(f))
        ok = set(re.findall(r'<<"OK", (\d+)>>', out))
        if len(ok) != k or "No error has been found" not in out:
            print("RESULT killed %s" % s)
            return
    print("RESULT survived")


class Copy:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="mut.", dir="/tmp/mut")
        subprocess.check_call("mkdir %s/repo && tar -C /repo --exclude=.git --exclude=target -cf - . | tar -C %s/repo -xf - && "
                              "mkdir %s/verif && tar -C %s --exclude=.git --exclude=seeded --exclude=replays --exclude=work "
                              "--exclude=target -cf - . | tar -C %s/verif -xf -" % (self.d, self.d, self.d, ROOT, self.d), shell=True)

    def judge(self, path, k, new, suites):
        p = os.path.join(self.d, "repo", path)
        old = open(p).read()
        lines = old.split("\n")
        lines[k] = new
        open(p, "w").write("\n".join(lines))
        try:
            r = subprocess.run(["unshare", "-m", "sh", "-c",
                                "mount --bind %s/repo /repo && mount --bind %s/verif /verif && python3 /verif/tools/mutants.py --inside '%s'"
                                % (self.d, self.d, json.dumps(suites))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1800)
            o = r.stdout.decode("utf8", "replace")
            m = re.findall(r"RESULT (.*)", o)
            return m[-1] if m else "error " + o[-500:]
        except subprocess.TimeoutExpired:
            return "killed (timeout)"
        finally:
            open(p, "w").write(old)

    def close(self):
        subprocess.call(["rm", "-rf", self.d])


def main():
    a = sys.argv[1:]
    if a and a[0] == "--inside":
        inside(json.loads(a[1]))
        return
    opt = {"-j": "6", "--file": "", "--lines": "0-100000", "--survivors": "/tmp/mut/survivors.txt"}
    while a:
        opt[a[0]] = a[1]
        a = a[2:]
    lo, hi = [int(x) for x in opt["--lines"].split("-")]
    jobs = []
    for path, suites in FILES.items():
        if opt["--file"] in path:
            for k, n in mutants(os.path.join("/repo", path)):
                if lo <= k + 1 <= hi:
                    jobs.append((path, k, n, suites))
    print("%d changes" % len(jobs), flush=True)
    lock = threading.Lock()
    free = []
    count = {}

    def work(j):
        with lock:
            c = free.pop()
        try:
            r = c.judge(*j)
        finally:
            with lock:
                free.append(c)
        with lock:
            count[r.split()[0]] = count.get(r.split()[0], 0) + 1
            if r.split()[0] not in ("killed", "nobuild"):
                path, k, n, _ = j
                old = open(os.path.join("/repo", path)).read().split("\n")[k]
                with open(opt["--survivors"], "a") as f:
                    f.write("%s:%d %s\n  - %s\n  + %s\n" % (path, k + 1, r[:300], old.strip(), n.strip()))
            if sum(count.values()) % 25 == 0:
                print(count, flush=True)

    w = int(opt["-j"])
    for _ in range(w):
        free.append(Copy())
    with concurrent.futures.ThreadPoolExecutor(w) as ex:
        list(ex.map(work, jobs))
    print(count)
    for c in free:
        c.close()


if __name__ == "__main__":
    main()
