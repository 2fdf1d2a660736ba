#!/usr/bin/env python3
"""Runs checks against changed copies of the repository, each in its own mount namespace:

    iso.py [-j N] [--tier T] PATCH=PROP,PROP... ...     PATCH is a file, or the name of a planted bug

The copy of the repository is mounted over /repo and a copy of /verif over /verif, so that neither is touched and
several changes can be tried at the same time.  Prints one line per change and property.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(patch, props, tier):
    name = patch
    if not os.path.exists(patch):
        patch = os.path.join(ROOT, "seeded", patch, "patch.diff")
        if not props:
            props = [json.load(open(os.path.dirname(patch) + "/meta.json"))["property"]]
    patch = os.path.abspath(patch)
    d = tempfile.mkdtemp(prefix="iso.", dir="/tmp")
    out = []
    try:
        subprocess.check_call("cp -a /repo %s/repo && mkdir %s/verif && tar -C %s --exclude=.git --exclude=seeded --exclude=replays "
                              "--exclude=work -cf - . | tar -C %s/verif -xf -" % (d, d, ROOT, d), shell=True)
        subprocess.check_call(["rm", "-rf", d + "/repo/target"])
        subprocess.check_call(["git", "-C", d + "/repo", "apply", patch])
        for p in props:
            r = subprocess.run(["unshare", "-m", "sh", "-c",
                                "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && "
                                "python3 run.py %s --tier %s --no-models" % (d, d, p, tier)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode("utf8", "replace")
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=%s" % p)]
            if r.returncode == 1 and v:
                out.append("%s %s CAUGHT %s" % (name, p, v[0]))
                r2 = v[0].split("replay=")[-1].strip().replace("/verif", d + "/verif", 1)
                if KEEP:
                    subprocess.call(["cp", r2, KEEP])
            elif r.returncode == 0:
                out.append("%s %s quiet" % (name, p))
            else:
                out.append("%s %s EXIT %d %s" % (name, p, r.returncode, o[-600:]))
            print(out[-1], flush=True)
    finally:
        subprocess.call(["rm", "-rf", d])
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    n, tier = 3, "quick"
    KEEP = None
    while a and a[0].startswith("-"):
        if a[0] == "--keep":
            KEEP = a[1]
        elif a[0] == "-j":
            n = int(a[1])
        elif a[0] == "--tier":
            tier = a[1]
        a = a[2:]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        fs = []
        for x in a:
            p, _, props = x.partition("=")
            fs.append(ex.submit(one, p, [q for q in props.split(",") if q], tier))
        for f in fs:
            f.result()
