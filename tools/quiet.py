#!/usr/bin/env python3-vt
"""Runs every check on the behaviour-preserving changes of tools/refactors.py; each has to end with 0.

  tools/quiet.py [-j N] [-w WORKERS] [-p C01,C02] [names...]"""
import argparse
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF + "/sim")
import refactors  # noqa: E402
from dst import core  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=2)
ap.add_argument("-w", default="4")
ap.add_argument("-p")
ap.add_argument("--cap", default="60")
ap.add_argument("names", nargs="*")
o = ap.parse_args()
props = o.p.split(",") if o.p else core.all_ids()


def one(x):
    name, edits = x
    top = "/tmp/mq/" + name
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top + "/repo")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s/repo" % top, shell=True)
    for f, a, b in edits:
        p = os.path.join(top, "repo", f)
        t = open(p).read()
        if t.count(a) != 1:
            return name, ["%s: %d matches of %r" % (f, t.count(a), a[:80])]
        with open(p, "w") as h:
            h.write(t.replace(a, b))
    bad = []
    env = dict(os.environ, DST_REPO=top + "/repo", DST_BUILD=top + "/build", DST_OUT=top, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    for c in props:
        r = subprocess.run([VERIF + "/dst", "check", c, "--workers", o.w, "--cap", o.cap], env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            bad.append(c + ": " + r.stdout.decode(errors="replace")[-1500:])
    shutil.rmtree(top + "/build", ignore_errors=True)
    return name, bad


xs = [x for x in refactors.M if not o.names or x[0] in o.names]
with cf.ThreadPoolExecutor(o.j) as ex:
    for name, bad in ex.map(one, xs):
        print(name, "quiet" if not bad else "ALARM", flush=True)
        for b in bad:
            print("   ", b.replace("\n", "\n    "), flush=True)
