#!/usr/bin/env python3
"""Sensitivity campaign: plants each change of tools/mutants.py in a scratch copy of /repo and runs the named check on it.

  python3-vt tools/campaign.py [-j N] [-t TIER] [names or prefixes...]
Prints one line per change: CAUGHT, MISSED, NOBUILD or ERROR.  Nothing is written to /repo or to the evidence files.
"""
import argparse
import concurrent.futures as cf
import os
import queue
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutants  # noqa: E402

VERIF = os.path.dirname(HERE)


def run(slot, mut, tier, extra):
    name, prop, file, pairs = mut
    if extra:
        prop = extra
    tree = "/tmp/mw/%s/repo" % slot
    shutil.rmtree(tree, ignore_errors=True)
    os.makedirs(tree)
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + tree, shell=True)
    p = os.path.join(tree, file)
    t = open(p).read()
    for o, n in pairs:
        if t.count(o) != 1:
            return name, prop, "NOMATCH", 0, ""
        t = t.replace(o, n)
    open(p, "w").write(t)
    env = dict(os.environ, DST_REPO=tree, DST_BUILD="/tmp/mw/%s/build" % slot, DST_OUT="/tmp/mw/%s" % slot,
               VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier)
    t0 = time.time()
    r = subprocess.run([VERIF + "/dst", "check", prop, "--tier", tier, "--workers", os.environ.get("CW", "2"), "--cap", os.environ.get("CC", "120")], env=env, cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(errors="replace")
    st = "ERROR"
    if "VIOLATION property=%s" % prop in out and r.returncode == 1:
        st = "CAUGHT"
    elif r.returncode == 0:
        st = "MISSED"
    elif "BuildError" in out or "error:" in out:
        st = "NOBUILD"
    return name, prop, st, time.time() - t0, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-t", default="quick")
    ap.add_argument("-p", default=None, help="run this property's check instead")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    todo = [m for m in mutants.M if not a.names or any(m[0].startswith(n) for n in a.names)]
    slots = queue.Queue()
    for i in range(a.j):
        slots.put(i)

    def job(m):
        s = slots.get()
        try:
            return run(s, m, a.t, a.p)
        finally:
            slots.put(s)

    n = {}
    with cf.ThreadPoolExecutor(a.j) as ex:
        for f in cf.as_completed([ex.submit(job, m) for m in todo]):
            name, prop, st, dt, out = f.result()
            n[st] = n.get(st, 0) + 1
            tail = ""
            if a.v or st in ("NOBUILD", "ERROR", "NOMATCH"):
                tail = "\n" + out[-1500:]
            else:
                for line in out.splitlines():
                    if line.startswith("VIOLATION") or " violat" in line:
                        tail = "  " + line[:160]
                        break
            print("%-8s %-22s %s %5.1fs%s" % (st, name, prop, dt, tail), flush=True)
    print(n)


main()
