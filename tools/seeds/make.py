#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from specs.py: patch.diff, demo.sh, demo.py, demo_lib.py, meta.json.  make.py [ids...]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import specs
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
want = sys.argv[1:] or list(specs.S)
for id in want:
    prop, edits, needs, breaks, demo = specs.S[id]
    t = "/tmp/seedtree"
    shutil.rmtree(t, ignore_errors=True)
    subprocess.check_call("git clone -q /repo " + t, shell=True)
    orig = set()
    bad = False
    for f, pairs in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        for o, n in pairs:
            if s.count(o) != 1:
                print(id, f, "matches", s.count(o), "times"); bad = True; continue
            s = s.replace(o, n)
        open(p, "w").write(s)
    if bad:
        continue
    diff = subprocess.check_output(["git", "-C", t, "diff"]).decode()
    # every removed line has to be a line of the original tree
    for f, _ in edits:
        base = subprocess.check_output(["git", "-C", t, "show", "dc773ed:" + f]).decode().splitlines()
        rem = [l[1:] for l in subprocess.check_output(["git", "-C", t, "diff", f]).decode().splitlines() if l.startswith("-") and not l.startswith("---")]
        miss = [l for l in rem if l not in base]
        if miss or not rem:
            print(id, f, "removed lines not original or none:", miss)
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo)
    shutil.copy(HERE + "/demo_lib.py", d)
    shutil.copy(HERE + "/demo.sh", d)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree("/tmp/seedtree", ignore_errors=True)
