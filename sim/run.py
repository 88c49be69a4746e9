#!/usr/bin/env python3-vt
import argparse
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import core, build  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    a = sp.add_parser("check")
    a.add_argument("prop")
    a.add_argument("--tier")
    a.add_argument("--seed", type=int)
    a.add_argument("-n", type=int)
    a.add_argument("--cap", type=float)
    a.add_argument("--workers", type=int)
    a = sp.add_parser("replay")
    a.add_argument("file")
    a.add_argument("--quiet", action="store_true")
    sp.add_parser("build")
    a = sp.add_parser("selftest")
    a.add_argument("props", nargs="*")
    a.add_argument("-n", type=int, default=40)
    a.add_argument("--seed", type=int, default=1)
    sp.add_parser("list")
    o = ap.parse_args()
    if o.cmd == "check":
        return core.run_check(o.prop, o.tier, o.seed, o.n, o.cap, o.workers)
    if o.cmd == "replay":
        return core.replay(o.file, o.quiet)
    if o.cmd == "build":
        try:
            for k, v in build.build().items():
                print(k, v)
        except build.BuildError as e:
            print(e)
            return 2
        return 0
    if o.cmd == "list":
        print("\n".join(core.all_ids()))
        return 0
    rc = 0
    for p in o.props or core.all_ids():
        rc |= core.selftest(p, o.n, o.seed)
    return rc


sys.exit(main())
