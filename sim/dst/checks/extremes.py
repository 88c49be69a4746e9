"""Runs whose settings and particle files hold any numbers at all."""
import copy
import math
import random

import numpy as np

from .. import fmt, world
from ..core import Check
from ..model import GHOST
from . import common as C
from .outputs import STEP

NUM = ["0", "-0.0", "-1", "1", "2", "1e-300", "-1e-300", "1e300", "-1e300", "1e-9", "-1e-9", "1e9", "-1e9", "1e-4", "-0.05", "5e-324", "1.7e308", ".nan", ".inf", "-.inf"]
INT = ["0", "-1", "1", "2", "3", "4", "5", "2147483647", "-2147483648"]
FL = [0.0, -0.0, -1.0, 1.0, 1e-300, 1e300, -1e300, 1e-9, 1e9, -1e9, 5e-324, 1.7e308, math.nan, math.inf, -math.inf, 2.0 ** 31, -2.0 ** 31, 2.0 ** 63]
TYPES = [0, 1, 2, 3, 4, 7, -1, 255, 2 ** 31 - 1, -2 ** 31, 2 ** 31]
RADII = ("radiusRatioForNumberDensity", "radiusRatioForGradient", "radiusRatioForLaplacian")
STEPS = 24


def num(x):
    return {".nan": math.nan, ".inf": math.inf, "-.inf": -math.inf}.get(x) if x in (".nan", ".inf", "-.inf") else float(x)


def steps_called_for(t0, dt, end):
    """(least, most) number of steps, or None if there are more than STEPS; sums and products may round differently"""
    if not t0 < end:
        return 0, 0
    t, n = t0, 0
    while t < end and n <= STEPS + 1:
        t += dt
        n += 1
        if math.isnan(t):
            break
    m = 0
    while t0 + m * dt < end and m <= STEPS + 1:
        m += 1
    if max(n, m) > STEPS:
        return None
    return min(n, m) - 1, max(n, m) + 1


class C30(Check):
    id = "C30"
    technique = ("deterministic simulation with simulated heap: random extreme numbers put into settings and particle files (zero, negative, huge, tiny, infinite, not a number, out of "
                 "range), memory contents and placement varied; ways to end, steps, memory accesses and snapshots of each run checked")
    variants = ("mps", "omp")
    quick = 9000
    thorough = 540000
    rule = ("one scenario = a random case with one to four numbers of its settings or particle file replaced by extreme ones, run twice with different contents and placement of memory "
            "(a third: the OpenMP build with bounds checks); distinct = (numbers replaced, variant, outcome)")
    assumptions = ["the simulated heap is limited to a few MiB, so that domains of many cells are refused for want of memory instead of slowing the search down",
                   "runs that are called upon to make more than %d steps are left out" % STEPS]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "xs", "s", "m"]), steps=rng.randint(1, 4), binary=rng.random() < 0.5, per_step=rng.random() < 0.7,
                              fmtname=rng.choice(["prof", "vtu"]) if i % 3 == 0 else None)   # the csv reader's buffers alone take 48 MiB
        s = case["s"]
        keys = [k for k, x in world.yaml_items(s) if x not in ("true", "false") and k not in ("particlesPath", "pressureCalculationMethod")]
        ch = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
            w = rng.random()
            if w < 0.45:
                k = rng.choice(keys)
                if k in ("dim", "numPhysicalCores"):
                    ch.append(["set", k, rng.choice(INT)])
                elif k in ("domainMin", "domainMax", "gravity"):
                    ch.append(["vec", k, rng.randrange(3), rng.choice(NUM)])
                elif rng.random() < 0.4:   # the number there, but by orders of magnitude larger or smaller
                    ch.append(["set", k, repr(float(dict(world.yaml_items(s))[k]) * rng.choice([1, 1, -1]) * 10.0 ** rng.choice([-100, -30, -12, -6, -3, 3, 6, 12, 30, 100, 290]))])
                else:
                    ch.append(["set", k, rng.choice(NUM)])
            elif w < 0.55:   # everything that is measured in particle distances
                ch.append(["set", "particleDistance", repr(s["l0"] * rng.choice([-1, -0.1, -0.01, 0.01, 0.1, 0.3, 3, 100, 1e4]))])
            elif w < 0.62:
                q = rng.choice([-1.0, -0.3, 0.0, 0.1, 0.3, 0.5, 10.0, 1e6])
                ch += [["set", k, repr(q * s[a])] for k, a in zip(RADII, ("rN", "rG", "rL"))]
            elif w < 0.68:   # domain turned round, without extent or with the particles on its sides
                a = rng.randrange(3)
                h = rng.choice(["swap", "point", "tight"])
                lo, hi = s["dmin"][a], s["dmax"][a]
                if h == "tight":
                    x = [p[a] for p in case["pos"]]
                    lo, hi = min(x), max(x)
                elif h == "swap":
                    lo, hi = hi, lo
                else:
                    lo = hi = rng.choice([lo, hi, case["pos"][0][a]])
                ch += [["vec", "domainMin", a, repr(lo)], ["vec", "domainMax", a, repr(hi)]]
            elif w < 0.9:
                j = rng.randrange(len(case["type"]))
                for _ in range(rng.choice([1, 1, 3])):
                    ch.append(["part", rng.choice(["pos", "pos", "vel"]), rng.choice([j, rng.randrange(len(case["type"]))]), rng.randrange(3), repr(rng.choice(FL + [10.0 ** rng.randint(2, 60)]))])
            elif w < 0.95:
                k = rng.choice(["type", "type", "fluid", "density"])
                ch.append(["part", k, rng.randrange(len(case["type"])), 0, repr(rng.choice(FL if k == "density" else TYPES))])
            else:
                ch.append(["t0", repr(rng.choice([0.0, -1.0, 1e9, 1e300, -1e300, math.nan, math.inf, -math.inf, 2.0 ** 60]))])
        plan = {"seed": rng.randint(1, 10 ** 6), "memfill": rng.randint(0, 4), "place": rng.randint(0, 3)}
        omp = i % 3 == 0
        if omp:
            plan["threads"] = rng.choice([1, 1, 2, 4])
        return {"case": case, "changes": ch, "variant": "omp" if omp else "mps", "plan": plan, "other": [rng.randint(0, 4), rng.randint(0, 3)]}

    @staticmethod
    def files(sc):
        """files of the run, the case as changed and the numbers that decide on its steps"""
        c = copy.deepcopy(sc["case"])
        items = dict(world.yaml_items(c["s"]))
        n = len(c["type"])
        for x in sc["changes"]:
            if x[0] == "set":
                items[x[1]] = x[2]
            elif x[0] == "vec":
                v = items[x[1]].strip("[]").split(", ")
                v[x[2]] = x[3]
                items[x[1]] = "[" + ", ".join(v) + "]"
            elif x[0] == "t0":
                c["t0"] = float(x[1])
            elif x[2] < n:
                if x[1] == "type":
                    c["type"][x[2]] = int(float(x[4]))
                elif x[1] in ("pos", "vel"):
                    c[x[1]][x[2]][x[3]] = float(x[4])
                elif c.get(x[1]):
                    c[x[1]][x[2]] = int(float(x[4])) if x[1] == "fluid" else float(x[4])
        f = world.files(c)
        f["case/settings.yml"] = world.yaml_text(list(items.items()))
        return f, c, num(items["dt"]), num(items["endTime"])

    def judge(self, sim, sc, v):
        f, c, dt, end = self.files(sc)
        t0 = c["t0"]
        call = steps_called_for(t0, dt, end)
        if call is None and (t0 + dt > t0 or math.isnan(t0 + dt)):
            v.probe("too_many_steps")
            return
        most = call[1] if call else 1
        n = len(c["type"])
        what = ", ".join(" ".join(str(y) for y in x) for x in sc["changes"])
        base = dict(sc["plan"], heaplimit=(56 if c["fmt"] == "csv" else 2 if sc["variant"] == "omp" else 8) << 20, opbudget=20000, alarm=100, hang=15, args=world.base_plan()["args"])
        r = sim.run(sc["variant"], base, f)
        v.evals += 1
        v.probe("out_of_memory", int(r.res["fired"]["heaplimit"] > 0))
        v.probe("end_" + ("refused" if r.died and not C.snaps(r) else "failed" if r.died else r.kind + str(r.code)))
        v.sig(what, sc["variant"], r.kind, r.code)
        if C.crashed(r) or b"Assertion" in r.err or b"__n < this->size()" in r.err:
            v.fail("crash", "%s: %s" % (what, r.brief()))
            return
        if not r.ok and not r.died:
            v.fail("end", "%s: %s" % (what, r.brief()))
            return
        done = [int(a) for a, _ in STEP.findall(r.err)]
        if len(done) > most:
            v.fail("steps", "%s: %d steps from %r by %r to %r" % (what, len(done), t0, dt, end))
            return
        if r.ok and call and STEP.search(r.err) and len(done) < call[0]:
            v.fail("steps", "%s: the run ends with status 0 after %d steps from %r by %r to %r" % (what, len(done), t0, dt, end))
            return
        sn = C.snaps(r)
        if r.ok and 0 not in sn:
            v.fail("snapshot", "%s: status 0 without a snapshot" % what)
            return
        if sorted(sn) != list(range(len(sn))):
            v.fail("snapshot", "%s: snapshots %s" % (what, sorted(sn)))
            return
        prev = np.array(c["type"], float)
        fl = np.array(c["fluid"] if c["fluid"] else [0] * n, float)
        for k in sorted(sn):
            if r.died and k == len(sn) - 1:
                break   # the one it was at when it ended
            for e in ("prof", "vtu", "csv"):
                try:
                    if e not in sn[k]:
                        raise fmt.Bad("missing")
                    st = {"prof": fmt.parse_prof, "vtu": fmt.parse_vtu, "csv": fmt.parse_csv}[e](sn[k][e])
                except fmt.Bad as x:
                    v.fail("format", "%s: snapshot %d, %s: %s" % (what, k, e, x))
                    return
                if st["n"] != n:
                    v.fail("count", "%s: snapshot %d, %s: %d of %d particles" % (what, k, e, st["n"], n))
                    return
                t = np.asarray(st["type"], float)
                bad = (t != prev) & (t != GHOST)
                if bad.any():
                    j = int(np.where(bad)[0][0])
                    v.fail("type", "%s: snapshot %d, %s: particle %d was of type %d and is of type %d" % (what, k, e, j, prev[j], t[j]))
                    return
                if e != "prof" and st.get("fluid") is not None and not np.array_equal(np.asarray(st["fluid"], float), fl):
                    v.fail("fluid", "%s: snapshot %d, %s: fluid types differ from the input" % (what, k, e))
                    return
            prev = t
        if r.kind == "abort" and b"bad_alloc" in r.err:
            return
        q = sim.run(sc["variant"], dict(base, memfill=sc["other"][0], place=sc["other"][1]), f)
        v.evals += 1
        if (q.kind, q.code) != (r.kind, r.code):
            v.fail("memory", "%s: %s; with other contents and placement of memory: %s" % (what, r.brief(), q.brief()))
            return
        d = C.diff_trees(C.outs(r), C.outs(q), "one run", "the run with other contents and placement of memory")
        if d:
            v.fail("memory", "%s: %s" % (what, d))

    def shrink(self, sc):
        for i in range(len(sc["changes"])):
            if len(sc["changes"]) > 1:
                d = copy.deepcopy(sc)
                del d["changes"][i]
                yield d
        if sc["plan"].get("threads", 1) > 1:
            d = copy.deepcopy(sc)
            d["plan"]["threads"] = 1
            yield d
        if not any(x[0] == "part" for x in sc["changes"]):
            yield from C.shrink_case(sc)
