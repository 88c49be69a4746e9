"""Long runs inside limits on memory and open files taken from short ones."""
import copy

from .. import fmt, world
from ..core import Check
from . import common as C


class C27(Check):
    id = "C27"
    technique = ("deterministic simulation: a long run of a scene at rest under injected limits on heap and open files that a short run of the same scene shows to suffice; "
                 "allocations and opens beyond the limit fail")
    variants = ("mps",)
    quick = 1200
    thorough = 72000
    rule = ("one evaluation = one run of 40 to 4000 steps of a scene at rest, allowed the peak heap (plus 4 KiB and one byte per step) and the peak number of open files of a run "
            "of 5 to 17 steps of the same scene, which must end with the same exit status as the short one and with all its snapshots, or one run of several hundred steps of a moving scene with the number of heap blocks limited in "
            "proportion to the number of particles; distinct = (scene, steps, saving interval)")
    assumptions = ["the scene does not move, so what one step or one snapshot needs is the same throughout; 4 KiB and one byte per step are allowed for"]

    def gen(self, rng, tier, i):
        if rng.random() < 0.35:   # anything may move, collide, leave: the number of blocks in use stays bounded by the scene
            case = world.gen_case(rng, size="xs", steps=5, binary=rng.random() < 0.5)
            n = len(case["type"])
            case["s"]["period"] = rng.choice([0.7, 7.7]) * case["s"]["dt"]
            if rng.random() < 0.5:
                case["s"]["cfl"] = 0.0   # an error message in every step
            return {"case": case, "short": 17, "long": 6 * n + 250, "moving": True}
        case = world.gen_case(rng, size=rng.choice(["xs", "xs", "s"]), steps=5, binary=rng.random() < 0.5, vel=0.0, leaving=False)
        s = case["s"]
        s["dt"] = 1e-9
        s["relax"] = 1e-9
        s["gravity"], s["gNorm"] = [0.0, 0.0, 0.0], 0.0
        for k in ("rN", "rG", "rL"):
            s[k] = rng.choice([2.1, 3.1, 2.6])
        case["vel"] = [[0.0, 0.0, 0.0] for _ in case["vel"]]
        k = rng.choice([0.7, 0.7, 1.5, 3.3, 5.5, 16.5])
        n = rng.choice([40, 60, 100, 200, 400]) if len(case["type"]) < 60 else rng.choice([40, 80])
        if len(case["type"]) <= 12 and rng.random() < 0.5:
            n = rng.choice([1500, 2500, 4000])
        if rng.random() < 0.3:
            s["cfl"] = -1.0   # an error message in every step
        s["period"] = k * s["dt"]
        return {"case": case, "long": max(n, 60) if k > 10 else n, "short": 5 if k < 2 else 17 if k < 10 else 37}

    def runof(self, sim, c, steps, **kw):
        d = copy.deepcopy(c)
        d["s"]["end"] = c["t0"] + (steps - 0.5) * c["s"]["dt"]
        return sim.run("mps", dict(world.base_plan(), **kw), world.files(d))

    def judge(self, sim, sc, v):
        c = sc["case"]
        short = self.runof(sim, c, sc["short"])
        v.evals += 1
        if short.kind not in ("exit", "abort") or not C.snaps(short):
            v.fail("baseline", "run of %d steps: %s" % (sc["short"], short.brief()))
            return
        if not short.ok:
            v.probe("case_fails_by_itself")
            return
        n = sc["long"]
        if sc.get("moving"):
            return self.moving(sim, sc, v, c, short, n)
        heap = short.res["peakbytes"] + 4096 + n
        r = self.runof(sim, c, n, heaplimit=heap, fdlimit=max(1, short.res["peakfds"]))
        v.evals += 1
        v.sig(C.sha(repr(c).encode()), n)
        fired = r.res["fired"]
        v.probe("snapshots_of_long_runs", len(C.snaps(r)))
        if r.res["peakbytes"] > short.res["peakbytes"]:
            v.probe("peak_of_long_run_higher")
        if r.ok:
            return
        x = self.runof(sim, c, n)
        v.evals += 1
        if not x.ok:
            v.probe("case_fails_by_itself")
            return
        what = "memory" if fired["heaplimit"] else "files" if fired["fdlimit"] else "something else"
        v.fail("grows" if what == "memory" else "files", "a run of %d steps needs at most %d bytes of heap and %d open files; a run of %d steps of the same scene at rest, allowed %d bytes and %d files, "
               "runs out of %s after %d snapshots (%s); unlimited it peaks at %d bytes and %d files" %
               (sc["short"], short.res["peakbytes"], short.res["peakfds"], n, heap, max(1, short.res["peakfds"]), what, len(C.snaps(r)), r.brief(), x.res["peakbytes"], x.res["peakfds"]))

    def moving(self, sim, sc, v, c, short, n):
        lim = short.res["peakblocks"] + 4 * len(c["type"]) + 100
        r = self.runof(sim, c, n, blocklimit=lim, fdlimit=max(1, short.res["peakfds"]))
        v.evals += 1
        v.sig(C.sha(repr(c).encode()), n)
        v.probe("moving")
        if r.ok or not (r.res["fired"]["heaplimit"] or r.res["fired"]["fdlimit"]):
            v.probe("moving_%s" % r.kind)
            return
        x = self.runof(sim, c, n)
        v.evals += 1
        what = "blocks" if r.res["fired"]["heaplimit"] else "files"
        v.fail("moving", "%d particles: a run of %d steps needs at most %d blocks of heap and %d open files; a run of %d steps, allowed %d blocks and %d files, runs out of %s (%s); "
               "unlimited it reaches %d blocks and %d files" % (len(c["type"]), sc["short"], short.res["peakblocks"], short.res["peakfds"], n, lim, max(1, short.res["peakfds"]), what,
                                                              r.brief(), x.res["peakblocks"], x.res["peakfds"]))

    def shrink(self, sc):
        if sc.get("moving"):
            return
        for k in (40, sc["long"] // 2):
            if 40 <= k < sc["long"]:
                yield dict(sc, long=k)
        c = sc["case"]
        for d in C.shrink_case(sc):
            if d["case"]["steps"] == c["steps"]:
                yield d
