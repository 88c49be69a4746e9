"""Somebody edits the input files (or the copies in the output directory) while a run is going on."""
import copy
import os
import random
import re

from .. import world
from ..core import Check
from . import common as C
from . import iofaults as IO
from .multi import SNAP

ATOMIC = ("replace", "remove", "rename", "touch")


def versions(c, seed, ppath):
    """settings texts and particle files somebody may put in the place of the first"""
    rng = random.Random(seed)
    s0 = dict(c["s"], ppath=ppath)
    S = [world.settings_text(s0)]
    for i in range(2):
        s = dict(s0)
        for k in rng.sample(["gravity", "viscosity", "dt", "end", "relax", "method", "binary", "ppath", "pad", "period"], rng.randint(1, 3)):
            if k == "gravity":
                s[k] = [s[k][1] - 1.0 - i, s[k][0] + 2.0, 0.0]
            elif k == "method":
                s[k] = "Explicit" if s[k] == "Implicit" else "Implicit"
            elif k == "binary":
                s[k] = not s.get(k)
            elif k == "ppath":
                s[k] = "./other." + c["fmt"]
            elif k == "pad":
                s[k] = [[rng.randint(0, 20), rng.choice([40, 3000, 9000])]]
            elif k == "dt":
                s[k] = s[k] * (0.5 + 0.1 * i)
            elif k == "end":
                s[k] = c["t0"] + (c["steps"] + i + 0.5) * s["dt"]
            else:
                s[k] = s[k] * 1.5 + 1e-3
        S.append(world.settings_text(s))
    P = [world.particle_file(c)]
    for i in range(2):
        d = copy.deepcopy(c)
        n = len(d["type"])
        u = rng.random()
        if u < 0.3 and n > 2:
            d = C.sub_case(d, sorted(rng.sample(range(n), n // 2)))
        elif u < 0.6:
            for v in d["vel"]:
                v[0] += 0.01 * (i + 1) * c["s"]["l0"] / c["s"]["dt"]
        elif u < 0.8:
            d["t0"] = c["t0"] + 0.4 * c["s"]["dt"] * (i + 1)
        else:
            for p in d["pos"]:
                p[1] += 0.001 * (i + 1) * c["s"]["l0"]
        P.append(world.particle_file(d))
    return S, P


class C31(Check):
    id = "C31"
    technique = ("deterministic simulation: a run of mps and an editor in one file system, a seeded scheduler placing the editor's replacements, removals, renamings and rewritings of the "
                 "input files and of their copies between the run's I/O operations; the run's snapshots compared with those of undisturbed reruns from its copies and from whole versions")
    variants = ("mps",)
    quick = 3000
    thorough = 180000
    rule = ("one evaluation = one run during which one to five edits are made between its I/O operations, followed by undisturbed runs from the copies it left and from each combination of "
            "versions; distinct = (edits, operations between which they fell, case)")
    assumptions = ["edits fall between I/O operations of the run, never inside one",
                   "the copies in the output directory are edited only once the first snapshot is being written"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "xs", "s"]), steps=rng.randint(1, 3), binary=rng.random() < 0.3)
        if rng.random() < 0.4:
            case["s"]["pad"] = [[rng.randint(0, 25), rng.choice([100, 2500, 5000, 20000])]]
        sc = {"case": case, "vseed": rng.randint(1, 10 ** 9), "when": rng.choice(["any", "early", "early", "early", "late"])}
        es = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
            kind = rng.choice(["replace", "replace", "replace", "remove", "rename", "inplace", "inplace", "half", "append", "touch"])
            tgt = rng.choice(["settings", "particles"])
            if sc["when"] == "late" and rng.random() < 0.5:
                tgt = "copy of " + tgt
            e = [round(rng.random(), 4), kind, tgt, rng.randint(0, 2)]
            es.append(e)
            if kind == "half":      # the rest of it follows
                es.append([round(min(0.9999, e[0] + rng.random() * 0.2), 4), "inplace", tgt, e[3]])
            elif kind == "remove" and rng.random() < 0.5:
                es.append([round(min(0.9999, e[0] + rng.random() * 0.2), 4), "replace", tgt, e[3]])
        sc["edits"] = sorted(es)
        if rng.random() < 0.4:
            sc["shortio"] = [rng.choice([300, 900]), 0, rng.choice([20, 100, 500])]
        return sc

    def edit(self, sim, e, name, data, k):
        kind = e[1]
        p = os.path.join(sim.root, name)
        if kind == "replace":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p + ".new", "wb") as f:
                f.write(data)
            os.rename(p + ".new", p)
        elif kind == "inplace":
            with open(p, "wb") as f:
                f.write(data)
        elif kind == "half":
            with open(p, "wb") as f:
                f.write(data[:len(data) // 2])
        elif not os.path.exists(p):
            return
        elif kind == "remove":
            os.unlink(p)
        elif kind == "rename":
            os.rename(p, p + ".old%d" % k)
        elif kind == "append":
            with open(p, "ab") as f:
                f.write(b"\n# an editor was here\n")
        elif kind == "touch":
            os.utime(p)

    def judge(self, sim, sc, v):
        c = sc["case"]
        inp = "input." + c["fmt"]
        S, P = versions(c, sc["vseed"], "./" + inp)
        f0 = {"case/settings.yml": S[0], "case/" + inp: P[0], "case/other." + c["fmt"]: P[1], "out": None}
        names = {"settings": "case/settings.yml", "particles": "case/" + inp, "copy of settings": "out/settings.yml", "copy of particles": "out/" + inp}
        plan = dict(world.base_plan(), args=["mps", "-s", "case/settings.yml", "-o", "out"], log=1, seed=1)
        if "shortio" in sc:
            plan["shortio"] = sc["shortio"]
        solo = sim.run("mps", dict(plan), f0)
        v.evals += 1
        if C.crashed(solo) or not C.snaps(solo):
            v.probe("case_fails_by_itself")
            return
        log = IO.oplog(solo)
        first = next(o[0] for o in log if o[1] == "ow" and SNAP.search(o[2]))
        lo, hi = {"early": (0, first), "any": (0, len(log)), "late": (first + 1, len(log))}[sc["when"]]
        sched, at = [], 0
        for k, e in enumerate(sc["edits"]):
            t = lo + int(e[0] * (hi - lo + 1))
            if t > at:
                sched.append((0, t - at))
                at = t
            data = S[e[3]] if "settings" in e[2] else P[e[3]]
            sched.append((-1, lambda e=e, data=data, k=k: self.edit(sim, e, names[e[2]], data, k)))
        (r,), trace = sim.multi([("mps", plan)], sched, f0)
        v.evals += 1
        v.sig(sc["edits"], [x for x in trace if x[0] >= 0], C.sha(repr(c).encode()))
        v.probe("when_" + sc["when"])
        for e in sc["edits"]:
            v.probe("edit_%s_of_%s" % (e[1], e[2].replace(" ", "_")))
        what = "run while %s" % ", ".join("%s: %s%s" % (e[2], e[1], " by version %d" % e[3] if e[1] in ("replace", "inplace", "half") else "") for e in sc["edits"])
        if C.crashed(r):
            v.fail("crash", "%s: %s" % (what, r.brief()))
            return
        snaps = {k: x for k, x in r.tree.items() if re.match(r"out/(prof|vtu|csv)/.", k)}
        if not snaps:
            v.probe("refused")
            if not r.died:
                v.fail("status", "%s: no snapshots, but %s" % (what, r.brief()))
            if sc["when"] == "late":
                v.fail("late", "%s: no snapshots, although edited only after the first" % what)
            return
        v.probe("simulated")

        def same(q, name):
            d = C.diff_trees({k: x for k, x in q.tree.items() if re.match(r"out/(prof|vtu|csv)/.", k)}, snaps, name, "the run that was edited around")
            if not d and (q.kind, q.code) != (r.kind, r.code):
                d = "ends with %s, %s with %s" % (r.brief(), name, q.brief())
            return d

        if sc["when"] == "late":
            d = same(solo, "the undisturbed run")
            if not d and not any(e[2].startswith("copy") for e in sc["edits"]):
                d = C.diff_trees(C.outs(solo), C.outs(r), "the undisturbed run", "the run that was edited around")
            if d:
                v.fail("late", "%s, after the first snapshot was begun: %s" % (what, d))
            return
        # the copies are what was simulated
        sett = r.tree.get("out/settings.yml")
        m = re.search(rb"^particlesPath: (\S+)$", sett or b"", re.M)
        part = r.tree.get("out/" + os.path.basename(m.group(1).decode())) if m else None
        if part is None:
            v.fail("copies", "%s: simulated, but there is no copy of the %s" % (what, "particle file the settings copy names" if m else "settings"))
            return
        f1 = {"case/settings.yml": sett, os.path.normpath("case/" + m.group(1).decode()): part, "out": None}
        again = sim.run("mps", dict(plan), f1)
        v.evals += 1
        d = same(again, "a run from its copies")
        if d:
            v.fail("copies", "%s: %s" % (what, d))
            return
        if all(e[1] in ATOMIC for e in sc["edits"]):
            vs = [0] + sorted({e[3] for e in sc["edits"] if e[1] == "replace" and e[2] == "settings"} - {0})
            vp = [0] + sorted({e[3] for e in sc["edits"] if e[1] == "replace" and e[2] == "particles"} - {0})
            if not any(not same(solo if (a, b) == (0, 0) else sim.run("mps", dict(plan), dict(f0, **{"case/settings.yml": S[a], "case/" + inp: P[b]})), "x") for a in vs for b in vp):
                v.fail("mixture", "%s: the snapshots are those of no combination of whole versions of the files" % what)
            v.probe("atomic")

    def shrink(self, sc):
        for k in range(len(sc["edits"])):
            if len(sc["edits"]) > 1:
                d = copy.deepcopy(sc)
                del d["edits"][k]
                yield d
        if "shortio" in sc:
            d = copy.deepcopy(sc)
            del d["shortio"]
            yield d
        yield from C.shrink_case(sc)
