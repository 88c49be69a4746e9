"""Several simulated processes in one world, one seeded schedule of their I/O operations."""
import copy
import random
import re

from .. import world
from ..core import Check
from . import common as C
from . import iofaults as IO

SNAP = re.compile(r"(^|/)(prof|vtu|csv)/output_\d+\.(prof|vtu|csv)$")


def schedule(rng, nproc, style=None):
    """[(process, number of I/O operations)]"""
    style = style or rng.choice(["fine", "fine", "mixed", "burst", "lockstep"])
    out = []
    if style == "lockstep":
        k = rng.randint(1, 3)
        for i in range(120):
            out.append([i % nproc, k])
    elif style == "burst":
        for _ in range(rng.randint(2, 6)):
            out.append([rng.randrange(nproc), rng.choice([rng.randint(1, 12), rng.randint(8, 40), rng.randint(30, 300)])])
    else:
        for _ in range(rng.randint(20, 120)):
            out.append([rng.randrange(nproc), rng.choice([1, 1, 1, 2, 3, 5]) if style == "fine" else rng.choice([1, 1, 2, 4, 15, 60])])
    return out


def shrink_sched(sc, key="sched"):
    """fewer switches: merge neighbours, drop segments"""
    s = sc[key]
    n = len(s)
    size = max(1, n // 2)
    while size >= 1:
        for a in range(0, n, size):
            d = copy.deepcopy(sc)
            del d[key][a:a + size]
            yield d
        size //= 2
        if size < 1:
            break


class C26(Check):
    id = "C26"
    technique = ("deterministic simulation: two or three whole processes in one file system, a seeded scheduler deciding the interleaving of their I/O operations, kills and errors in "
                 "one of them; writers of snapshots counted, the winner's output compared byte by byte with a solo run")
    variants = ("mps",)
    quick = 4500
    thorough = 270000
    rule = ("one evaluation = one interleaved execution of two or three runs of mps that are given the same output directory (spelled alike, relatively, absolutely or through a "
            "link) and share the settings name, the particle file name or both, or the same case and different output directories; distinct = (what they share, interleaving actually executed, fault)")
    assumptions = ["runs that share neither the name of their settings file nor that of their particle file are not told apart by the program and are not judged",
                   "the kernel's exclusive creation of files is what the runs' I/O really goes through"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size="xs", steps=rng.randint(1, 3), binary=rng.random() < 0.3)
        n = 2 if rng.random() < 0.8 else 3
        sc = {"case": case, "n": n, "share": rng.choice(["both", "both", "same", "same", "settings", "particles", "separate", "separate"]), "sched": schedule(rng, n),
              "spell": [rng.choice(["out", "out", "./out", "x/../out", "lnk", "@ROOT@/out", "out/"]) for _ in range(n)]}
        u = rng.random()
        if u < 0.25:
            sc["fault"] = [rng.randrange(n), rng.choice([rng.randint(0, 40), rng.randint(0, 150)]), rng.choice(["kill", "killafter", "torn"]), 0]
        elif u < 0.4:
            sc["fault"] = [rng.randrange(n), rng.choice([rng.randint(0, 40), rng.randint(0, 150)]), "perr", rng.choice([5, 28, 13, 24])]
        if rng.random() < 0.3:
            sc["shortio"] = [rng.choice([300, 900]), 0, rng.choice([20, 100, 500])]
        return sc

    def world(self, sc):
        """files, argument vectors, names of the settings and particle copies"""
        c = sc["case"]
        f = {"out": None, "x": None, "lnk": ("link", "out")}
        args, own = [], []
        for j in range(sc["n"]):
            d = copy.deepcopy(c)
            if sc["share"] == "separate":   # one case, output directories of their own
                sd, j0 = "case", 0
                f.update({"case/settings.yml": world.settings_text(dict(d["s"], ppath="./input." + d["fmt"])), "case/input." + d["fmt"]: world.particle_file(d), "out%d" % j: None})
                args.append(["mps", "-s", "case/settings.yml", "-o", sc["spell"][j].replace("lnk", "out").replace("out", "out%d" % j)])
                own.append(set())
                continue
            if sc["share"] == "same":
                j0 = 0
            else:
                j0 = j
                # runs that can be told apart by every snapshot
                d["t0"] = c["t0"] + 8.0 * j
                d["s"]["end"] = c["s"]["end"] + 8.0 * j
            sn = "settings.yml" if sc["share"] != "particles" else "settings%d.yml" % j0
            pn = ("input%d." % j0 if sc["share"] == "settings" else "input.") + d["fmt"]
            sd = "case%d" % j0
            d["s"]["ppath"] = "./" + pn
            f[sd + "/" + sn] = world.settings_text(d["s"])
            f[sd + "/" + pn] = world.particle_file(d)
            args.append(["mps", "-s", sd + "/" + sn, "-o", sc["spell"][j]])
            own.append({"out/" + sn, "out/" + pn})
        return f, args, own

    def judge(self, sim, sc, v):
        f, args, own = self.world(sc)
        n = sc["n"]
        plans = [dict(world.base_plan(), args=a, log=1, seed=j + 1) for j, a in enumerate(args)]
        if "shortio" in sc:
            for p in plans:
                p["shortio"] = sc["shortio"]
        solo = []
        for j in range(n):
            if sc["share"] == "same" and j and sc["spell"][j] == sc["spell"][0]:
                solo.append(solo[0])
                continue
            solo.append(sim.run("mps", dict(plans[j]), f))
        if any(r.kind not in ("exit", "abort") or not (C.snaps(r) or C.snaps(r, "out%d" % j)) for j, r in enumerate(solo)):
            v.probe("case_fails_by_itself")
            return
        bad = None
        if "fault" in sc:
            bad = sc["fault"][0] % n
            plans[bad]["faults"] = [sc["fault"][1:]]
        rs, trace = sim.multi([("mps", p) for p in plans], [tuple(x) for x in sc["sched"]], f)
        v.evals += 1
        if bad is not None and not sum(rs[bad].res["fired"].values()):
            bad = None
        v.sig(sc["share"], trace, sc.get("fault"), sc["n"])
        v.probe("share_" + sc["share"])
        v.probe("switches_between_processes", sum(1 for a, b in zip(trace, trace[1:]) if a[0] != b[0]))
        names = ["run %d" % (j + 1) for j in range(n)]
        ends = ", ".join("%s: %s" % (a, r.brief()) for a, r in zip(names, rs))
        for j, r in enumerate(rs):
            if C.crashed(r):
                v.fail("crash", ends)
                return
        if sc["share"] == "separate":
            for j, r in enumerate(rs):
                if j == bad:
                    continue
                if (r.kind, r.code) != (solo[j].kind, solo[j].code):
                    v.fail("outcome", "%s, with an output directory of its own, ends with %s, alone with %s" % (names[j], r.brief(), solo[j].brief()))
                    return
                d = C.diff_trees(C.outs(solo[j], "out%d" % j), C.outs(r, "out%d" % j), "the run alone", "the run next to others")
                if d:
                    v.fail("output", "%s, with an output directory of its own: %s" % (names[j], d))
                    return
            return
        writers = [j for j, r in enumerate(rs) if any(o[1] == "ow" and o[4] >= 0 and SNAP.search(o[2]) for o in IO.oplog(r))]
        v.probe("writers_%d" % len(writers))
        if len(writers) > 1:
            v.fail("shared", "%s write snapshots into one output directory (%s)" % (" and ".join(names[j] for j in writers), ends))
            return
        if bad is None and not writers:
            v.fail("none", "no run gets the output directory (%s)" % ends)
            return
        for j, r in enumerate(rs):
            if j not in writers and j != bad and not r.died:
                v.fail("status", "%s wrote nothing but ends with %s (%s)" % (names[j], r.brief(), ends))
                return
        left = set(C.snaps(rs[0]))
        if not writers:
            if left:
                v.fail("orphan", "snapshots %s, but no run opened them" % sorted(left))
            return
        w = writers[0]
        if w == bad:
            return
        if (rs[w].kind, rs[w].code) != (solo[w].kind, solo[w].code):
            v.fail("outcome", "%s ends with %s, alone with %s" % (names[w], rs[w].brief(), solo[w].brief()))
            return
        others = set().union(*[own[j] for j in range(n) if j != w]) - own[w]
        got = {k: x for k, x in rs[w].tree.items() if k.startswith("out/") and k not in others}
        want = {k: x for k, x in solo[w].tree.items() if k.startswith("out/")}
        d = C.diff_trees(want, got, "the run alone", "the run next to others")
        if d:
            v.fail("output", "%s: %s" % (names[w], d))

    def shrink(self, sc):
        if "fault" in sc:
            d = copy.deepcopy(sc)
            del d["fault"]
            yield d
        if "shortio" in sc:
            d = copy.deepcopy(sc)
            del d["shortio"]
            yield d
        if sc["n"] > 2:
            d = copy.deepcopy(sc)
            d["n"] = 2
            d["sched"] = [x for x in d["sched"] if x[0] < 2]
            yield d
        yield from shrink_sched(sc)
        yield from C.shrink_case(sc)
