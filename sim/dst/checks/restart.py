import copy
import errno
import os
import random
import re

import numpy as np

from .. import fmt, world
from ..core import Check
from ..model import Model
from . import common as C
from . import iofaults as IO


def restart_files(c, data, f, binary, period=None, end=None, sub="case2"):
    """a new case directory whose particle file is a snapshot"""
    s = copy.deepcopy(c["s"])
    s["ppath"] = "snapshot." + f
    s["binary"] = binary
    if period:
        s["period"] = period
    if end is not None:
        s["end"] = end
    return {sub + "/settings.yml": world.yaml_text(world.yaml_items(s)), sub + "/snapshot." + f: data, "out2": None}


def restart_plan(**kw):
    return dict(world.base_plan(sdir="case2", outdir="out2"), **kw)


def usable(data, f):
    """a snapshot whose numbers can be read back at all"""
    t = data.lower()
    return b"nan" not in t and b"inf" not in t


class C07(Check):
    id = "C07"
    technique = "deterministic simulation: crash/restart histories (kill at random points, restart from any complete snapshot and format), restarted runs compared with the snapshot, with each other and step by step with the reference model"
    variants = ("mps",)
    quick = 5000
    thorough = 300000
    rule = ("one scenario = a random case, run to its end or killed at a random operation, then restarted from one complete snapshot through each of prof, csv and ASCII "
            "vtu, then a chain of further kills and restarts; distinct = (case, snapshot, format, kill points); restarts from snapshot 0 and from later ones both counted")
    assumptions = ["snapshots whose positions or velocities are not all finite need not be accepted; if they are, the run has to start from exactly these"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "s", "s"]), steps=rng.randint(2, 7), binary=False, per_step=rng.random() < 0.7)
        sc = {"case": case, "pick": rng.random(), "kills": [rng.random() for _ in range(rng.randint(0, 3))], "chain": [rng.choice(["prof", "csv", "vtu"]) for _ in range(3)]}
        if rng.random() < 0.4:
            sc["firstkill"] = rng.random()
        if i % 23 == 5:   # two particles in one place, or one that is far too fast: values that are no numbers
            case["s"]["method"] = "Explicit"
            fl = [j for j, t in enumerate(case["type"]) if t == world.FLUID]
            act = [j for j, t in enumerate(case["type"]) if t != world.GHOST]
            if fl:
                j, o = rng.choice(fl), rng.choice(act)
                if j != o:
                    case["pos"][j] = list(case["pos"][o])
                else:
                    case["vel"][j] = [1e308, 1e308, 0.0]
        return sc

    def nonfinite(self, sim, c, sn, n, v):
        """values that are no numbers in the state itself: refused, or restarted from exactly these"""
        v.probe("snapshot_not_finite")
        for fm in ("prof", "vtu", "csv"):
            r = sim.run("mps", restart_plan(), restart_files(c, sn[fm], fm, False))
            v.evals += 1
            v.sig("nonfinite", C.sha(repr(c).encode()), n, fm)
            rs = C.snaps(r, "out2")
            if C.crashed(r) or not rs and r.ok:
                v.fail("refused", "restart from the %s file of snapshot %d, which holds values that are no numbers: %s" % (fm, n, r.brief()))
            elif rs and rs.get(0, {}).get("prof") != sn["prof"]:
                v.fail("first", "restart from the %s file of snapshot %d, which holds values that are no numbers: neither refused nor started from these" % (fm, n))

    def judge(self, sim, sc, v):
        c = sc["case"]
        s = c["s"]
        f = world.files(c)
        base = sim.run("mps", dict(world.base_plan(), log=1), f)
        v.evals += 1
        if not base.ok:
            v.probe("case_fails_by_itself")
            return
        snaps = C.snaps(base)
        if "firstkill" in sc:
            k = int(sc["firstkill"] * base.res["ops"])
            r = sim.run("mps", dict(world.base_plan(), faults=[[k, "killafter", 0]]), f)
            v.evals += 1
            left = C.snaps(r)
            complete = [n for n in sorted(left) if left[n] == snaps[n]]
            if not complete:
                v.probe("killed_before_a_snapshot")
                return
            n = complete[-1]
            v.probe("restart_after_kill")
        else:
            n = min(int(sc["pick"] * len(snaps)), len(snaps) - 1)
        sn = snaps[n]
        if not usable(sn["prof"], "prof"):
            return self.nonfinite(sim, c, sn, n, v)
        if not usable(sn["vtu"], "vtu"):
            v.probe("pressures_not_finite")
        key = C.sha(repr(c).encode())
        # 1. the three formats, full precision, output at every step of two steps
        T = fmt.parse_prof(sn["prof"])["time"]
        m = Model(dict(world.settings_for_model(s)))
        runs = {}
        for fm in ("prof", "vtu", "csv"):
            r = sim.run("mps", restart_plan(), restart_files(c, sn[fm], fm, True, period=0.7 * s["dt"], end=T + 1.5 * s["dt"]))
            v.evals += 1
            v.sig(key, n, fm)
            rs = C.snaps(r, "out2")
            if 0 not in rs or set(rs[0]) != {"prof", "vtu", "csv"}:
                v.fail("refused", "restart from the %s file of snapshot %d: %s" % (fm, n, r.brief()))
                return
            if rs[0]["prof"] != sn["prof"]:
                v.fail("first", "restart from the %s file of snapshot %d: its first snapshot differs from the loaded one: %s" %
                       (fm, n, C.diff_trees({"prof": sn["prof"]}, {"prof": rs[0]["prof"]}, "loaded", "first snapshot")))
                return
            if fm != "prof" and rs[0]["csv"] != sn["csv"]:
                v.fail("first", "restart from the %s file of snapshot %d: fluid types or values of its first csv snapshot differ from the loaded one: %s" %
                       (fm, n, C.diff_trees({"csv": sn["csv"]}, {"csv": rs[0]["csv"]}, "loaded", "first snapshot")))
                return
            runs[fm] = (r, rs, [fmt.parse_vtu(rs[k]["vtu"]) for k in sorted(rs) if "vtu" in rs[k] and (r.ok or k == 0)])
        if (runs["prof"][0].kind, runs["prof"][0].code) != (runs["vtu"][0].kind, runs["vtu"][0].code) or len(runs["prof"][2]) != len(runs["vtu"][2]):
            v.fail("formats", "restart from snapshot %d: prof: %s after %d snapshots, vtu: %s after %d" %
                   (n, runs["prof"][0].brief(), len(runs["prof"][2]), runs["vtu"][0].brief(), len(runs["vtu"][2])))
            return
        for k, (x, y) in enumerate(zip(runs["prof"][2], runs["vtu"][2])):
            for q in ("time", "type", "pos", "vel", "P", "nd", "bc"):
                if not np.array_equal(np.asarray(x[q]), np.asarray(y[q]), equal_nan=True):
                    v.fail("formats", "restart from snapshot %d: after %d steps %s differs between the run started from prof and the one started from vtu" % (n, k, q))
                    return
        a, b = runs["prof"][2][0], runs["csv"][2][0]
        for q in ("pos", "vel"):
            if not np.allclose(a[q], b[q], rtol=1e-13, atol=0):
                v.fail("formats", "restart from snapshot %d: initial %s differs between prof and csv" % (n, q))
                return
        # what the restarted run does is a step of the scheme with the default density
        from .physics import Step
        for fm in ("prof", "csv"):
            st = runs[fm][2]
            if len(st) > 1:
                sp = Step(m, st[0], st[1], np.full(st[0]["n"], float(s["rho"])))
                if not sp.skip:
                    self.density(v, m, s, n, fm, sp, st)
        if v.bad:
            return
        # 2. a chain of kills and restarts up to the original end
        cur, fm = sn, sc["chain"][0]
        for j, kp in enumerate(sc["kills"] + [None]):
            ff = restart_files(c, cur[fm], fm, kp is None)
            plan = restart_plan()
            if kp is not None:
                r0 = sim.run("mps", plan, ff)
                v.evals += 1
                if not r0.ok:
                    v.probe("restart_fails_in_solver")
                    return self.ended(v, r0, j)
                plan["faults"] = [[int(kp * r0.res["ops"]), "killafter", 0]]
            r = sim.run("mps", plan, ff)
            v.evals += 1
            rs = C.snaps(r, "out2")
            if kp is None:
                if not r.ok:
                    return self.ended(v, r, j)
                self.finished(v, s, r, rs, fmt.parse_prof(cur["prof"])["time"], j)
                v.sig(key, n, tuple(sc["kills"]), tuple(sc["chain"]))
                v.probe("chains_of_%d_restarts" % (j + 1))
                return
            full = C.snaps(r0, "out2")
            done = [k for k in sorted(rs) if rs[k] == full.get(k)]
            if not done:
                continue
            nxt = rs[done[-1]]
            if not usable(nxt["prof"], "prof"):
                v.probe("snapshot_not_finite")
                return
            cur = nxt
            fm = sc["chain"][(j + 1) % len(sc["chain"])]

    def ended(self, v, r, j):
        if C.crashed(r) or b"Pressure calculation failed" not in r.err:
            v.fail("refused", "restart %d of the chain ends with %s" % (j + 1, r.brief()))

    def density(self, v, m, s, n, fm, sp, st):
        a, b = st[0], st[1]
        if m.implicit:
            return
        e = m.eos(b["type"], np.full(b["n"], float(s["rho"])), b["nd"])
        if not np.isfinite(b["nd"]).all():
            return
        if not np.allclose(b["P"], e, rtol=1e-9, atol=1e-12 * s["soundSpeed"] ** 2 * s["rho"]):
            v.fail("density", "restart from the %s file of snapshot %d: pressures do not follow from the default density" % (fm, n))

    def finished(self, v, s, r, rs, T, j):
        from .outputs import REPORT, cadence
        m = [x for x in REPORT.findall(r.out)]
        dt, end = s["dt"], s["end"]
        # steps needed from the restart time
        steps = 0
        t = T
        while t < end and abs(t - end) > 1e-9 * max(1, abs(end)):
            t += dt
            steps += 1
        near = abs(t - end) <= 1e-9 * max(1, abs(end))
        if len(m) != steps and not (near and len(m) == steps + 1):
            v.fail("end", "restart %d of the chain starts at t=%g and makes %d steps of %g; %d lead to the end time %g" % (j + 1, T, len(m), dt, steps, end))
            return
        # the cadence of a restarted run counts from the snapshot it starts from
        times = [fmt.parse_vtu(rs[k]["vtu"])["time"] for k in sorted(rs)]
        x = cadence(times, len(m), T, dt, s["period"], end, 1e-9)
        if x:
            v.fail("cadence", "restart %d of the chain from t=%g: %s" % (j + 1, T, x[1]))

    def shrink(self, sc):
        if sc["kills"]:
            yield dict(sc, kills=[])
            yield dict(sc, kills=sc["kills"][:-1])
        if "firstkill" in sc:
            d = dict(sc)
            del d["firstkill"]
            yield d
        yield from C.shrink_case(sc)


def last_field_start(f, b):
    """cuts after the first character of the last number cannot be told from a shorter number"""
    e = len(b.rstrip())
    k = e
    while k > 0 and b[k - 1:k] not in (b" ", b",", b"\n", b"\t"):
        k -= 1
    return k


def must_refuse(f, whole, cut):
    """does a file cut to `cut` bytes lack data it declares, beyond doubt?"""
    if f == "vtu":
        return cut < whole.rfind(b"</VTKFile>") + len(b"</VTKFile>")
    return cut <= last_field_start(f, whole)


class C08(Check):
    id = "C08"
    level = "fault_enumeration"
    technique = "deterministic simulation: particle files torn by kills, full disks and premature end-of-file at every byte position class, outcome must be refusal"
    variants = ("mps",)
    quick = 1500
    thorough = 90000
    rule = ("one evaluation = one run on a particle file that lacks data it declares: cut at a random or structural byte position, left behind by a run of mps that was killed "
            "in the middle of a write or ran out of disk space, or ending early while being read; distinct = (format, who wrote it, cut position, content)")
    assumptions = ["a file that ends inside or after its last number, or only lacks its final newline, cannot be told from a complete one and is not judged"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "xs", "s"]), steps=rng.randint(1, 2), fmtname=rng.choice(["prof", "csv", "vtu"]), binary=rng.random() < 0.3)
        return {"case": case, "mode": rng.choice(["cut", "cut", "torn", "quota", "eof", "binary", "live"]), "pseed": rng.randint(1, 10 ** 9)}

    def refuse(self, sim, v, files, plan, what, sig, base=None):
        r = sim.run("mps", plan, files)
        v.evals += 1
        v.sig(*sig)
        if C.crashed(r):
            v.fail("crash", "%s: %s" % (what, r.brief()))
            return
        od = "out2" if "out2" in files else "out"
        if base is not None and (r.kind, r.code, C.outs(r)) == (base.kind, base.code, C.outs(base)):
            v.probe("read_again_in_full")   # what was missing came with another reading of the file
        elif r.ok:
            v.fail("accepted", "%s: simulated with exit status 0" % what)
        elif C.snaps(r, od):
            v.fail("snapshot", "%s: ends with %s, but a snapshot was written" % (what, r.brief()))

    def judge(self, sim, sc, v):
        rng = random.Random(sc["pseed"])
        c = sc["case"]
        self.bad = []
        mode = sc["mode"]
        f0 = world.files(c)
        if mode == "eof":
            base = sim.run("mps", dict(world.base_plan(), log=1, shortio=[700, 0, rng.choice([40, 200, 1000])], seed=sc["pseed"] % 10 ** 6), f0)
            v.evals += 1
            if not C.snaps(base):
                return
            pp = world.ppath(c)
            whole = f0[pp]
            pos = {}   # of the file, however often it is opened, and of its copy
            for i, cls, path, ln, ret in IO.oplog(base):
                if path not in (pp, "out/" + os.path.basename(pp)):
                    continue
                if cls == "or":
                    pos[path] = 0
                if cls == "rd" and path in pos:
                    at = pos[path]
                    if must_refuse(c["fmt"], whole, at) and (rng.random() < 0.3 or at == 0):
                        p = dict(world.base_plan(), seed=sc["pseed"] % 10 ** 6, faults=[[i, "eof", 0]], shortio=self.short(sc))   # same short reads as in the logged run
                        self.refuse(sim, v, f0, p, "the %s appears to end at byte %d of %d while being read" % (path, at, len(whole)), ("eof", c["fmt"], path == pp, at, C.sha(whole)), base)
                    pos[path] += max(ret, 0)
            return
        if mode in ("torn", "quota"):
            base = sim.run("mps", dict(world.base_plan(), log=1), f0)
            v.evals += 1
            if not base.ok:
                return
            full = C.snaps(base)
            wr = [o for o in IO.oplog(base) if o[1] == "wr" and o[3] > 0 and re.match(r"out/(prof|vtu|csv)/", o[2])]
            for _ in range(12):
                if mode == "torn":
                    o = rng.choice(wr)
                    p = {"faults": [[o[0], "torn", rng.randint(0, o[3])]]}
                else:
                    p = {"quota": [rng.randint(0, base.res["written"])]}
                r = sim.run("mps", dict(world.base_plan(), **p), f0)
                v.evals += 1
                left = C.snaps(r)
                for n in sorted(left):
                    for fm, data in left[n].items():
                        whole = full[n][fm]
                        if data == whole or not whole.startswith(data):
                            continue
                        isbin = fm == "vtu" and b"<AppendedData" in whole
                        if not isbin and not must_refuse(fm, whole, len(data)):
                            v.probe("undetectable_cut")
                            continue
                        self.refuse(sim, v, restart_files(c, data, fm, False), restart_plan(),
                                    "%s file of snapshot %d left incomplete (%d of %d bytes) by a run that was %s" %
                                    (fm, n, len(data), len(whole), "killed" if mode == "torn" else "out of disk space"), (mode, fm, len(data), C.sha(whole)))
            return
        if mode == "live":
            return self.live(sim, sc, v, rng)
        if mode == "binary":
            s = dict(c["s"], binary=True)
            f1 = world.files(dict(c, s=s))
            base = sim.run("mps", world.base_plan(), f1)
            v.evals += 1
            if not base.ok:
                return
            full = C.snaps(base)
            data = full[rng.choice(sorted(full))]["vtu"]
            cuts = [len(data)] + [rng.randint(0, len(data)) for _ in range(6)] + [data.find(b"<AppendedData") + k for k in (0, 5, 13, 30)]
            for cut in cuts:
                self.refuse(sim, v, restart_files(c, data[:cut], "vtu", False), restart_plan(), "binary vtu file (%d of %d bytes)" % (cut, len(data)), (mode, cut, C.sha(data)))
            return
        # cut: our own files, and those of mps
        wholes = [(c["fmt"], f0[world.ppath(c)])]
        if rng.random() < 0.5:
            base = sim.run("mps", world.base_plan(), world.files(dict(c, s=dict(c["s"], binary=False))))
            v.evals += 1
            full = C.snaps(base)
            if base.ok:
                n = rng.choice(sorted(full))
                wholes = [(fm, full[n][fm]) for fm in ("prof", "csv", "vtu") if usable(full[n]["vtu"], "vtu")]
        for fm, whole in wholes:
            lines = [k + 1 for k, ch in enumerate(whole) if ch == 10]
            seps = [k + 1 for k, ch in enumerate(whole) if ch in b" ,"]
            if "cuts" in sc:
                cuts = sc["cuts"]
            else:
                cuts = {0, 1, last_field_start(fm, whole)}
                cuts |= set(rng.sample(lines, min(len(lines), 10))) | {k - 1 for k in rng.sample(lines, min(len(lines), 6))}
                cuts |= set(rng.sample(seps, min(len(seps), 5))) | {rng.randint(0, len(whole)) for _ in range(8)}
                if fm == "vtu":
                    e = whole.rfind(b"</VTKFile>")
                    cuts |= {e, e + 1, e + 9} | {m.start() for m in re.finditer(rb"<(Cells|/Cells|/Piece|FieldData|/FieldData|/UnstructuredGrid|PointData|/PointData)>", whole)}
                    cuts |= {m.end() + 1 for m in re.finditer(rb"</DataArray>", whole)}
            for cut in sorted(cuts):
                if not must_refuse(fm, whole, cut):
                    v.probe("undetectable_cut")
                    continue
                n = len(v.bad)
                self.refuse(sim, v, restart_files(c, whole[:cut], fm, False), restart_plan(), "%s file cut after byte %d of %d (...%r)" %
                            (fm, cut, len(whole), whole[max(0, cut - 25):cut]), ("cut", fm, cut, C.sha(whole)))
                if len(v.bad) > n:
                    self.bad.append(cut)

    def live(self, sim, sc, v, rng):
        """a restart from a snapshot that another run of mps is still writing"""
        c = sc["case"]
        s = dict(c["s"], binary=False)
        f0 = world.files(dict(c, s=s))
        wp = dict(world.base_plan(), log=1, shortio=[rng.choice([500, 1000]), 0, rng.choice([30, 100, 400, 2000])], seed=sc["pseed"] % 10 ** 6)
        base = sim.run("mps", wp, f0)
        v.evals += 1
        full = C.snaps(base)
        if not base.ok or any(not usable(x["vtu"], "vtu") for x in full.values()):
            return
        log = IO.oplog(base)
        for _ in range(10 if "live" not in sc else 1):
            n = rng.choice(sorted(full))
            fm = rng.choice(["prof", "csv", "vtu"])
            rel = "%s/output_%04d.%s" % (fm, n, fm)
            mine = [o[0] for o in log if o[2] == "out/" + rel]
            if not mine:
                return
            at = rng.randint(mine[0], mine[-1] + 1)      # the reader starts somewhere while the file is being written
            sched = [[0, at]] + [[rng.choice([0, 1, 1]), rng.choice([1, 2, 3, 8])] for _ in range(rng.randint(0, 60))]
            if rng.random() < 0.5:
                sched.append([1, 10 ** 6])
            if "live" in sc:
                n, fm, sched = sc["live"]
                rel = "%s/output_%04d.%s" % (fm, n, fm)
            f = dict(f0)
            s2 = dict(s, ppath="../out/" + rel)
            f["case2/settings.yml"] = world.yaml_text(world.yaml_items(s2))
            f["out2"] = None
            (w, r), trace = sim.multi([("mps", wp), ("mps", restart_plan(log=1))], [tuple(x) for x in sched], f)
            v.evals += 1
            v.sig("live", fm, trace, C.sha(repr(c).encode()))
            what = "restart from the %s file of snapshot %d while it is being written" % (fm, n)
            nb = len(v.bad)
            if C.crashed(r):
                v.fail("crash", "%s: %s" % (what, r.brief()))
            elif (w.kind, w.code) != (base.kind, base.code) or C.outs(w) != C.outs(base):
                v.fail("writer", "%s: the writing run ends with %s or writes something else" % (what, w.brief()))
            else:
                got = C.snaps(r, "out2")
                v.probe("live_read" if got else "live_refused")
                if r.ok and 0 not in got:
                    v.fail("accepted", "%s: ends with exit status 0 without a snapshot" % what)
                if 0 in got and "prof" in got[0]:
                    # the last number of a text file may still be growing
                    a, b = got[0]["prof"].splitlines(), full[n]["prof"].splitlines()
                    if len(a) != len(b) or a[:-1] != b[:-1]:
                        v.fail("partial", "%s: simulated from incomplete data: %d of %d lines; %s" % (what, len(a), len(b), r.brief()))
            if len(v.bad) > nb:
                self.livebad = [n, fm, sched]

    def short(self, sc):
        rng = random.Random(sc["pseed"])
        return [700, 0, rng.choice([40, 200, 1000])]

    def shrink(self, sc):
        bad = list(getattr(self, "bad", []))
        if sc["mode"] == "live":
            if "live" not in sc and getattr(self, "livebad", None):
                yield dict(sc, live=self.livebad)
            if "live" in sc:
                for k in range(len(sc["live"][2])):
                    d = copy.deepcopy(sc)
                    del d["live"][2][k]
                    yield d
            return
        yield from C.shrink_case(sc)
        if sc["mode"] == "cut" and "cuts" not in sc:
            for k in bad[:3]:
                yield dict(sc, cuts=[k])
