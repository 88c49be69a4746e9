import copy
import re

import numpy as np

from .. import fmt, world
from ..core import Check
from ..model import Model, GHOST
from . import common as C

# one line per step: number, time, end time, snapshots, Courant number
REPORT = re.compile(rb"^\s*(\d+): .*?\bt=\s*([-+.\deinfna]+)s\b.*?\bfin=\s*([-+.\deinfna]+)s\b.*?\bout=\s*(\d+)\s*files\b.*?Courant=\s*([-+.\deinfna]+)\s*$", re.M)
STEP = re.compile(rb"^\s*(\d+): t=\s*([-+.\deinfna]+)s\s*$", re.M)
CFL = re.compile(rb"Courant number is larger than CFL condition")
WARN = re.compile(rb"particle (\d+) is out of domain")
WALL = re.compile(rb"^\s*(\d+): .*?elapsed=(-?\d+)h (-?\d+)m (-?\d+)s\s+remain=(-?\d+)h (-?\d+)m (-?\d+)s\s+ave=(-?[\d.]+)s/step\s+last=(-?[\d.]+)s/step", re.M)
TOTAL = re.compile(rb"Total Simulation time = (-?\d+)h (-?\d+)m (-?\d+)s")
WHERE = re.compile(rb"particle (\d+) is out of domain\.?\s+x = (\S+)\s+y = (\S+)\s+z = (\S+)\s")
COU = re.compile(rb"Courant number is larger than CFL condition\. Courant = (\S+)\s")


def steps_of(r):
    return [(int(a), float(b), float(c), int(d), float(e)) for a, b, c, d, e in REPORT.findall(r.out)]


def cadence(times, steps, T0, dt, period, end, tol):
    """snapshot times and number of steps of one run against the cadence rule; None or (kind, text).
    tol: relative distance to a multiple of the period or to the end within which both sides are accepted; 0 only
    where all the sums involved are exact in binary floating point"""
    eps = lambda x: tol * max(abs(x), abs(T0), abs(end), dt)
    if not times or times[0] != T0:
        return "first", "snapshot 0 is at t=%r, the run starts at %r" % (times[:1], T0)
    # number of steps: the first whose time has reached the end
    lo = 0
    while T0 + lo * dt < end - eps(end):
        lo += 1
    hi = lo
    while T0 + hi * dt < end + eps(end):
        hi += 1
    if not (lo <= steps <= hi):
        return "end", "%d steps of %g from t=%g; the end time %g is reached by step %d" % (steps, dt, T0, end, lo)
    # which step each snapshot belongs to
    idx = []
    for t in times:
        j = int(round((t - T0) / dt))
        if abs(t - (T0 + j * dt)) > tol * max(abs(t), abs(T0), dt):
            return "time", "a snapshot is at t=%.17g, which is not %g plus a multiple of %g" % (t, T0, dt)
        idx.append(j)
    if any(b <= a for a, b in zip(idx, idx[1:])):
        return "time", "snapshots at steps %s" % idx[:30]
    at = set(idx)
    n = 1
    for j in range(1, steps + 1):
        el = j * dt
        due = period * n
        e = tol * max(el, due, abs(T0), dt)
        if j in at:
            if el < due - e:
                return "early", "snapshot %d is written at step %d, %.17g after the start, before %d periods of %.17g have passed" % (n, j, el, n, period)
            n += 1
        elif el > due + e or (tol == 0 and el == due):
            return "late", "no snapshot at step %d, %.17g after the start, although %d periods of %.17g have passed" % (j, el, n, period)
    if n != len(times):
        return "extra", "%d snapshots, %d within the run" % (len(times), n)
    return None


class C11(Check):
    id = "C11"
    technique = "deterministic simulation with simulated clocks (stalls, jumps, steps back); snapshot times, numbers and termination checked against the cadence rule over the recorded history"
    variants = ("mps",)
    quick = 12000
    thorough = 720000
    rule = ("one scenario = a run of 1 to 3000 steps of a tiny case with random start time, step, output period (below, near, equal to and above the step, exact multiples) and "
            "end time, under a random clock; distinct = (start, dt, period, end, clock mode) with more than one step")
    assumptions = ["times closer than 1e-9 (relative) to a multiple of the output period or to the end time may fall on either side"]

    def gen(self, rng, tier, i):
        big = (i % 100 == 7)
        huge = i % 1000 == 13 or i % 10000 == 14 if tier == "thorough" else i in (13, 14)   # more than 9999 and 32767 snapshots
        T0 = rng.choice([0.0, 0.0, 0.25, 1.5, 3.7, 12.125, 100.0, 0.0123])
        c = world.gen_case(rng, dim=2, size="xs", walls=0, steps=3, leaving=False, ghosts=False, density=False, t0=T0, method="Explicit", vel=0.0, viscosity=0.0,
                           binary=True, fmtname=rng.choice(["prof", "csv", "vtu"]))
        n = min(len(c["type"]), 2)
        c = C.sub_case(c, list(range(n)))
        s = c["s"]
        s["gravity"] = [0.0, -1e-6, 0.0]
        dt = rng.choice([0.001, 0.002, 0.0005, 0.1, 0.01, 0.0007, 0.03, 1.0 / 3, 0.25])
        steps = rng.choice([1, 2, 5, 10, 20, 60, 200, rng.randint(1, 400)])
        if big:
            steps = rng.randint(1010, 1300)
        if huge:
            steps = 10050 if i % 1000 == 13 else 32800
        s["dt"] = dt
        q = rng.choice([0.3, 1.0, 1.0, 1.5, 2.0, 2.5, 5.0, 10.0, 7.3, 33.3, rng.uniform(0.2, 30)])
        if steps > 300 and not (big or huge):
            q = max(q, 5.0)
        if big or huge:
            q = rng.choice([0.5, 1.0])
        s["period"] = float("%.12g" % (q * dt))
        if rng.random() < 0.1:
            s["period"] = float("%.12g" % (steps * dt * rng.choice([1.0, 2.0, 0.5])))
        e = rng.choice([0.0, 0.5, 0.5, 0.3, -0.2])
        s["end"] = float("%.12g" % (T0 + (steps - e) * dt)) if rng.random() < 0.9 else T0 - rng.choice([0.0, 1.0])
        c["steps"] = steps
        p = {"clock": rng.randint(0, 5), "seed": rng.randint(1, 10 ** 6)}
        sc = {"case": c, "plan": p}
        if not (big or huge) and rng.random() < 0.4:
            # times whose sums, products and differences are exact: both sides of every comparison are known
            sc["exact"] = 1
            g = rng.choice([2.0 ** -21, 2.0 ** -12, 2.0 ** -10, 2.0 ** -7, 0.25, 1.0])
            k = rng.choice([1, 1, 3, 5])
            dt = k * g
            steps = min(steps, 120)
            c["t0"] = T0 = rng.choice([0, 0, 1, 7, 100, 4096, -64]) * g
            s["dt"] = dt
            s["period"] = rng.choice([rng.randint(1, 12 * k) * g, rng.randint(1, 6) * dt, rng.randint(1, 6) * dt, rng.randint(1, 9 * k) * g / 2])
            if rng.random() < 0.5:  # one part in 2^24 to 2^34 off a multiple
                s["period"] *= 1 + rng.choice([-1, 1]) * 2.0 ** -rng.randint(24, 34)
            s["end"] = T0 + steps * dt + rng.choice([0, 0, 0, 1, -1]) * g * rng.choice([1, 2.0 ** -12, 2.0 ** -20])
            c["steps"] = steps
        return sc

    def judge(self, sim, sc, v):
        c = sc["case"]
        s = c["s"]
        r = sim.run("mps", dict(world.base_plan(), **sc["plan"]), world.files(c))
        v.evals += 1
        if not r.ok:
            v.fail("status", "run ends with %s" % r.brief())
            return
        T0, dt, period, end = c["t0"], s["dt"], s["period"], s["end"]
        sn = C.snaps(r)
        k = sorted(sn)
        if k != list(range(len(k))) or any(set(sn[j]) != {"prof", "vtu", "csv"} for j in k):
            v.fail("numbers", "snapshots are numbered %s" % k[:20])
            return
        stray = [x for x in C.outs(r) if x and not fmt.SNAP.match(x) and not x.endswith("/") and x not in ("settings.yml", s["ppath"].split("/")[-1])]
        if stray:
            v.fail("numbers", "unexpected file %s in the output directory" % stray[0])
            return
        times = [fmt.parse_vtu(sn[j]["vtu"])["time"] for j in k]
        steps = len(steps_of(r))
        x = cadence(times, steps, T0, dt, period, end, 0.0 if sc.get("exact") else 1e-9)
        if x:
            v.fail(*x)
            return
        if steps > 1:
            v.sig(T0, dt, period, end, sc["plan"]["clock"])
        n = len(times)
        v.probe("steps", steps)
        v.probe("snapshots", n)
        if sc.get("exact"):
            v.probe("exact_runs")
        if n > 1000:
            v.probe("runs_with_over_1000_snapshots")

    def shrink(self, sc):
        c = sc["case"]
        if sc["plan"]["clock"]:
            yield dict(sc, plan=dict(sc["plan"], clock=0))
        s = c["s"]
        n = int(round((s["end"] - c["t0"]) / s["dt"]))
        for k in (1, 2, n // 2, n - 1):
            if 0 < k < n:
                d = copy.deepcopy(sc)
                d["case"]["s"]["end"] = s["end"] - (n - k) * s["dt"]
                yield d


def near6(a, b):
    """equal to the six digits printed"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(invalid="ignore"):
        return (np.abs(a - b) <= 1.01e-5 * np.maximum(np.abs(a), np.abs(b)) + 1e-300) | (a == b) | (np.isnan(a) & np.isnan(b))


class C12(Check):
    id = "C12"
    technique = "deterministic simulation: strict parsing and cross-comparison of the three files of every snapshot of every run (random cases, schedules, clocks, short writes)"
    variants = ("mps", "omp")
    quick = 10500
    thorough = 630000
    rule = "one evaluation = one snapshot, its three files parsed strictly and compared; distinct = distinct content of the prof file together with the encoding of the vtu file"

    def gen(self, rng, tier, i):
        binary = rng.choice([True, False, None])
        case = world.gen_case(rng, size=rng.choice(["xs", "s", "m", "m"]), steps=rng.randint(1, 4), binary=binary, per_step=rng.random() < 0.8)
        if rng.random() < 0.2:  # extreme magnitudes
            for j in range(len(case["type"])):
                if rng.random() < 0.2:
                    case["vel"][j][rng.randint(0, 1)] *= rng.choice([1e-12, 1e-3, 1e3, 1e9])
        if rng.random() < 0.1:
            o = [j for j in range(len(case["type"])) if case["type"][j] == 1]
            if len(o) > 1:
                case["pos"][o[0]] = list(case["pos"][o[1]])
        if i % 6 == 0 and len(case["type"]) < 120:
            var, p = "omp", C.sched_plan(rng)
        else:
            var, p = "mps", {"seed": rng.randint(1, 10 ** 6), "memfill": rng.randint(0, 4), "clock": rng.randint(0, 5)}
            if rng.random() < 0.2:
                p["shortio"] = [500, 50, rng.choice([7, 64, 1000])]
        return {"case": case, "variant": var, "plan": p}

    def judge(self, sim, sc, v):
        c = sc["case"]
        r = sim.run(sc["variant"], dict(world.base_plan(), **sc["plan"]), world.files(c))
        if C.crashed(r):
            v.fail("crash", "run ends with %s" % r.brief())
            return
        m = Model(world.settings_for_model(c["s"]))
        sn = C.snaps(r)
        want = bool(c["s"]["binary"])
        fl = np.array(c["fluid"] if c["fluid"] else [0] * len(c["type"]))
        for k in sorted(sn):
            x = sn[k]
            if set(x) != {"prof", "vtu", "csv"}:
                if r.ok or k != max(sn):
                    v.fail("missing", "snapshot %d has only %s" % (k, sorted(x)))
                    return
                continue
            v.evals += 1
            try:
                p, q, u = fmt.parse_prof(x["prof"]), fmt.parse_csv(x["csv"]), fmt.parse_vtu(x["vtu"])
            except (fmt.Bad, ValueError, KeyError, UnicodeDecodeError) as e:
                v.fail("malformed", "snapshot %d: %s" % (k, e))
                return
            if u["binary"] != want:
                v.fail("encoding", "snapshot %d: the vtu file is %s" % (k, "binary" if u["binary"] else "ASCII"))
                return
            if u["binary"]:  # there the printed precision is that of a double
                j = round((u["time"] - c["t0"]) / c["s"]["dt"])
                if abs(u["time"] - (c["t0"] + j * c["s"]["dt"])) > 1e-12 * max(abs(u["time"]), abs(c["t0"]), c["s"]["dt"]):
                    v.fail("time", "snapshot %d: t=%.17g in the binary vtu file, which is not %.17g plus a multiple of %.17g" % (k, u["time"], c["t0"], c["s"]["dt"]))
                    return
            v.sig(C.sha(x["prof"]), u["binary"])
            v.probe("vtu_binary" if u["binary"] else "vtu_ascii")
            for nm, o in (("csv", q), ("vtu", u)):
                if o["n"] != p["n"]:
                    v.fail("count", "snapshot %d: %d particles in prof, %d in %s" % (k, p["n"], o["n"], nm))
                    return
                if not near6(o["time"], p["time"]).all():
                    v.fail("time", "snapshot %d: t=%.17g in prof, %.17g in %s" % (k, p["time"], o["time"], nm))
                    return
                for f in ("type", "pos", "vel"):
                    ok = near6(o[f], p[f]) if f != "type" else o[f] == p[f]
                    if not np.all(ok):
                        i = int(np.where(~ok.reshape(p["n"], -1).all(1))[0][0])
                        v.fail(f, "snapshot %d, particle %d: %s %s in prof, %s in %s" % (k, i, f, p[f][i], o[f][i], nm))
                        return
            if not np.array_equal(q["fluid"], u["fluid"]):
                v.fail("fluid", "snapshot %d: fluid types differ between csv and vtu" % k)
                return
            if not np.array_equal(q["fluid"], fl):
                v.fail("fluid", "snapshot %d: fluid types are not those of the particle file" % k)
                return
            e = u["nd"] / m.nN.n0
            with np.errstate(invalid="ignore"):
                ok = (np.abs(u["ndr"] - e) <= (1e-12 if u["binary"] else 1.1e-5) * np.abs(e)) | (u["ndr"] == e) | (np.isnan(e) & np.isnan(u["ndr"]))
            if not ok.all():
                i = int(np.where(~ok)[0][0])
                v.fail("ratio", "snapshot %d, particle %d: number density %.17g, ratio %.17g, reference value %.17g" % (k, i, u["nd"][i], u["ndr"][i], m.nN.n0))
                return

    def shrink(self, sc):
        if sc["variant"] == "omp":
            yield dict(sc, variant="mps", plan={"seed": 1})
        elif len(sc["plan"]) > 1:
            yield dict(sc, plan={"seed": sc["plan"]["seed"]})
        yield from C.shrink_case(sc)


def rounded(shown, true, digits):
    return abs(shown - true) <= 0.5 * 10 ** -digits * (1 + 1e-6) + 1e-9 * abs(true)


class C18(Check):
    id = "C18"
    technique = "deterministic simulation with simulated console and clocks; the recorded console history is compared with the state history of the same run"
    variants = ("mps",)
    quick = 15000
    thorough = 900000
    rule = ("one evaluation = one reported step, its line on standard output and on standard error compared with what the snapshots of the same run show; "
            "distinct = (case, step); steps above and below the CFL condition and particles leaving the domain are counted")

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "s", "s"]), steps=rng.randint(1, 9), binary=True, per_step=True, vel=rng.choice([0.2, 1.0, 2.0]),
                              t0=rng.choice([0.0, 0.0, 0.25, 1.5, 12345.5]))
        case["s"]["cfl"] = rng.choice([0.3, 0.05, 0.1, 0.2, 0.15, 1.0, 0.01])
        fl = [j for j in range(len(case["type"])) if case["type"][j] == 1]
        if fl and rng.random() < 0.15:  # one particle in uniform motion, its Courant number next to the CFL condition
            case = C.sub_case(case, fl[:1])
            s = case["s"]
            s["gravity"] = [0.0, 0.0, 0.0]
            s["gNorm"] = 0.0
            s["method"] = "Explicit"
            d = rng.choice([-1, 1]) * 10.0 ** -rng.randint(7, 11)
            case["vel"] = [[0.0, 0.0, 0.0]]
            case["vel"][0][rng.randint(0, s["dim"] - 1)] = rng.choice([-1, 1]) * s["cfl"] * s["l0"] / s["dt"] * (1 + d)
        if i % 61 == 7:
            C.set_steps(case, rng.randint(60, 400))
        p = {"seed": rng.randint(1, 10 ** 6), "clock": rng.randint(0, 5), "memfill": rng.randint(0, 4)}
        if rng.random() < 0.5:
            p["tty"] = 1
        return {"case": case, "plan": p}

    def judge(self, sim, sc, v):
        from .physics import Obs
        c = sc["case"]
        s = c["s"]
        r = sim.run("mps", dict(world.base_plan(), **sc["plan"]), world.files(c))
        if C.crashed(r):
            v.fail("crash", "run ends with %s" % r.brief())
            return
        ob = Obs(r, c)
        if ob.bad:
            v.fail("output", ob.bad)
            return
        m = Model(world.settings_for_model(s))
        rep = steps_of(r)
        err = r.err
        marks = [(x.start(), x.end(), int(x.group(1)), float(x.group(2))) for x in STEP.finditer(err)]
        st = ob.states
        n = len(st) - 1 if r.ok else len(marks)
        # snapshots at every step: state k is the state after step k
        if [x[0] for x in rep] != list(range(1, n + 1)):
            v.fail("lines", "standard output reports steps %s, %d were made" % ([x[0] for x in rep][:20], n))
            return
        if [x[2] for x in marks] != list(range(1, n + 1)):
            v.fail("lines", "standard error reports steps %s, %d were made" % ([x[2] for x in marks][:20], n))
            return
        if not self.wall(v, r, s, c, n, sc["plan"].get("clock", 0)):
            return
        pos = 0
        seen = {}
        key = C.sha(repr(c).encode())
        for k in range(1, n + 1):
            if k >= len(st):
                break
            v.evals += 1
            v.sig(key, k)
            _, t, fin, out, cou = rep[k - 1]
            T = st[k]["time"]
            if not rounded(t, T, 3) or not rounded(marks[k - 1][3], T, 3):
                v.fail("time", "step %d: reported t=%g on standard output, t=%g on standard error; the simulated time is %.17g" % (k, t, marks[k - 1][3], T))
                return
            if not rounded(fin, s["end"], 1):
                v.fail("fin", "step %d: reported fin=%g, the end time is %.17g" % (k, fin, s["end"]))
                return
            if out != k:
                v.fail("out", "step %d: reported out=%d, %d snapshots had been written" % (k, out, k))
                return
            tv = m.courant(st[k]["type"], st[k]["vel"])
            if not (rounded(cou, tv, 2) or (np.isnan(cou) and np.isnan(tv)) or cou == tv):
                v.fail("courant", "step %d: reported Courant=%g, the fluid's largest is %.17g" % (k, cou, tv))
                return
            seg = err[pos:marks[k - 1][0]]
            pos = marks[k - 1][1]
            said = len(CFL.findall(seg))
            if abs(tv - s["cfl"]) > 1e-12 * s["cfl"]:
                if abs(tv - s["cfl"]) < 1e-6 * s["cfl"]:
                    v.probe("steps_next_to_cfl")
                v.probe("steps_above_cfl" if tv > s["cfl"] else "steps_below_cfl")
                if said != (1 if tv > s["cfl"] else 0):
                    v.fail("cfl", "step %d: Courant number %.17g, CFL condition %g, reported %d times on standard error" % (k, tv, s["cfl"], said))
                    return
                for x in COU.findall(seg):
                    if not float(x) == float("%g" % tv) and abs(float(x) - tv) > 1e-5 * abs(tv):
                        v.fail("cfl", "step %d: Courant number %.17g, reported as %s on standard error" % (k, tv, x.decode()))
                        return
            w = [int(x) for x in WARN.findall(seg)]
            for i, *xyz in WHERE.findall(seg):
                p = st[k]["pos"][int(i)] if int(i) < st[k]["n"] else [np.nan] * 3
                for a, b in zip(xyz, p):
                    a = float(a)
                    if not (np.isnan(a) and np.isnan(b) or a == b or abs(a - b) <= 1e-5 * abs(b)):
                        v.fail("where", "step %d: particle %s left the domain at %s, the warning says %s" % (k, i.decode(), [repr(float(x)) for x in p], [x.decode() for x in xyz]))
                        return
            if len(WHERE.findall(seg)) != len(w):
                v.fail("where", "step %d: %d warnings, %d of them with a position" % (k, len(w), len(WHERE.findall(seg))))
                return
            for i in w:
                seen[i] = seen.get(i, 0) + 1
            new = [int(i) for i in np.where((st[k]["type"] == GHOST) & (st[k - 1]["type"] != GHOST))[0]]
            if sorted(w) != new:
                v.fail("warn", "step %d: particles %s left the domain, warnings name %s" % (k, new, sorted(w)))
                return
            if new:
                v.probe("leaving_particles", len(new))

    def wall(self, v, r, s, c, n, clock):
        """elapsed time, average per step and remaining time have to agree with one another, whatever the clock does"""
        rows = [[float(x) for x in q] for q in WALL.findall(r.out)]
        if [int(q[0]) for q in rows] != list(range(1, n + 1)):
            v.fail("lines", "%d of %d reports show elapsed and remaining time, average and last" % (len(rows), n))
            return False
        before = 0.0
        for q in rows:
            k = int(q[0])
            el, rem, ave, last = q[1] * 3600 + q[2] * 60 + q[3], q[4] * 3600 + q[5] * 60 + q[6], q[7], q[8]
            tot = ave * ((s["end"] - c["t0"]) / s["dt"])
            if max(abs(el), abs(tot), abs(last)) > 1e8:
                v.probe("wall clock beyond three years")
                continue
            if abs(ave * k - el) > 1 + 0.00051 * k:
                v.fail("ave", "step %d: ave=%.3fs/step, %gs elapsed" % (k, ave, el))
                return False
            if abs(tot - el - rem) > 2.1 + 0.00051 * (s["end"] - c["t0"]) / s["dt"]:
                v.fail("remain", "step %d of %g: %gs elapsed, remaining %gs" % (k, (s["end"] - c["t0"]) / s["dt"], el, rem))
                return False
            if clock in (0, 1, 3, 5):  # the clock never goes back
                if el < before or last < 0 or clock == 5 and el < k * 3600:
                    v.fail("elapsed", "step %d: %gs elapsed, %gs at the step before%s" % (k, el, before, ", the clock moved %d h" % k if clock == 5 else ""))
                    return False
                if last > el - before + 1.001 or clock == 5 and last < 3600:
                    v.fail("last", "step %d: last=%.3fs/step, and %gs elapsed since the report before" % (k, last, el - before))
                    return False
            before = el
            v.probe("wall_clock_reports")
        t = TOTAL.search(r.out)
        if r.ok:
            if not t:
                v.fail("total", "no total simulation time at the end of standard output")
                return False
            el = int(t.group(1)) * 3600 + int(t.group(2)) * 60 + int(t.group(3))
            if clock in (0, 1, 3, 5) and el < before or clock in (0, 1) and el > before + 1:
                v.fail("total", "total simulation time %gs, %gs elapsed at the last step" % (el, before))
                return False
        return True

    def shrink(self, sc):
        if len(sc["plan"]) > 1:
            yield dict(sc, plan={"seed": sc["plan"]["seed"]})
        yield from C.shrink_case(sc)
