import copy
import itertools
import re

import numpy as np

from .. import fmt, world
from ..core import Check, V
from ..model import Model, GHOST, FLUID, WALL, DUMMY, IGN, SURF, INNER
from . import common as C


class Obs:
    """what one run shows step by step, in full precision (binary vtu after every step)"""

    def __init__(self, r, case):
        self.r = r
        self.case = case
        sn = C.snaps(r)
        self.bad = None
        self.states = []
        for k in range(len(sn)):
            b = sn.get(k, {}).get("vtu")
            if b is None:
                self.bad = "snapshot %d has no vtu file" % k
                break
            if not r.ok and k == len(sn) - 1 and k > 0:
                # the file being written when the run ended
                try:
                    self.states.append(fmt.parse_vtu(b))
                except Exception:
                    pass
                break
            try:
                self.states.append(fmt.parse_vtu(b))
            except fmt.Bad as e:
                self.bad = "snapshot %d: %s" % (k, e)
                break


def same_nan(a, b):
    return (a == b) | (np.isnan(a) & np.isnan(b))


def close(a, b, tol):
    with np.errstate(invalid="ignore"):
        return (np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b)) | (a == b)


def finite(st):
    return bool(np.isfinite(st["pos"]).all() and np.isfinite(st["vel"]).all())


LIMIT = 300


def orders(s, pairs, cell):
    """Orders in which collisions may be handled: ways to walk the grid, then every order if they are few enough (else s.open is set)."""
    walls = s.c[0]["pre"][2] != FLUID

    def key(perm, sign):
        return lambda p: tuple(int(cell[p[1]][x]) for x in perm) + (sign * p[1],)
    for outer in (1, -1):
        for perm in itertools.permutations(range(3)):
            for sign in (1, -1):
                yield sorted(pairs, key=lambda p: (outer * p[0],) + key(perm, sign)(p))
        if len(walls) > 400:   # large cases cost too much
            s.open = True
            return
        for sign in (1, -1):
            yield sorted(pairs, key=lambda p: (outer * p[0], sign * p[1]))
            # from the other side of each pair
            yield sorted(pairs, key=lambda p: (outer * min(p), sign * max(p)))
    # groups of collisions that share a particle; walls do not move and hence connect nothing
    groups = []
    for p in pairs:
        mine = {x for x in p if not walls[x]}
        hit = [g for g in groups if g[0] & mine]
        for g in hit:
            groups.remove(g)
        groups.append((mine.union(*(g[0] for g in hit)), [q for g in hit for q in g[1]] + [p]))
    n = 1
    for g in groups:
        for k in range(2, len(g[1]) + 1):
            n *= k
        if n > LIMIT:
            s.open = True
            return
    for x in itertools.product(*(itertools.permutations(g[1]) for g in groups)):
        yield [p for g in x for p in g]


class Step:
    """one observed step a -> b, with the candidate states between prediction and pressure gradient"""

    def __init__(self, m, a, b, rho):
        self.m = m
        self.a = a
        self.b = b
        self.rho = rho
        self.skip = None
        if not finite(a):
            self.skip = "not finite"
            return
        st = {"type": a["type"], "pos": a["pos"], "vel": a["vel"]}
        self.c = []
        o = m.predict(st, rho)
        if o["amb_border"].any():
            self.skip = "particle at a border"
            return
        if not np.isfinite(o["pos"]).all() or o["mind"] < 1e-7 * m.l0:
            self.skip = "coincident particles"
            return
        if o["amb_col"]:
            self.skip = "collision distance met exactly"
            return
        self.c.append(o)
        self.st = st
        self.open = False   # not every order of the collisions has been looked at

    def cands(self):
        """The states the step can have led to: which of several collisions of a particle comes first is not laid down."""
        yield self.c[0]
        o = self.c[0]
        if o["multi"].max(initial=0) <= 1:
            return
        seen = set()
        for order in orders(self, *o["contacts"]):
            t = tuple(order)
            if t in seen or order == o["contacts"][0]:
                continue
            seen.add(t)
            c = self.m.predict(self.st, self.rho, order)
            if c["amb_border"].any() or c["mind"] < 1e-7 * self.m.l0 or c["amb_col"]:
                self.open = True
                continue
            yield c

    def backward(self):
        """the state before the pressure gradient, recovered from the state after the step"""
        m, b = self.m, self.b
        if not finite(b):
            return None
        pos = b["pos"].copy()
        typ = b["type"]
        for _ in range(200):
            d, D, ok = m.pairs(pos, typ)
            if ok.any() and D[ok].min() < 1e-7 * m.l0:
                return None
            o = {"type": typ, "pos": b["pos"], "vel": b["vel"], "d": d, "D": D, "ok": ok}
            p2, v2, _ = m.finish(o, b["P"], self.rho)
            new = b["pos"] - (p2 - b["pos"])
            err = np.abs(new - pos).max()
            pos = new
            if not np.isfinite(pos).all():
                return None
            if err < 1e-15 * m.l0:
                break
        else:
            if err > 1e-11 * m.l0:
                return None
        d, D, ok = m.pairs(pos, typ)
        from ..model import weight
        nd = np.where(ok, weight(D, m.reN), 0.0).sum(1)
        nd[typ == GHOST] = 0.0
        return {"type": typ, "pos": pos, "vel": None, "nd": nd, "d": d, "D": D, "ok": ok, "mind": float(D[ok].min()) if ok.any() else np.inf}

    def ndtol(self, o):
        # a pair distance is known to ~1e-13 l0, the kernel's slope is re/d^2
        m = self.m
        with np.errstate(divide="ignore", invalid="ignore"):
            s = np.where(o["ok"], m.reN / o["D"] ** 2, 0.0).sum(1)
        scale = max(1.0, float(np.abs(o["pos"]).max() / m.l0))
        return 1e-12 * m.l0 * s * scale + 1e-11 * np.abs(o["nd"]) + 1e-12

    def matches(self):
        """the candidates whose number densities agree with the observed ones"""
        back = None
        for n, o in enumerate(self.cands()):
            if n == 1:   # before the long way
                back = self.backward()
                if back is not None and np.all(close(back["nd"], self.b["nd"], self.ndtol(back) * 100)):
                    yield back
            if np.array_equal(o["type"], self.b["type"]) and np.all(close(o["nd"], self.b["nd"], self.ndtol(o))):
                yield o
        if back is None:
            back = self.backward()
            if back is not None and np.all(close(back["nd"], self.b["nd"], self.ndtol(back) * 100)):
                yield back

    def decide(self, v, judge):
        """judge(o, verdict) for every candidate, until one is right. Returns whether there was any; v gets the first verdict if none is right."""
        first = None
        for n, o in enumerate(self.matches()):
            t = V()
            judge(o, t)
            if not t.bad:
                first = t
                break
            first = first or t
            if n >= 40:
                self.open = True
                break
        if first is None:
            return False
        if first.bad and self.open:
            v.probe("skipped: too many orders of collisions")
            return True
        v.bad.extend(first.bad)
        v.sigs |= first.sigs
        for x, c in first.probes.items():
            v.probe(x, c)
        return True


def physics_case(rng, **kw):
    kw.setdefault("size", rng.choice(["xs", "s", "s", "m"]))
    kw.setdefault("steps", rng.randint(2, 6))
    return world.gen_case(rng, binary=True, per_step=True, **kw)


def plans(rng, i):
    if i % 4 == 0:
        return "omp", C.sched_plan(rng)
    p = {"memfill": rng.randint(0, 4), "seed": rng.randint(1, 10 ** 6)}
    if rng.random() < 0.3:
        p["clock"] = rng.randint(1, 5)
    return "mps", p


class Physics(Check):
    technique = "deterministic simulation (seeded schedules, clock and memory contents); every observed step checked against an executable reference model by resynchronising at each snapshot"
    variants = ("mps", "omp")
    quick = 5400
    thorough = 324000
    stub = Check.stub + ["libgomp: own implementation in the omp runs"]
    large = [{"method": "Implicit", "dim": 2, "jitter": 0.1}, {"method": "Explicit", "dim": 2}, {"method": "Implicit", "dim": 3, "walls": 1}, {"method": "Explicit", "dim": 3}]

    def case(self, rng, tier, i):
        return physics_case(rng)

    def gen(self, rng, tier, i):
        var, p = plans(rng, i)
        if var == "omp":
            c = self.case(rng, tier, i)
            if len(c["type"]) > 150:
                var, p = "mps", {"seed": p["seed"]}
        elif i % 499 == 101 and self.large:   # as many particles as real cases have
            c = physics_case(rng, size="xl", steps=2, **self.large[rng.randrange(len(self.large))])
        else:
            c = self.case(rng, tier, i)
            if i % 29 == 7 and len(c["type"]) <= 60:   # a longer history
                C.set_steps(c, rng.randint(60, 260))
        return {"case": c, "variant": var, "plan": p}

    def judge(self, sim, sc, v):
        c = sc["case"]
        r = sim.run(sc["variant"], dict(world.base_plan(), **sc["plan"]), world.files(c))
        if C.crashed(r):
            v.fail("crash", "run ends with %s" % r.brief())
            return
        ob = Obs(r, c)
        if ob.bad:
            v.fail("output", ob.bad)
            return
        v.probe("runs_%s" % sc["variant"])
        self.look(sim, sc, v, ob)

    def look(self, sim, sc, v, ob):
        m = Model(world.settings_for_model(sc["case"]["s"]))
        rho = world.density(sc["case"])
        for k in range(len(ob.states) - 1):
            a, b = ob.states[k], ob.states[k + 1]
            if a["n"] != b["n"]:
                return
            v.evals += 1
            if self.step(sc, v, m, rho, k + 1, a, b, ob):
                return

    def shrink(self, sc):
        if sc["variant"] == "omp":
            yield dict(sc, variant="mps", plan={"seed": sc["plan"]["seed"]})
        elif len(sc["plan"]) > 1:
            yield dict(sc, plan={"seed": sc["plan"]["seed"]})
        yield from C.shrink_case(sc)


def worst(a, b, tol):
    with np.errstate(invalid="ignore", divide="ignore"):
        e = np.nan_to_num(np.abs(a - b) / np.maximum(tol, 1e-300), nan=np.inf)
        e = np.where(same_nan(a, b), 0, e)
    return np.unravel_index(int(np.argmax(e)), e.shape)


class C13(Physics):
    id = "C13"
    rule = ("one evaluation = one observed time step of a random case (2D/3D, walls, dummies, ghosts, several fluids and densities, both gravity forms, both pressure "
            "methods, any radii) recomputed by the reference model from the state before it; distinct = (case, step) in which at least one fluid particle moved and "
            "no outcome hinged on a tie")

    def step(self, sc, v, m, rho, k, a, b, ob):
        s = Step(m, a, b, rho)
        if s.skip:
            v.probe("skipped: " + s.skip)
            return
        if not np.isfinite(b["P"]).all():
            v.probe("skipped: pressure not finite")
            return
        res = None
        for o in s.cands():
            if not np.array_equal(o["type"], b["type"]):
                continue
            pos, vel, dv = m.finish(o, b["P"], rho)
            from ..model import weight
            # size of the terms that make up the gradient: what rounding is relative to
            with np.errstate(divide="ignore", invalid="ignore"):
                act = (o["type"] == FLUID) | (o["type"] == WALL)
                use = o["ok"] & act[None, :] & act[:, None]
                mag = np.where(use, (np.abs(b["P"])[None, :] + np.abs(b["P"])[:, None]) / o["D"] ** 2 * m.reG, 0.0).sum(1) * m.dim / m.nG.n0 / rho * m.dt
            vs = np.abs(a["vel"]).max() + np.abs(b["vel"]).max() + np.abs(m.g).max() * m.dt
            ps = np.abs(a["pos"]).max() + m.l0
            # position errors of 1e-16 ps turn the unit vector of a pair and hence shares of the velocity
            rel = ps / max(min(o["mind"], m.l0), 1e-9 * m.l0)
            tv = (1e-13 * rel + 1e-12) * (vs + mag) + 1e-300
            tp = tv * m.dt + 1e-12 * ps
            tv = tv[:, None] * np.ones(3)
            tp = tp[:, None] * np.ones(3)
            skip = o["amb_grad"]
            okv = close(vel, b["vel"], tv) | skip[:, None]
            okp = close(pos, b["pos"], tp) | skip[:, None]
            if okv.all() and okp.all():
                if (o["type"] == FLUID).any():
                    v.sig(C.sha(repr(sc["case"]).encode()), k)
                if o["hits"]:
                    v.probe("steps_with_collisions")
                if (b["P"] > 0).any():
                    v.probe("steps_with_pressure")
                if m.s["viscosity"]:
                    v.probe("steps_with_viscosity")
                return
            if res is None:
                res = (o, pos, vel, okv, okp, tv, tp)
        if res is None:
            d = np.where(s.c[0]["type"] != b["type"])[0]
            # a matter of C15 and C16, unless nothing at all should have happened
            v.probe("skipped: types differ")
            return
        if s.open:
            v.probe("skipped: too many orders of collisions")
            return
        o, pos, vel, okv, okp, tv, tp = res
        if not okv.all():
            i, ax = worst(np.where(okv, 0, vel), np.where(okv, 0, b["vel"]), tv)
            v.fail("velocity", "step %d: velocity[%d] of particle %d is %.17g, the scheme gives %.17g (before the step %.17g; dim=%d method=%s collisions=%d)" %
                   (k, ax, i, b["vel"][i, ax], vel[i, ax], a["vel"][i, ax], m.dim, m.s["method"], o["hits"]))
        else:
            i, ax = worst(np.where(okp, 0, pos), np.where(okp, 0, b["pos"]), tp)
            v.fail("position", "step %d: position[%d] of particle %d is %.17g, the scheme gives %.17g (before the step %.17g; dim=%d method=%s collisions=%d)" %
                   (k, ax, i, b["pos"][i, ax], pos[i, ax], a["pos"][i, ax], m.dim, m.s["method"], o["hits"]))
        return True


class C14(Physics):
    id = "C14"
    rule = ("one evaluation = one observed time step; pressures compared with a dense direct solution of the pressure equation set up by the reference model, or with the "
            "equation of state; distinct = (case, step) with at least one particle of non-zero pressure, plus runs that end because the solver fails")

    def case(self, rng, tier, i):
        if i % 10 == 9:  # equations the solver cannot finish: no compressibility, nothing at the surface, wild densities
            c = physics_case(rng, method="Implicit", walls=2, jitter=0.3, size="s", density=True, fmtname="csv", leaving=False)
            c["s"]["compress"] = rng.choice([0.0, 1e-300, -1e-3, 1e300])
            c["s"]["ndThr"] = rng.choice([0.0, 0.3])
            if c["density"] and rng.random() < 0.5:
                c["density"] = [rng.choice([1e-12, 1e12, 1000.0]) for _ in c["density"]]
            return c
        return physics_case(rng, walls=rng.choice([1, 2, None]), method="Implicit" if rng.random() < 0.7 else "Explicit")

    def step(self, sc, v, m, rho, k, a, b, ob):
        P = b["P"]
        if not finite(a):
            v.probe("skipped: not finite")
            return
        hypo = not np.isfinite(b["nd"]).all()
        if not hypo:
            if not np.isfinite(P).all():
                i = int(np.where(~np.isfinite(P))[0][0])
                s = Step(m, a, b, rho)
                if s.skip == "coincident particles":
                    v.probe("skipped: coincident particles")
                    return
                v.fail("finite", "step %d: pressure of particle %d is %r and the run went on" % (k, i, float(P[i])))
                return True
        if (P < 0).any():
            i = int(np.argmin(P))
            v.fail("negative", "step %d: pressure of particle %d is %.17g" % (k, i, P[i]))
            return True
        if m.implicit and (~np.isfinite(b["nd"]) & (b["bc"] == INNER) & (b["type"] != GHOST) & (b["type"] != DUMMY)).any():
            i = int(np.where(~np.isfinite(b["nd"]) & (b["bc"] == INNER))[0][0])
            v.fail("unsolvable", "step %d: the pressure equation of particle %d has number density %r in its source term, and the run went on" % (k, i, float(b["nd"][i])))
            return True
        if not np.isfinite(b["nd"]).all() or not np.isfinite(P).all():
            v.probe("skipped: number density not finite")
            return
        if not m.implicit:
            e = m.eos(b["type"], rho, b["nd"])
            tol = 1e-10 * np.abs(e) + 1e-14 * m.s["soundSpeed"] ** 2 * rho
            ok = close(P, e, tol)
            if not ok.all():
                i = int(np.where(~ok)[0][0])
                v.fail("eos", "step %d: pressure of particle %d (type %d, density %g, number density %.17g) is %.17g, the equation of state gives %.17g" %
                       (k, i, b["type"][i], rho[i], b["nd"][i], P[i], e[i]))
                return True
            if (P > 0).any():
                v.sig(C.sha(repr(sc["case"]).encode()), k)
                v.probe("explicit_steps_with_pressure")
            return
        bc = b["bc"]
        z = (bc != INNER) | (b["type"] == GHOST) | (b["type"] == DUMMY)
        if (P[z] != 0).any():
            i = int(np.where(z & (P != 0))[0][0])
            v.fail("dirichlet", "step %d: pressure of particle %d (type %d, boundary condition %d) is %.17g, not zero" % (k, i, b["type"][i], bc[i], P[i]))
            return True
        s = Step(m, a, b, rho)
        if s.skip:
            v.probe("skipped: " + s.skip)
            return
        if not s.decide(v, lambda o, t: self.equation(sc, t, m, rho, k, b, o)):
            v.probe("skipped: positions not explained")
        return bool(v.bad)

    def equation(self, sc, v, m, rho, k, b, o):
        P, bc = b["P"], b["bc"]
        A, rhs = m.ppe(o, bc, rho, b["nd"])
        inner = np.where(bc == INNER)[0]
        if not len(inner):
            v.probe("steps_without_inner")
            return
        # rows that involve no pressure cut to zero must be satisfied as they stand, however ill-conditioned the whole
        zero = (bc == INNER) & (P <= 0)
        rows = [i for i in inner if P[i] > 0 and not (zero & (A[i] != 0)).any()]
        if rows:
            res = np.abs(A[rows] @ P - rhs[rows])
            lim = 1e-6 * np.linalg.norm(rhs) + 1e-9 * (np.abs(A[rows]) @ np.abs(P)) + 1e-12 * m.s["relax"] / m.dt ** 2
            if (res > lim).any():
                j = int(np.argmax(res / lim))
                v.fail("residual", "step %d: the pressures do not satisfy the pressure equation of particle %d: residual %.3g, source term %.3g, largest source term %.3g" %
                       (k, rows[j], res[j], rhs[rows[j]], np.abs(rhs).max()))
                return True
            v.probe("rows_checked", len(rows))
        if self.contradiction(v, A, rhs, inner, P, k):
            return True
        try:
            Ai = A[np.ix_(inner, inner)]
            cond = np.linalg.cond(Ai)
            x = np.linalg.solve(Ai, rhs[inner])
            inv = np.abs(np.linalg.inv(Ai)).sum(1).max()
        except np.linalg.LinAlgError:
            v.probe("skipped: singular")
            return
        if not np.isfinite(cond) or cond > 1e11:
            v.probe("skipped: ill-conditioned")
            return
        e = np.zeros(len(P))
        e[inner] = np.maximum(x, 0)
        # the solver's residual goal is 2.2e-16 |b|, what it reaches in practice is judged by the residual below
        scale = np.abs(x).max()
        tol = (1e-8 + 1e-13 * cond) * scale + inv * m.s["relax"] / m.dt ** 2 * 1e-13
        ok = close(P, e, tol)
        if not ok.all():
            i = int(np.argmax(np.abs(P - e)))
            v.fail("ppe", "step %d: pressure of particle %d is %.17g, the pressure equation gives %.17g (condition number %.2g, %d inner particles)" %
                   (k, i, P[i], e[i], cond, len(inner)))
            return True
        if (P > 0).any():
            v.sig(C.sha(repr(sc["case"]).encode()), k)
            v.probe("implicit_steps_with_pressure")

    def contradiction(self, v, A, rhs, inner, P, k):
        """groups of inner particles tied to nothing else: their rows are linearly dependent, a source term outside
        their range has no solution"""
        Ai = A[np.ix_(inner, inner)]
        n = len(inner)
        seen = np.zeros(n, bool)
        for r in range(n):
            if seen[r]:
                continue
            grp = [r]
            seen[r] = True
            for q in grp:
                for j in np.where(((Ai[q] != 0) | (Ai[:, q] != 0)) & ~seen)[0]:
                    seen[j] = True
                    grp.append(int(j))
            row = A[inner[grp]]
            if (row[:, np.setdiff1d(np.arange(A.shape[1]), inner[grp])] != 0).any():
                continue
            B = Ai[np.ix_(grp, grp)]
            u, s, _ = np.linalg.svd(B)
            b = rhs[inner[grp]]
            nb = np.linalg.norm(b)
            if nb == 0 or not np.isfinite(s).all():
                continue
            null = s < 1e-14 * max(s[0], 1e-300)
            if null.any() and np.abs(u[:, null].T @ b).max() > 1e-2 * nb:
                v.probe("unsolvable_equations")
                v.fail("unsolvable", "step %d: the pressure equations of particles %s contradict each other, and the run went on with pressures up to %g" %
                       (k, [int(x) for x in inner[grp]][:8], P[inner[grp]].max()))
                return True
        return False

    def look(self, sim, sc, v, ob):
        super().look(sim, sc, v, ob)
        if ob.r.ok and not v.bad and len(ob.states) != sc["case"]["steps"] + 1:
            v.fail("status", "exit status 0 after %d of %d steps" % (len(ob.states) - 1, sc["case"]["steps"]))
            return
        if not ob.r.ok:
            v.evals += 1
            v.probe("runs_ended_by_solver")
            v.sig(C.sha(repr(sc["case"]).encode()), "end")


class C15(Physics):
    id = "C15"
    rule = ("one evaluation = one observed time step: number and order of particles, types, fluid types, and bitwise positions and velocities of walls, dummy walls and ghosts; "
            "distinct = (case, step) of cases with such particles, counted separately when fluid collides with them")

    def case(self, rng, tier, i):
        return physics_case(rng, walls=rng.choice([1, 1, 2]), vel=rng.choice([0.2, 1.0, 2.5]), jitter=rng.choice([0.0, 0.25, 0.4]))

    def look(self, sim, sc, v, ob):
        c = sc["case"]
        super().look(sim, sc, v, ob)
        n0 = len(c["type"])
        for k, s in enumerate(ob.states):
            if s["n"] != n0:
                v.fail("count", "snapshot %d holds %d particles, the particle file %d" % (k, s["n"], n0))
                return
        # the other two formats keep the same order and fluid types
        f = c["fluid"] or [0] * n0
        for k, x in C.snaps(ob.r).items():
            if "csv" in x and ob.r.ok:
                q = fmt.parse_csv(x["csv"])
                if list(q["fluid"]) != list(f):
                    v.fail("fluid", "snapshot %d (csv): fluid types changed" % k)
                    return

    def step(self, sc, v, m, rho, k, a, b, ob):
        c = sc["case"]
        f = np.array(c["fluid"] if c["fluid"] else [0] * len(c["type"]))
        if not np.array_equal(b["fluid"], f):
            v.fail("fluid", "step %d: fluid type of particle %d changed" % (k, int(np.where(b["fluid"] != f)[0][0])))
            return True
        ch = (a["type"] != b["type"]) & (b["type"] != GHOST)
        if ch.any():
            i = int(np.where(ch)[0][0])
            v.fail("type", "step %d: particle %d turned from type %d to %d" % (k, i, a["type"][i], b["type"][i]))
            return True
        w = a["type"] != FLUID
        if w.any():
            v.sig(C.sha(repr(c).encode()), k)
            for q in ("pos", "vel"):
                bad = w & ~same_nan(a[q], b[q]).all(1)
                if bad.any():
                    i = int(np.where(bad)[0][0])
                    v.fail("wall", "step %d: %s of particle %d (type %d) changed from %s to %s" %
                           (k, q, i, a["type"][i], [repr(float(x)) for x in a[q][i]], [repr(float(x)) for x in b[q][i]]))
                    return True
            w = (a["type"] == WALL) | (a["type"] == DUMMY)
            s = Step(m, a, b, rho)
            if not s.skip:
                d, D, ok = m.pairs(*(s.c[0]["pre"][0], s.c[0]["pre"][2]))
                hit = ok & (D < m.cdist) & w[None, :] & (a["type"] == FLUID)[:, None]
                if hit.any():
                    v.probe("steps_with_fluid_hitting_wall")


class C16(Physics):
    id = "C16"
    quick = 6000
    rule = ("one evaluation = one observed time step of a case in which particles leave through a side, sit exactly on the border or on cell boundaries, or coincide so that "
            "their positions become not-a-number; heap accesses checked in the omp build; domains of more cells than can be counted; plus twin runs with and without ghosts; distinct = (case, step) with a particle "
            "retired or on the border, and distinct twin cases")

    def gen(self, rng, tier, i):
        mode = rng.choice(["leave", "leave", "border", "border", "nan", "twin", "lattice"])
        c = physics_case(rng, leaving=(mode == "leave"), size=rng.choice(["xs", "s", "s"]), vel=rng.choice([0.2, 1.0]),
                         method="Explicit" if mode == "twin" else None, ghosts=True if mode == "twin" else None)
        s = c["s"]
        P = np.array(c["pos"])
        T = np.array(c["type"])
        act = np.where(T != GHOST)[0]
        if mode in ("border", "lattice") and len(act):
            if mode == "border":  # the domain ends exactly at the outermost particles
                lo, hi = P[act].min(0), P[act].max(0)
                for ax in (0, 1):
                    if rng.random() < 0.7:
                        s["dmin"][ax] = float(lo[ax])
                    if rng.random() < 0.7:
                        s["dmax"][ax] = float(hi[ax])
                if s["dim"] == 2 and rng.random() < 0.5:
                    s["dmin"][2] = s["dmax"][2] = 0.0
            else:  # lengths that are whole multiples of the cell, particles on cell boundaries
                L = max(s["rN"], s["rG"], s["rL"]) * s["l0"]
                for ax in (0, 1):
                    s["dmax"][ax] = s["dmin"][ax] + L * int(np.ceil((s["dmax"][ax] - s["dmin"][ax]) / L))
                for j in rng.sample(list(map(int, act)), min(len(act), 3)):
                    ax = rng.randint(0, 1)
                    q = s["dmin"][ax] + L * rng.randint(0, int(round((s["dmax"][ax] - s["dmin"][ax]) / L)))
                    c["pos"][j][ax] = float(min(q, s["dmax"][ax]))
            for j in range(len(T)):
                if T[j] == FLUID and rng.random() < 0.7:
                    c["vel"][j] = [0.0, 0.0, 0.0]
            if rng.random() < 0.5:
                s["gravity"] = [0.0, 0.0, 0.0]
                s["gNorm"] = 0.0
        if mode == "nan":
            fl = [int(j) for j in act if T[j] == FLUID]
            if fl:
                j = rng.choice(fl)
                o = rng.choice([int(x) for x in act])
                if o != j:
                    c["pos"][j] = list(c["pos"][o])
                    if rng.random() < 0.5:
                        c["vel"][j] = list(c["vel"][o])
                elif rng.random() < 0.5:
                    c["vel"][j] = [1e308, 1e308, 0.0]
        if i % 37 == 3:   # more cells than a number of 32 bits can count, the count wrapped round to a small one or anything
            mode = "vast"
            L = max(s["rN"], s["rG"], s["rL"]) * s["l0"]
            n = [int((s["dmax"][ax] - s["dmin"][ax]) / L) + 3 for ax in range(3)]
            ax, bx = rng.sample([0, 1, 2] if s["dim"] == 3 else [0, 1], 2)
            cx = 3 - ax - bx
            if rng.random() < 0.8:
                n[ax] = rng.randint(5000, 60000)
                n[bx] = -(-rng.choice([1, 1, 1, 2, 3]) * 2 ** 32 // (n[ax] * n[cx]))
                for x in (ax, bx):
                    s["dmax"][x] = s["dmin"][x] + (n[x] - 2.5) * L
            else:
                s["dmax"][ax] = 10.0 ** rng.choice([11, 15, 30, 300])
                if rng.random() < 0.5:
                    s["dmin"][bx] = -10.0 ** rng.choice([11, 15, 30, 300])
        if i % 29 == 7 and mode in ("leave", "border", "lattice") and len(T) <= 60:
            C.set_steps(c, rng.randint(60, 260))
        var, p = ("omp", dict(C.sched_plan(rng), threads=rng.choice([1, 2, 3]))) if rng.random() < 0.5 else ("mps", {"seed": rng.randint(1, 10 ** 6), "memfill": rng.randint(0, 4)})
        return {"case": c, "variant": var, "plan": p, "mode": mode}

    def look(self, sim, sc, v, ob):
        self.gone = {}
        if sc.get("mode") == "vast" and not ob.r.ok:
            v.evals += 1
            v.probe("vast_domain_refused")
            v.sig("vast", C.sha(repr(sc["case"]).encode()))
            if C.crashed(ob.r) or b"Assertion" in ob.r.err:
                v.fail("vast", "a domain that is very large compared with the effective radius: the run ends with %s" % ob.r.brief())
            return
        if not ob.r.ok and sc["case"]["s"]["method"] == "Explicit":
            v.fail("stopped", "%s case: run ends with %s" % (sc.get("mode"), ob.r.brief()))
            return
        if not self.initial(sc, v, ob):
            return
        super().look(sim, sc, v, ob)
        if sc.get("mode") == "twin" and not v.bad:
            c = sc["case"]
            keep = [i for i in range(len(c["type"])) if c["type"][i] != GHOST]
            if not keep or len(keep) == len(c["type"]):
                return
            r2 = sim.run(sc["variant"], dict(world.base_plan(), **sc["plan"]), world.files(C.sub_case(c, keep)))
            o2 = Obs(r2, c)
            v.evals += 1
            if len(o2.states) != len(ob.states) or (r2.kind, r2.code) != (ob.r.kind, ob.r.code):
                v.fail("influence", "without the ghosts the run ends with %s after %d snapshots, with them %s after %d" % (r2.brief(), len(o2.states), ob.r.brief(), len(ob.states)))
                return
            for k, (x, y) in enumerate(zip(ob.states, o2.states)):
                for q in ("type", "pos", "vel", "nd", "P"):
                    if not np.array_equal(x[q][keep], y[q], equal_nan=(q != "type")):
                        v.fail("influence", "snapshot %d: %s of other particles depends on the presence of ghosts" % (k, q))
                        return
            v.sig("twin", C.sha(repr(c).encode()))

    def initial(self, sc, v, ob):
        return True

    def step(self, sc, v, m, rho, k, a, b, ob):
        inside = np.all((a["pos"] >= m.lo) & (a["pos"] <= m.hi), axis=1)
        wasg = a["type"] == GHOST
        isg = b["type"] == GHOST
        out = ~inside & ~wasg
        back = wasg & ~isg
        if back.any():
            i = int(np.where(back)[0][0])
            v.fail("back", "step %d: ghost %d turned into type %d" % (k, i, b["type"][i]))
            return True
        if (out & ~isg).any():
            i = int(np.where(out & ~isg)[0][0])
            v.fail("kept", "step %d: particle %d at %s is outside the domain %s..%s but still of type %d" % (k, i, list(a["pos"][i]), list(m.lo), list(m.hi), b["type"][i]))
            return True
        still = wasg | out
        for q in ("pos", "vel"):
            bad = still & ~same_nan(a[q], b[q]).all(1)
            if bad.any():
                i = int(np.where(bad)[0][0])
                v.fail("moved", "step %d: %s of particle %d, a ghost, changed from %s to %s" % (k, q, i, list(a[q][i]), list(b[q][i])))
                return True
        for q in ("nd", "P"):
            bad = isg & ~(b[q] == 0)
            if bad.any():
                i = int(np.where(bad)[0][0])
                v.fail("residue", "step %d: %s of particle %d, a ghost, is %.17g" % (k, "number density" if q == "nd" else "pressure", i, b[q][i]))
                return True
        new = isg & ~wasg
        b_in = np.all((b["pos"] >= m.lo) & (b["pos"] <= m.hi), axis=1)
        if (new & b_in).any():
            i = int(np.where(new & b_in)[0][0])
            v.fail("retired", "step %d: particle %d was retired at %s, which is inside the domain %s..%s" % (k, i, [repr(float(x)) for x in b["pos"][i]], list(m.lo), list(m.hi)))
            return True
        w = (a["type"] == WALL) | (a["type"] == DUMMY)
        border = np.any((a["pos"] == m.lo) | (a["pos"] == m.hi), axis=1) & ~wasg
        if new.any():
            v.probe("retired", int(new.sum()))
            if np.isnan(b["pos"][new]).any():
                v.probe("retired_nan")
        if border.any():
            v.probe("steps_with_particle_on_border")
        if new.any() or border.any():
            v.sig(C.sha(repr(sc["case"]).encode()), k)


class C17(Physics):
    id = "C17"
    rule = ("one evaluation = one observed time step: number densities compared with an exhaustive pair sum, and boundary conditions recomputed from them; positions between "
            "prediction and gradient come from the reference model or, independently, by undoing the gradient; distinct = (case, step) in which some particle has a neighbour")

    def case(self, rng, tier, i):
        if i % 5 == 4:  # several search cells in each direction, particles on both sides of their boundaries
            c = physics_case(rng, size=rng.choice(["m", "l"]), dim=2, steps=2)
            return c
        return physics_case(rng)

    def step(self, sc, v, m, rho, k, a, b, ob):
        s = Step(m, a, b, rho)
        g = b["type"] == GHOST
        if (b["nd"][g] != 0).any():
            i = int(np.where(g & (b["nd"] != 0))[0][0])
            v.fail("ghost", "step %d: number density of ghost %d is %.17g" % (k, i, b["nd"][i]))
            return True
        if s.skip:
            v.probe("skipped: " + s.skip)
            return
        if s.decide(v, lambda o, t: self.surface(sc, t, m, k, b, o)):
            return bool(v.bad)
        near = s.c[0]
        if not np.array_equal(near["type"], b["type"]):
            v.probe("skipped: types differ")
            return
        if s.open:
            v.probe("skipped: too many orders of collisions")
            return
        i = worst(near["nd"], b["nd"], s.ndtol(near))[0]
        v.fail("density", "step %d: number density of particle %d (type %d) is %.17g, the pair sum gives %.17g" % (k, i, b["type"][i], b["nd"][i], near["nd"][i]))
        return True

    def surface(self, sc, v, m, k, b, o):
        if o["ok"].any():
            v.sig(C.sha(repr(sc["case"]).encode()), k)
        if not m.implicit:
            return
        bc, amb = m.surface(o, b["nd"])
        bad = (bc != b["bc"]) & ~amb
        if amb.any():
            v.probe("ambiguous_surface", int(amb.sum()))
        if bad.any():
            i = int(np.where(bad)[0][0])
            v.fail("surface", "step %d: boundary condition of particle %d (type %d) is %d, expected %d (number density %.17g, threshold %.17g, distribution %s)" %
                   (k, i, b["type"][i], b["bc"][i], bc[i], b["nd"][i], m.s["ndThr"] * m.nN.n0, m.s["dist"]))
            return
        if m.s["dist"] and ((b["nd"] < m.s["ndThr"] * m.nN.n0) & (bc == INNER)).any():
            v.probe("steps_where_distribution_decides")


class C22(Physics):
    id = "C22"
    large = None
    rule = ("one evaluation = one observed time step of an all-fluid cloud of one density without pressure (explicit method with sound speed zero, or implicit method with source term zero) in a wide domain; "
            "distinct = (case, step) in which particles interact")

    def case(self, rng, tier, i):
        c = physics_case(rng, walls=0, leaving=False, ghosts=False, density=False, method="Explicit", steps=rng.randint(3, 12), touch=0.0,
                         jitter=rng.choice([0.1, 0.25, 0.4, 0.6]), vel=rng.choice([0.2, 1.0, 2.0]), viscosity=rng.choice([0.0, 1e-6, 1e-3, 1e-2]))
        keep = [j for j in range(len(c["type"])) if c["type"][j] == FLUID]
        c = C.sub_case(c, keep)
        s = c["s"]
        s["soundSpeed"] = 0.0
        if rng.random() < 0.5:  # the implicit method without pressure: no source term, or nothing inside the fluid
            s["method"] = "Implicit"
            s["relax"] = 0.0
            s["ndThr"] = rng.choice([0.97, 0.5, 0.2])
        for ax in (0, 1, 2) if s["dim"] == 3 else (0, 1):
            s["dmin"][ax] = s["dmin"][ax] - 12 * s["l0"]
            s["dmax"][ax] = s["dmax"][ax] + 12 * s["l0"]
        return c

    def step(self, sc, v, m, rho, k, a, b, ob):
        if not finite(a) or not finite(b) or (a["type"] != FLUID).any() or (b["type"] != FLUID).any():
            v.probe("skipped: left the domain or not finite")
            return
        if (b["P"] != 0).any():
            v.probe("skipped: pressure")
            return
        d, D, ok = m.pairs(a["pos"], a["type"])
        if ok.any() and D[ok].min() < 1e-6 * m.l0:
            v.probe("skipped: coincident particles")
            return
        n = a["n"]
        va, vb = a["vel"].mean(0), b["vel"].mean(0)
        from ..model import weight
        W = np.where(ok, weight(D, m.reL), 0.0)
        cfac = m.s["viscosity"] * 2 * m.dim / (m.nL.n0 * m.nL.lam) * m.dt
        size = np.abs(a["vel"]).max() + np.abs(b["vel"]).max() + np.abs(m.g).max() * m.dt
        size *= 1 + cfac * W.sum(1).max(initial=0)
        e = va + m.g * m.dt
        if not close(vb, e, 1e-12 * size * n + 1e-300).all():
            v.fail("momentum", "step %d: mean velocity is %s, gravity alone gives %s" % (k, [repr(float(x)) for x in vb], [repr(float(x)) for x in e]))
            return True
        xe = a["pos"].mean(0) + vb * m.dt
        if not close(b["pos"].mean(0), xe, 1e-12 * (size * m.dt * n + np.abs(a["pos"]).max() + m.l0)).all():
            v.fail("centre", "step %d: the centre of mass is at %s, the mean velocity leads to %s" % (k, [repr(float(x)) for x in b["pos"].mean(0)], [repr(float(x)) for x in xe]))
            return True
        if cfac * W.sum(1).max(initial=0) <= 0.99:
            ea = ((a["vel"] - va) ** 2).sum()
            eb = ((b["vel"] - vb) ** 2).sum()
            if eb > ea * (1 + 1e-9) + 1e-13 * size * size * n:
                v.fail("energy", "step %d: kinetic energy about the centre of mass grows from %.17g to %.17g" % (k, ea, eb))
                return True
            v.probe("energy_checked")
        else:
            v.probe("energy skipped: viscosity unstable")
        if ok.any():
            v.sig(C.sha(repr(sc["case"]).encode()), k)
            s = Step(m, a, b, rho)
            if not s.skip and s.c[0]["hits"]:
                v.probe("steps_with_collisions")
