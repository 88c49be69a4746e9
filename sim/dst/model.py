"""Executable reference model of one MPS step, written from the method's description (exhaustive pair sums, dense
linear algebra). Used as an oracle: the state observed in snapshot k is advanced by one step and compared with
snapshot k+1. Comparisons are skipped exactly where the outcome hinges on a discontinuity closer than EPS."""
import numpy as np

np.seterr(all="ignore")  # states that are no longer numbers are among the observed ones

GHOST, FLUID, WALL, DUMMY = 0, 1, 2, 3
IGN, SURF, INNER = 0, 1, 3
EPS = 1e-9


def weight(r, re):
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(r < re, re / r - 1.0, 0.0)


class Ref:
    def __init__(self, dim, l0, re):
        g = np.arange(-4, 5)
        z = g if dim == 3 else np.array([0])
        X, Y, Z = np.meshgrid(g, g, z, indexing="ij")
        d = np.sqrt((X * l0) ** 2 + (Y * l0) ** 2 + (Z * l0) ** 2).ravel()
        d = d[d > 0]
        w = weight(d, re)
        self.n0 = float(w.sum())
        self.lam = float((d * d * w).sum() / w.sum())


class Model:
    def __init__(self, s):
        """s: settings dict (see world.py)"""
        self.s = s
        l0 = s["l0"]
        self.dim = s["dim"]
        self.l0 = l0
        self.dt = s["dt"]
        self.reN = s["rN"] * l0
        self.reG = s["rG"] * l0
        self.reL = s["rL"] * l0
        self.reMax = max(self.reN, self.reG, self.reL)
        self.nN = Ref(self.dim, l0, self.reN)
        self.nG = Ref(self.dim, l0, self.reG)
        self.nL = Ref(self.dim, l0, self.reL)
        if s.get("xyz", True):
            self.g = np.array(s["gravity"], float)
        else:
            th = s.get("gAngle", 0.0) * np.pi / 180
            gn = s.get("gNorm", 0.0)
            self.g = np.array([gn * np.sin(th), -gn * np.cos(th), 0.0])
        self.lo = np.array(s["dmin"], float)
        self.hi = np.array(s["dmax"], float)
        self.cdist = s["colRatio"] * l0
        self.implicit = s["method"] == "Implicit"

    # -- helpers
    def ghosting(self, pos, typ):
        """returns new types, set of ambiguous ids"""
        inside = np.all((pos >= self.lo) & (pos <= self.hi), axis=1)
        t = typ.copy()
        t[~inside] = GHOST
        return t

    def border_ambiguous(self, pos, typ):
        scale = np.maximum(1.0, np.maximum(abs(self.lo), abs(self.hi)))
        near = (np.minimum(abs(pos - self.lo), abs(pos - self.hi)) < EPS * scale)
        exact = (pos == self.lo) | (pos == self.hi)
        return (typ != GHOST) & np.any(near & ~exact, axis=1)

    def pairs(self, pos, typ, mask_re=None):
        d = pos[None, :, :] - pos[:, None, :]
        D = np.sqrt((d * d).sum(2))
        act = typ != GHOST
        ok = act[:, None] & act[None, :]
        np.fill_diagonal(ok, False)
        ok &= D < self.reMax
        return d, D, ok

    def contacts(self, pos, typ, D, ok):
        """pairs that collide, in the order of the grid: [(i, j)] and the cell of each particle"""
        cell = np.where((typ != GHOST)[:, None], np.nan_to_num((pos - self.lo) / self.reMax), 0).astype(int)
        out = []
        for i in np.where(typ == FLUID)[0]:
            js = [j for j in np.where(ok[i] & (D[i] < self.cdist))[0] if not (typ[j] == FLUID and j >= i)]
            js.sort(key=lambda j: (cell[j][0], cell[j][1], cell[j][2], j))
            out.extend((int(i), int(j)) for j in js)
        return out, cell

    def collide(self, pos, vel, typ, D, ok, rho, order=None):
        pos = pos.copy()
        vel = vel.copy()
        e = self.s["restitution"]
        pairs, cell = self.contacts(pos, typ, D, ok)
        hits = 0
        multi = np.zeros(len(typ), int)
        amb = False
        for i, j in pairs if order is None else order:
            hits += 1
            if typ[j] == FLUID:
                multi[j] += 1
            multi[i] += 1
            invi = 1 / rho[i]
            invj = 1 / rho[j] if typ[j] == FLUID else 0.0
            m = 1 / (invi + invj)
            nv = pos[j] - pos[i]
            ln = np.linalg.norm(nv)
            nrm = nv / ln if ln > 0 else nv
            if ln < 1e-6 * self.l0:
                amb = True
            rv = float((vel[j] - vel[i]) @ nrm)
            # the impulse is continuous where rv is 0
            imp = -(1 + e) * rv * m if rv < 0 else 0.0
            vel[i] -= imp * invi * nrm
            vel[j] += imp * invj * nrm
            pi = (self.cdist - D[i, j]) * m
            pos[i] -= pi * invi * nrm
            pos[j] += pi * invj * nrm
        return pos, vel, hits, multi, amb, (pairs, cell)

    def predict(self, st, rho, order=None):
        """st: dict type,pos,vel. Advances up to the number density; returns a dict with everything up to there."""
        typ = st["type"].copy()
        pos = st["pos"].copy()
        vel = st["vel"].copy()
        o = {"amb_border": np.zeros(len(typ), bool)}
        warn = []

        def ghost(pos, typ):
            o["amb_border"] |= self.border_ambiguous(pos, typ)
            t = self.ghosting(pos, typ)
            warn.extend(int(i) for i in np.where((t == GHOST) & (typ != GHOST))[0])
            return t

        typ = ghost(pos, typ)
        d, D, ok = self.pairs(pos, typ)
        fl = typ == FLUID
        acc = np.zeros_like(pos)
        acc[fl] += self.g
        nu = self.s["viscosity"]
        a = nu * 2.0 * self.dim / (self.nL.n0 * self.nL.lam)
        W = np.where(ok, weight(D, self.reL), 0.0)
        visc = (W[:, :, None] * (vel[None, :, :] - vel[:, None, :])).sum(1) * a
        acc[fl] += visc[fl]
        vel[fl] += acc[fl] * self.dt
        pos[fl] += vel[fl] * self.dt
        # collision
        typ = ghost(pos, typ)
        d, D, ok = self.pairs(pos, typ)
        iu = np.triu(ok, 1) & (abs(D - self.cdist) < EPS * self.l0)
        o["amb_col"] = bool(iu.any())
        o["pre"] = (pos.copy(), vel.copy(), typ.copy())
        pos, vel, o["hits"], o["multi"], amb, o["contacts"] = self.collide(pos, vel, typ, D, ok, rho, order)
        o["amb_col"] |= amb
        # number density
        typ = ghost(pos, typ)
        d, D, ok = self.pairs(pos, typ)
        WN = np.where(ok, weight(D, self.reN), 0.0)
        nd = WN.sum(1)
        nd[typ == GHOST] = 0.0
        o.update(type=typ, pos=pos, vel=vel, nd=nd, d=d, D=D, ok=ok, warn=warn)
        o["mind"] = float(D[ok].min()) if ok.any() else np.inf
        return o

    def surface(self, o, nd=None):
        """boundary condition and per-particle ambiguity"""
        typ = o["type"]
        nd = o["nd"] if nd is None else nd
        s = self.s
        thr = s["ndThr"] * self.nN.n0
        low = nd < thr
        amb = abs(nd - thr) < 1e-7 * self.nN.n0
        if s["dist"]:
            S = np.where(o["ok"][:, :, None], o["d"], 0.0).sum(1)
            lim = s["distThr"] * self.l0
            empty = ~o["ok"].any(1)
            sided = np.any(abs(S) > lim, axis=1) | empty
            # a pair at the very rim of reMax, or a component at the limit
            D = o["D"].copy()
            np.fill_diagonal(D, np.inf)
            rim = np.any((abs(D - self.reMax) < EPS * self.l0) & (typ != GHOST)[:, None] & (typ != GHOST)[None, :], axis=1)
            amb2 = np.any(abs(abs(S) - lim) < 1e-7 * self.l0, axis=1) | rim
            amb = amb | (low & amb2)
            low = low & sided
        bc = np.where(low, SURF, INNER)
        ign = (typ == GHOST) | (typ == DUMMY)
        bc[ign] = IGN
        amb = amb & ~ign
        return bc, amb

    def ppe(self, o, bc, rho, nd):
        """matrix and right hand side of the pressure equation"""
        n = len(bc)
        A = np.zeros((n, n))
        b = np.zeros(n)
        W = np.where(o["ok"], weight(o["D"], self.reL), 0.0)
        W[:, bc == IGN] = 0.0
        a = 2.0 * self.dim / (self.nL.n0 * self.nL.lam)
        s = self.s
        dt2 = self.dt * self.dt
        for i in range(n):
            if bc[i] != INNER:
                A[i, i] = 1.0
                continue
            c = a * W[i] / rho[i]
            A[i] = -c
            A[i, i] = c.sum() + s["compress"] / dt2
            b[i] = s["relax"] / dt2 * (nd[i] - self.nN.n0) / self.nN.n0
        return A, b

    def eos(self, typ, rho, nd):
        c = self.s["soundSpeed"]
        n0 = self.nN.n0
        p = np.where(nd > n0, c * c * rho * (nd - n0) / n0, 0.0)
        p[typ == GHOST] = 0.0
        return p

    def finish(self, o, P, rho):
        """gradient and final move, using the observed pressures"""
        typ, D, ok, d = o["type"], o["D"], o["ok"], o["d"]
        act = (typ == FLUID) | (typ == WALL)
        use = ok & act[None, :] & act[:, None] & (D < self.reG)
        Pm = np.where(use, P[None, :], np.inf).min(1)
        Pmin = np.minimum(P, Pm)
        fl = typ == FLUID
        G = np.zeros_like(o["pos"])
        with np.errstate(divide="ignore", invalid="ignore"):
            C = np.where(use, (P[None, :] - Pmin[:, None]) / (D * D) * weight(D, self.reG), 0.0)
        C = np.nan_to_num(C)
        G = (C[:, :, None] * np.where(use[:, :, None], d, 0)).sum(1) * (self.dim / self.nG.n0)
        acc = np.zeros_like(G)
        acc[fl] = -G[fl] / rho[fl][:, None]
        vel = o["vel"] + np.where(fl[:, None], acc * self.dt, 0)
        pos = o["pos"] + np.where(fl[:, None], acc * self.dt * self.dt, 0)
        # minimum pressure is discontinuous in the neighbourhood
        rimm = (abs(D - self.reG) < EPS * self.l0)
        np.fill_diagonal(rimm, False)
        o["amb_grad"] = np.any(rimm & act[None, :] & act[:, None], axis=1)
        return pos, vel, abs(acc).max() * self.dt if len(acc) else 0.0

    def courant(self, typ, vel):
        f = typ == FLUID
        if not f.any():
            return 0.0
        v = vel[f]
        n = np.sqrt((v * v).sum(1))
        n = n[~np.isnan(n)]
        return float((n * self.dt / self.l0).max()) if len(n) else 0.0
