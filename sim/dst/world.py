"""Random simulation cases: settings, particles and their files."""
import math
import random
import numpy as np
from . import fmt
from .model import GHOST, FLUID, WALL, DUMMY

REQUIRED = ["dim", "particleDistance", "dt", "endTime", "outputPeriod", "cflCondition", "numPhysicalCores", "domainMin", "domainMax",
            "defaultDensity", "kinematicViscosity", "gravity", "surfaceDetection-numberDensity-threshold",
            "surfaceDetection-particleDistribution", "surfaceDetection-particleDistribution-threshold", "pressureCalculationMethod",
            "compressibility", "relaxationCoefficientForPressure", "soundSpeed", "collisionDistanceRatio", "coefficientOfRestitution",
            "radiusRatioForNumberDensity", "radiusRatioForGradient", "radiusRatioForLaplacian", "particlesPath"]
OPTIONAL = ["xyz-input", "gravity-norm", "gravity-angle", "outputVtkInBinary"]


def yaml_items(s):
    """ordered [(key, text)]"""
    def v(x):
        return repr(float(x))

    def vec(x):
        return "[" + ", ".join(v(c) for c in x) + "]"

    def b(x):
        return "true" if x else "false"
    it = [("dim", "%d" % s["dim"]), ("particleDistance", v(s["l0"])), ("dt", v(s["dt"])), ("endTime", v(s["end"])),
          ("outputPeriod", v(s["period"])), ("cflCondition", v(s["cfl"])), ("numPhysicalCores", "%d" % s.get("cores", 4)),
          ("domainMin", vec(s["dmin"])), ("domainMax", vec(s["dmax"])), ("defaultDensity", v(s["rho"])),
          ("kinematicViscosity", v(s["viscosity"]))]
    if s.get("xyz") is not None:
        it.append(("xyz-input", b(s["xyz"])))
    it.append(("gravity", vec(s["gravity"])))
    if s.get("gNorm") is not None:
        it.append(("gravity-norm", v(s["gNorm"])))
    if s.get("gAngle") is not None:
        it.append(("gravity-angle", v(s["gAngle"])))
    it += [("surfaceDetection-numberDensity-threshold", v(s["ndThr"])), ("surfaceDetection-particleDistribution", b(s["dist"])),
           ("surfaceDetection-particleDistribution-threshold", v(s["distThr"])), ("pressureCalculationMethod", s["method"]),
           ("compressibility", v(s["compress"])), ("relaxationCoefficientForPressure", v(s["relax"])), ("soundSpeed", v(s["soundSpeed"])),
           ("collisionDistanceRatio", v(s["colRatio"])), ("coefficientOfRestitution", v(s["restitution"])),
           ("radiusRatioForNumberDensity", v(s["rN"])), ("radiusRatioForGradient", v(s["rG"])), ("radiusRatioForLaplacian", v(s["rL"])),
           ("particlesPath", s["ppath"])]
    if s.get("binary") is not None:
        it.append(("outputVtkInBinary", b(s["binary"])))
    return it


def yaml_text(items):
    return ("# computational conditions\n" + "".join("%s: %s\n" % kv for kv in items)).encode()


def settings_text(s):
    """settings.yml of a case: keys in the order s["korder"], comments of s["pad"] bytes before some of them"""
    it = yaml_items(s)
    if s.get("korder"):
        r = random.Random(s["korder"])
        r.shuffle(it)
    pad = dict((k, n) for k, n in s.get("pad") or [])
    t = "# computational conditions\n"
    for i, (k, v) in enumerate(it):
        n = pad.get(i, 0)
        while n > 0:
            t += "# " + "x" * min(n, 77) + "\n"
            n -= 80
        t += "%s: %s\n" % (k, v)
    return t.encode()


def settings_for_model(s):
    m = dict(s)
    if m.get("xyz") is None:
        m["xyz"] = True
    m["gNorm"] = m.get("gNorm") or 0.0
    m["gAngle"] = m.get("gAngle") or 0.0
    return m


def rnd(rng, a, b, digits=6):
    return round(rng.uniform(a, b), digits)


def gen_case(rng, dim=None, size="s", steps=None, method=None, walls=None, fmtname=None, binary=True, jitter=None, vel=None,
             leaving=None, ghosts=None, fluids=None, t0=None, density=None, per_step=True, nofluid=False, viscosity=None, touch=None):
    """A self-contained case as a JSON-able dict. rng: random.Random."""
    c = {}
    s = {}
    s["dim"] = dim or (3 if rng.random() < 0.25 else 2)
    s["l0"] = rng.choice([0.025, 0.1, 0.05, 0.02, 1.0, 0.0125])
    l0 = s["l0"]
    three = s["dim"] == 3
    big = {"xs": 2, "s": 4, "m": 7, "l": 11, "xl": 34}[size]
    low = {"xs": 1, "xl": 22}.get(size, 2)
    if size == "xl" and three:
        low, big = 7, 10
    nx = rng.randint(low, big)
    ny = rng.randint(low, big)
    nz = (rng.randint(7, 10) if size == "xl" else rng.randint(1, 2 if size in ("xs", "s") else 3)) if three else 1
    nw = (rng.choice([0, 1, 2]) if not three else rng.choice([0, 0, 1])) if walls is None else walls
    ndum = (rng.choice([0, 1, 2]) if not three else rng.choice([0, 1])) if nw else 0
    if walls is None and rng.random() < 0.1:
        ndum = rng.choice([0, 1])
    tot = nw + ndum
    typ, pos = [], []
    zr = range(0, nz) if three else [0]
    open_top = rng.random() < 0.7
    for ix in range(-tot, nx + tot):
        for iy in range(-tot, ny + (0 if open_top else tot)):
            for iz in zr:
                inx, iny = 0 <= ix < nx, 0 <= iy < ny
                if inx and iny:
                    t = FLUID
                else:
                    k = max(-ix, ix - nx + 1, -iy, iy - ny + 1)
                    t = WALL if k <= nw else DUMMY
                typ.append(t)
                pos.append([ix * l0, iy * l0, iz * l0])
    n = len(typ)
    jit = rng.choice([0.0, 0.02, 0.1, 0.25]) if jitter is None else jitter
    gap = rng.choice([0.0, 0.0, 0.3]) if touch is None else touch
    v0 = rng.choice([0.0, 0.2, 1.0]) if vel is None else vel
    dt = rng.choice([0.001, 0.0005, 0.002, 0.0004]) * (l0 / 0.025) ** 0.5
    s["dt"] = float("%.4g" % dt)
    vscale = v0 * 0.2 * l0 / s["dt"]
    velo = []
    for i in range(n):
        if typ[i] == FLUID:
            for k in range(3 if three else 2):
                pos[i][k] += rng.uniform(-jit, jit) * l0
            pos[i][0] -= gap * l0 * (1 if rng.random() < 0.5 else 0)
            velo.append([rng.uniform(-1, 1) * vscale, rng.uniform(-1, 1) * vscale, rng.uniform(-1, 1) * vscale if three else 0.0])
        else:
            velo.append([0.0, 0.0, 0.0] if rng.random() < 0.9 else [rng.uniform(-1, 1) * vscale, 0.0, 0.0])
    if rng.random() < 0.3:  # extra splash particles, isolated
        for _ in range(rng.randint(1, 3)):
            typ.append(FLUID)
            pos.append([rng.uniform(0, nx) * l0, (ny + rng.uniform(1.2, 6)) * l0, 0.0])
            velo.append([rng.uniform(-1, 1) * vscale, rng.uniform(-1, 1) * vscale, 0.0])
    if (rng.random() < 0.2) if ghosts is None else ghosts:
        for _ in range(rng.randint(1, 3)):
            typ.insert(0, GHOST)
            pos.insert(0, [rng.uniform(-9, 9) * l0, rng.uniform(-9, 9) * l0, 0.0])
            velo.insert(0, [rng.uniform(-1, 1), 0.0, 0.0])
    n = len(typ)
    if rng.random() < 0.5:
        perm = list(range(n))
        rng.shuffle(perm)
        typ = [typ[i] for i in perm]
        pos = [pos[i] for i in perm]
        velo = [velo[i] for i in perm]
    P = np.array(pos)
    act = P[np.array(typ) != GHOST] if any(t != GHOST for t in typ) else P
    mx = rng.choice([0.5, 2.0, 6.0])
    lo = act.min(0) - np.array([rng.uniform(0.1, mx), rng.uniform(0.1, mx), rng.uniform(0.1, mx)]) * l0
    hi = act.max(0) + np.array([rng.uniform(0.1, mx), rng.uniform(0.1, mx), rng.uniform(0.1, mx)]) * l0
    if not three:
        lo[2] = hi[2] = 0.0
        if rng.random() < 0.3:
            lo[2], hi[2] = -l0, l0
    if (rng.random() < 0.35) if leaving is None else leaving:
        cand = [i for i in range(n) if typ[i] == FLUID]
        rng.shuffle(cand)
        for i in cand[:rng.randint(1, 3)]:
            ax = rng.randint(0, 1)
            sgn = rng.choice([-1, 1])
            pos[i][ax] = float((hi[ax] if sgn > 0 else lo[ax]) - sgn * rng.uniform(0.01, 0.6) * l0)
            velo[i][ax] = sgn * rng.uniform(0.1, 0.8) * l0 / s["dt"]
    s["dmin"] = [float("%.10g" % x) for x in lo]
    s["dmax"] = [float("%.10g" % x) for x in hi]
    nsteps = steps or rng.randint(2, 8)
    s["rho"] = rng.choice([1000.0, 800.0, 1.0, 13600.0])
    s["viscosity"] = rng.choice([0.0, 1e-6, 1e-3, 0.05]) if viscosity is None else viscosity
    # angular form, planar only
    if rng.random() < 0.3:
        s["xyz"] = False
        s["gNorm"] = rng.choice([9.8, 1.62, 0.0, 20.0])
        s["gAngle"] = rng.choice([0, 30.0, -45.0, 90.0, 180.0, 12.5])
        s["gravity"] = [rnd(rng, -5, 5, 2), rnd(rng, -5, 5, 2), 0.0]
    else:
        s["xyz"] = rng.choice([True, None])
        s["gravity"] = rng.choice([[0.0, -9.8, 0.0], [0.0, 0.0, 0.0], [1.5, -9.0, 0.0], [0.0, -9.8, 2.0] if three else [3.0, 4.0, 0.0]])
        if rng.random() < 0.3:
            s["gNorm"] = 3.3
            s["gAngle"] = 77.0
    s["ndThr"] = rng.choice([0.97, 0.9, 0.85, 1.05])
    s["dist"] = rng.random() < 0.5
    s["distThr"] = rng.choice([1.0, 0.5, 2.0])
    s["method"] = method or ("Implicit" if rng.random() < 0.6 else "Explicit")
    s["compress"] = rng.choice([0.45e-9, 0.45e-9, 1e-7])
    s["relax"] = rng.choice([0.2, 0.1, 1.0])
    s["soundSpeed"] = rng.choice([17.1, 10.0, 3.0]) * (l0 / 0.025) ** 0.5
    s["colRatio"] = rng.choice([0.5, 0.5, 0.8, 0.9])
    s["restitution"] = rng.choice([0.2, 0.0, 1.0, 0.5])
    s["rN"] = rng.choice([3.1, 2.1, 2.6, 4.0])
    s["rG"] = rng.choice([2.1, 3.1, 2.4])
    s["rL"] = rng.choice([3.1, 2.1, 3.6])
    if rng.random() < 0.3:   # anything between
        s["rN"], s["rG"], s["rL"] = [rnd(rng, 1.1, 4.0, 3) for _ in range(3)]
        s["colRatio"] = rnd(rng, 0.0, 1.3, 3)
        s["restitution"] = rnd(rng, 0.0, 1.0, 3)
        s["ndThr"] = rnd(rng, 0.4, 1.3, 3)
        s["distThr"] = rnd(rng, 0.0, 3.0, 3)
        s["relax"] = rnd(rng, 0.0, 1.0, 3)
        s["rho"] = rng.choice([rnd(rng, 0.5, 3000.0, 3), 1e-3, 7e5])
        if s.get("gAngle") is not None:
            s["gAngle"] = rnd(rng, -400, 400, 3)
    s["cfl"] = rng.choice([0.3, 0.05, 1.0, 0.2])
    s["cores"] = rng.choice([1, 4, 8])
    T0 = rng.choice([0.0, 0.0, 0.25, 1.5, 0.0625]) if t0 is None else t0
    s["end"] = T0 + (nsteps - 0.5) * s["dt"]
    s["period"] = s["dt"] * (0.7 if per_step else rng.choice([0.7, 1.5, 2.5, 3.3]))
    s["binary"] = binary
    f = fmtname or rng.choice(["prof", "csv", "vtu"])
    if rng.random() < 0.15:   # far from the origin
        off = [rng.choice([-1, 1]) * rng.choice([3, 20, 150]) * l0, rng.choice([-1, 1]) * rng.choice([3, 20, 150]) * l0, 0.0 if not three else rng.choice([0, -11, 40]) * l0]
        for x in pos + [s["dmin"], s["dmax"]]:
            for k in range(3):
                x[k] = float(x[k] + off[k])
    s["ppath"] = rng.choice(["./input." + f, "input." + f, "data/input." + f, "../parts/input." + f])
    c["s"] = s
    c["fmt"] = f
    c["t0"] = T0
    c["steps"] = nsteps
    c["type"] = typ
    c["pos"] = [[float(x) for x in p] for p in pos]
    c["vel"] = [[float(x) for x in p] for p in velo]
    if f != "prof" and ((rng.random() < 0.6) if fluids is None else fluids):
        kinds = [0, 1, 2, 3] if rng.random() < 0.75 else [0, 1, 5, 200, -1, 70000, 2 ** 31 - 1, -2 ** 31]
        c["fluid"] = [rng.choice(kinds) for _ in range(n)]
    else:
        c["fluid"] = None
    if f != "prof" and ((rng.random() < 0.4) if density is None else density):
        ds = [rng.choice([-1.0, 700.0, 1000.0, 1300.0]) for _ in range(4)]
        c["density"] = [ds[(c["fluid"][i] % 4 if c["fluid"] else i % 3)] for i in range(n)]
    else:
        c["density"] = None
    c["cols"] = None
    if f == "csv" and rng.random() < 0.5:
        cols = ["type", "x", "y", "z", "vx", "vy", "vz"] + (["fluidType"] if c["fluid"] else []) + (["density"] if c["density"] else [])
        rng.shuffle(cols)
        c["cols"] = cols
    c["extra"] = rng.random() < 0.6
    if rng.random() < 0.3:
        s["korder"] = rng.randint(1, 10 ** 6)
    if rng.random() < 0.3:  # longer than one buffer of the file streams
        s["pad"] = [[rng.randint(0, 27), rng.choice([200, 4000, 9000])] for _ in range(rng.randint(1, 3))]
    return c


def density(c):
    n = len(c["type"])
    d = np.full(n, float(c["s"]["rho"]))
    if c["density"]:
        e = np.array(c["density"], float)
        d = np.where(e < 0, d, e)
    return d


def particle_file(c):
    f = c["fmt"]
    if f == "prof":
        return fmt.write_prof(c["t0"], c["type"], c["pos"], c["vel"]) + b" \n" * c.get("tail", 0)
    if f == "csv":
        return fmt.write_csv(c["t0"], c["type"], c["pos"], c["vel"], c["fluid"], c["density"], c["cols"])
    return fmt.write_vtu(c["t0"], c["type"], c["pos"], c["vel"], c["fluid"], c["density"], extra=c["extra"]) + b" \n" * c.get("tail", 0)


def files(c, sdir="case", outdir="out"):
    import os
    pp = os.path.normpath(os.path.join(sdir, c["s"]["ppath"]))
    return {sdir + "/settings.yml": settings_text(c["s"]), pp: particle_file(c), outdir: None}


def ppath(c, sdir="case"):
    import os
    return os.path.normpath(os.path.join(sdir, c["s"]["ppath"]))


def base_plan(seed=1, sdir="case", outdir="out", cwd="."):
    import os
    rel = lambda p: os.path.relpath("/r/" + p, os.path.normpath("/r/" + cwd))
    return {"seed": seed, "cwd": cwd, "args": ["mps", "-s", rel(sdir + "/settings.yml"), "-o", rel(outdir)]}
