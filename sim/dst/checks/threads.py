import copy

from .. import world
from ..core import Check
from . import common as C


class C01(Check):
    id = "C01"
    variants = ("omp",)
    quick = 1500
    thorough = 90000
    technique = "deterministic simulation: seeded thread scheduler with preemption at every memory access, vector-clock-free race check, output diff against the one-thread run"
    rule = ("one scenario = a random case (2D/3D, walls, ghosts, leaving particles, Implicit/Explicit, all input formats) run once with one thread and "
            "several times with 2-8 simulated threads (random order / random preemption / PCT change points / team size varying from region to region); "
            "distinct = distinct hash of the sequence of scheduling decisions; runs without a parallel region do not count")
    stub = Check.stub + ["libgomp: own implementation, real pthreads released one at a time by the seeded scheduler"]
    assumptions = ["the compiler instruments every memory access of the program's own code (-fsanitize=thread at -O1); preemption happens between, not inside, "
                   "instrumented accesses; sequentially consistent memory"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "s", "s", "m"]), steps=rng.randint(1, 3), binary=rng.random() < 0.7)
        return {"case": case, "plans": [C.sched_plan(rng) for _ in range(3 if tier == "quick" else 5)]}

    def judge(self, sim, sc, v):
        f = world.files(sc["case"])
        base = sim.run("omp", dict(world.base_plan(), threads=1), f)
        v.evals += 1
        if C.crashed(base):
            v.fail("crash", "one-thread run ends with %s" % base.brief())
            return
        for p in sc["plans"]:
            r = sim.run("omp", dict(world.base_plan(), **p), f)
            v.evals += 1
            if r.res["regions"]:
                v.sig(r.res["schash"])
            if r.res["preempts"]:
                v.probe("runs_with_preemption")
            if r.res["nraces"]:
                x = r.res["races"][0]
                v.fail("race", "unsynchronised %s/%s of the same memory by threads %d and %d in parallel region %d (%d reports), pc %s %s; threads=%d" %
                       ("write" if x[2] else "read", "write" if x[3] else "read", x[0], x[1], x[6], r.res["nraces"], where(sim, x[4]), where(sim, x[5]), p["threads"]))
            if (r.kind, r.code) != (base.kind, base.code):
                v.fail("status", "one thread: %s; %d threads: %s" % (base.brief(), p["threads"], r.brief()))
                continue
            d = C.diff_trees(base.tree, r.tree, "one thread", "%d threads" % p["threads"])
            if d:
                v.fail("output", "%d threads: %s" % (p["threads"], d))

    def shrink(self, sc):
        if len(sc["plans"]) > 1:
            for p in sc["plans"]:
                yield {"case": sc["case"], "plans": [p]}
            return
        p = sc["plans"][0]
        for t in (2, 3):
            if t < p["threads"]:
                d = copy.deepcopy(sc)
                d["plans"][0]["threads"] = t
                yield d
        for k in ("teamvary",):
            if k in p:
                d = copy.deepcopy(sc)
                del d["plans"][0][k]
                yield d
        if p["smode"] != 1:
            d = copy.deepcopy(sc)
            d["plans"][0] = {"threads": p["threads"], "smode": 1, "seed": p["seed"]}
            yield d
        yield from C.shrink_case(sc)
        if p["smode"] in (2, 3):
            d = explicit(self, sc)
            if d:
                yield d
        if p["smode"] == 4:
            yield from C.shrink_list(sc, ("plans", 0, "sw"))


_SIM = {}


def explicit(check, sc):
    """the same run with its scheduling decisions written out"""
    from .. import build, runner
    if "sim" not in _SIM:
        _SIM["sim"] = runner.Sim(build.build(("omp",)))
        import atexit
        atexit.register(_SIM["sim"].close)
    p = sc["plans"][0]
    if p.get("teamvary"):
        return None
    r = _SIM["sim"].run("omp", dict(world.base_plan(), slog=1, **p), world.files(sc["case"]))
    sw = r.res.get("sched", [])
    if not sw or len(sw) > 4000:
        return None
    return {"case": sc["case"], "plans": [{"threads": p["threads"], "smode": 4, "seed": p["seed"], "sw": sw}]}


_loc = {}


def where(sim, pc):
    import subprocess
    b = sim.bins["omp"]
    if (b, pc) not in _loc:
        try:
            o = subprocess.run(["addr2line", "-s", "-e", b, "0x%x" % (pc - 1)], stdout=subprocess.PIPE).stdout.decode().strip()
        except OSError:
            o = "?"
        _loc[(b, pc)] = o.split(" ")[0]
    return _loc[(b, pc)]
