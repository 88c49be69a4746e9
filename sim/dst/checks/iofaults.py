import copy
import errno
import random
import re

from .. import fmt, world
from ..core import Check
from . import common as C

WERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES, errno.EROFS, errno.EMFILE, errno.ENOMEM, errno.EFBIG]
WCLS = ("ow", "wr", "cl", "mk", "cp", "ch", "sy", "tr", "rn", "ul", "sk")


def oplog(r):
    """[(index, class, path, len, ret)]"""
    p = r.res["paths"]
    return [(i, o[0], p[o[1]] if o[1] >= 0 else "?", o[2], o[3]) for i, o in enumerate(r.res["oplog"])]


def written(lg, k):
    """whether the file that operation k of the log closes had been opened for writing"""
    return next((o[0] for o in reversed(lg[:k]) if o[0] in ("ow", "or") and o[1] == lg[k][1]), "ow") == "ow"


class FaultCheck(Check):
    """enumerates faults of one run; a scenario without explicit plans derives them from the undisturbed run"""
    level = "fault_enumeration"
    variant = "mps"
    baseplan = {}

    def plans(self, rng, sc, base):
        raise NotImplementedError

    def one(self, sim, sc, v, f, base, p):
        raise NotImplementedError

    def judge(self, sim, sc, v):
        f = self.files(sc)
        var = sc.get("variant", self.variant)
        base = sim.run(var, dict(world.base_plan(), log=1, **dict(self.baseplan, **sc.get("bp", {}))), f)
        v.evals += 1
        self.bad = []
        if C.crashed(base) or not self.baseok(base):
            v.fail("baseline", "undisturbed run ends with %s" % base.brief())
            return
        ps = sc.get("plans")
        if ps is None:
            ps = self.plans(random.Random(sc["pseed"]), sc, base)
        for p in ps:
            n = len(v.bad)
            r = sim.run(var, dict(world.base_plan(), **dict(dict(self.baseplan, **sc.get("bp", {})), **p)), f)
            v.evals += 1
            self.one(sim, sc, v, f, base, p, r)
            if len(v.bad) > n:
                self.bad.append(p)
                if len(v.bad) > 20:
                    break

    def baseok(self, base):
        # a case that ends with an error of its own (a solver that fails, say) is as good a baseline
        return base.kind in ("exit", "abort")

    def files(self, sc):
        return world.files(sc["case"])

    def shrink(self, sc):
        bad = list(getattr(self, "bad", []))
        if "plans" not in sc:
            yield from C.shrink_case(sc)
            for p in bad[:4]:
                yield dict(sc, plans=[p])
            return
        p = sc["plans"][0]
        fs = p.get("faults", [])
        if len(fs) > 1:
            for x in fs:
                yield dict(sc, plans=[dict(p, faults=[x])])
            if len(fs) > 2:
                for x in fs:
                    yield dict(sc, plans=[dict(p, faults=[y for y in fs if y != x])])
        for k in ("shortio", "quota", "afault"):
            if k in p and (fs or k != "quota"):
                yield dict(sc, plans=[{a: b for a, b in p.items() if a != k}])
        yield from C.shrink_case(sc)


def describe(base, p):
    t = []
    lg = base.res.get("oplog", [])
    for f in p.get("faults", []):
        if f[0] < len(lg):
            o = lg[f[0]]
            t.append("%s(%d) at operation %d (%s %s)" % (f[1], f[2], f[0], o[0], base.res["paths"][o[1]] if o[1] >= 0 else "?"))
        else:
            t.append("%s(%d) at operation %d" % (f[1], f[2], f[0]))
    for k in ("quota", "afault", "killacc", "shortio"):
        if k in p:
            t.append("%s=%s" % (k, p[k]))
    return ", ".join(t)


class C04(FaultCheck):
    id = "C04"
    technique = "deterministic simulation: enumeration of write-side faults (every create/write/close/mkdir/copy operation x errno, full disk after n bytes), exit status and tree compared with the fault-free run"
    quick = 330
    thorough = 19800
    rule = ("one scenario = a random case; its fault-free run is logged, then one run per write-side operation (create, write, close, mkdir, in-kernel copy, "
            "mode change) with that operation failing once or from then on with a random errno, plus full disks after n bytes (also freed again later) and "
            "obstacles in the output directory; distinct = (operation class, file kind, fault kind, errno, outcome, position) with the fault actually fired")
    assumptions = ["a failing write leaves nothing of its data behind; a failing close leaves the data written before"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "xs", "s"]), steps=rng.randint(1, 3), binary=rng.random() < 0.5)
        if rng.random() < 0.35:   # blank lines at the end of the particle file
            case["tail"] = rng.choice([1, 200, 3000, 20000])
        return {"case": case, "pseed": rng.randint(1, 10 ** 9)}

    def plans(self, rng, sc, base):
        ps = []
        lg = [o for o in oplog(base) if o[1] in WCLS]
        wr = [o for o in lg if o[1] in ("wr", "cp")]
        keep = {o[0] for o in rng.sample(wr, min(len(wr), 60))}
        for o in lg:
            if o[1] in ("wr", "cp") and o[0] not in keep:
                continue
            ps.append({"faults": [[o[0], rng.choice(["err", "err", "perr"]), rng.choice(WERR)]]})
        # the last write and the close of every file, failing once and for good
        last = {}
        for o in lg:
            if o[1] in ("wr", "cp", "cl"):
                last[(o[1], o[2])] = o[0]
        for k in last.values():
            ps.append({"faults": [[k, "err", rng.choice(WERR)]]})
        tot = max(1, base.res["written"])
        inp = sum(len(x) for k, x in base.tree.items() if k.startswith("out/") and k.count("/") == 1)   # the copies of the input
        for _ in range(3):
            ps.append({"quota": [rng.randint(0, inp)]})
        for _ in range(8):
            q = rng.choice([0, 1, rng.randint(0, tot), rng.randint(0, tot), tot - 1])
            ps.append({"quota": [q] if rng.random() < 0.6 else [q, rng.randint(1, base.res["ops"])]})
        # several failures in one run, also together with reads that fail, split or interrupted operations and a full disk
        every = [o for o in oplog(base) if o[1] in WCLS + ("or", "rd", "st")]
        for _ in range(8):
            p = {"faults": sorted([o[0], "err", rng.choice(WERR)] for o in rng.sample(lg, min(len(lg), rng.randint(1, 3))) + rng.sample(every, min(len(every), rng.randint(0, 1))))}
            p["faults"] = [x for k, x in enumerate(p["faults"]) if k == 0 or x[0] != p["faults"][k - 1][0]]
            if rng.random() < 0.5:
                p.update(seed=rng.randint(1, 10 ** 6), shortio=[rng.choice([0, 300]), rng.choice([0, 300]), rng.choice([1, 64, 900])])
            if rng.random() < 0.3:
                p["quota"] = [rng.randint(0, tot), rng.randint(1, base.res["ops"])]
            ps.append(p)
        return ps

    def one(self, sim, sc, v, f, base, p, r):
        lg = base.res["oplog"]
        fired = sum(r.res["fired"].values())
        what = describe(base, p)
        if not fired:
            v.probe("not_fired")
        for x in p.get("faults", []):
            if x[0] < len(lg):
                v.probe("fault_on_" + lg[x[0]][0])
        key = tuple((lg[x[0]][0], kindof(base.res["paths"][lg[x[0]][1]]), x[1], x[2]) for x in p.get("faults", []) if x[0] < len(lg))
        if fired:
            v.sig(key, p.get("quota"), r.kind, r.code, r.res["ops"])
        if C.crashed(r):
            v.fail("crash", "%s: %s" % (what, r.brief()))
        if not r.ok:
            v.probe("ended_nonzero")
            return
        v.probe("ended_zero")
        if base.ok:
            d = C.diff_trees(base.tree, r.tree, "the fault-free run", "this run")
            if d:
                v.fail("silent", "exit status 0 after %s, but %s" % (what, d))
                return
        else:
            v.fail("silent", "exit status 0 after %s; the fault-free run ends with %s" % (what, base.brief()))
            return
        fs = p.get("faults", [])
        for x in fs if len(fs) == 1 and "shortio" not in p else []:   # otherwise the operations are not those of the fault-free run
            if x[0] < len(lg) and fired and x[1] in ("err", "perr"):
                o = lg[x[0]]
                path = base.res["paths"][o[1]] if o[1] >= 0 else "?"
                if o[0] == "cl" and path.startswith("out/") and x[2] in (5, 28, 122) and written(lg, x[0]):
                    v.fail("close", "exit status 0 although %s" % what)


def kindof(p):
    m = re.search(r"\.(\w+)$", p)
    return m.group(1) if m else p


class C05(FaultCheck):
    id = "C05"
    technique = "deterministic simulation: enumeration of read-side faults and of failing memory allocations, exit status and tree compared with the fault-free run"
    variants = ("mps", "omp")
    quick = 700
    thorough = 42000
    rule = ("one scenario = a random case; its fault-free run is logged, then one run per read-side operation (open, read, stat) failing once or for good, "
            "and runs in which the n-th memory allocation, or all from the n-th on, fail (n stratified over the whole run); distinct = (operation or "
            "allocation index, fault kind, outcome)")
    assumptions = ["a terminating signal (std::bad_alloc escaping, or a null result of malloc dereferenced) counts as a non-zero status"]

    def gen(self, rng, tier, i):
        omp = i % 6 == 0
        case = world.gen_case(rng, size=rng.choice(["xs", "xs", "s"]) if omp else rng.choice(["xs", "s", "s", "m"]), steps=rng.randint(1, 3), binary=rng.random() < 0.6)
        sc = {"case": case, "pseed": rng.randint(1, 10 ** 9)}
        if omp:  # every access to heap memory checked
            sc["variant"] = "omp"
        if rng.random() < 0.4:  # files arrive in pieces, so that a read can fail half way through them
            sc["bp"] = {"seed": rng.randint(1, 10 ** 6), "shortio": [1000, 0, rng.choice([64, 200, 900])]}
        return sc

    def plans(self, rng, sc, base):
        ps = []
        lg = [o for o in oplog(base) if o[1] in ("or", "rd", "st", "cl", "cp")]
        rd = [o for o in lg if o[1] == "rd"]
        keep = {o[0] for o in rng.sample(rd, min(len(rd), 40))}
        err = lambda: rng.choice([errno.EIO, errno.EIO, errno.EACCES, errno.EMFILE, errno.ESTALE])
        for o in lg:
            if o[1] == "rd" and o[0] not in keep:
                continue
            if o[1] == "cl" and o[2].startswith("out"):
                continue
            ps.append({"faults": [[o[0], rng.choice(["err", "err", "perr"]), err()]]})
        cnt = lambda: rng.choice([1, 1, 1, 2, 5, 10 ** 9])
        # allocations: by the place that asks for memory (its first, its last or some request in between), ...
        sites = base.res["sites"]
        for st in rng.sample(sites, min(len(sites), 50)):
            ps.append({"afault": [rng.choice(st[1:]), cnt()]})
        # ... and by position in the run
        n = base.res["allocs"]
        step = max(1, n // 20)
        off = rng.randint(0, step - 1)
        for k in range(off, n, step):
            ps.append({"afault": [k + rng.randint(0, step - 1), cnt()]})
        # several faults in one run
        for _ in range(6):
            p = {"faults": sorted([o[0], "err", err()] for o in rng.sample(lg, min(len(lg), rng.randint(1, 3))) if not (o[1] == "cl" and o[2].startswith("out")))}
            if rng.random() < 0.6 and sites:
                p["afault"] = [rng.choice(rng.choice(sites)[1:]), 1]
            ps.append(p)
        return ps

    def one(self, sim, sc, v, f, base, p, r):
        what = describe(base, p)
        fired = sum(r.res["fired"].values())
        if fired:
            v.sig(tuple(map(tuple, p.get("faults", []))), tuple(p.get("afault", [])), r.kind, r.code, r.res["hash"])
            v.probe("alloc_fault" if "afault" in p else "read_fault")
        if r.kind in ("badmem", "deadlock", "budget", "hang", "fpe"):
            v.fail("crash", "%s: %s" % (what, r.brief()))
            return
        if r.ok and base.ok:
            v.probe("ended_zero")
            d = C.diff_trees(base.tree, r.tree, "the fault-free run", "this run")
            if d:
                v.fail("silent", "exit status 0 after %s, but %s" % (what, d))
        elif r.ok:
            v.fail("silent", "exit status 0 after %s; the fault-free run ends with %s" % (what, base.brief()))
        else:
            v.probe("ended_nonzero")
            bs, rs = C.snaps(base), C.snaps(r)
            top = max(rs) if rs else -1
            for k in sorted(rs):
                if k == top:
                    continue
                for fm in ("prof", "vtu", "csv"):
                    if rs[k].get(fm) != bs.get(k, {}).get(fm):
                        v.fail("snapshot", "%s, then %s: completed snapshot %d (%s) is missing or differs from the fault-free one" % (what, r.brief(), k, fm))
                        return


OUT = re.compile(rb"out=(\d+)files[^\n]*\n")


class C06(FaultCheck):
    id = "C06"
    technique = "deterministic simulation: kill at every I/O operation (before, after, torn) and at random memory accesses between them, surviving files compared with the uninterrupted run"
    variants = ("mps", "omp")
    baseplan = {"tty": 1}
    quick = 390
    thorough = 23400
    rule = ("one scenario = a random case; its undisturbed run is logged, then one run per I/O operation killed before it, after it or, for writes, after a random "
            "part of the data has reached the disk, plus kills at random memory accesses during computation; distinct = (kill point, set of surviving snapshot files)")
    assumptions = ["a killed process loses what it has not yet handed to the kernel, and nothing else (no power failure)"]

    def gen(self, rng, tier, i):
        omp = i % 8 == 0
        case = world.gen_case(rng, size="xs" if omp else rng.choice(["xs", "xs", "s"]), steps=rng.randint(1, 4), binary=rng.random() < 0.5, per_step=rng.random() < 0.6)
        return {"case": case, "pseed": rng.randint(1, 10 ** 9), "variant": "omp" if omp else "mps", "bp": {"threads": rng.choice([1, 3]), "smode": 1} if omp else {}}

    def plans(self, rng, sc, base):
        ps = []
        lg = oplog(base)
        wr = [o for o in lg if o[1] in ("wr", "rd", "cp")]
        keep = {o[0] for o in rng.sample(wr, min(len(wr), 60 if sc.get("variant") != "omp" else 10))}
        for o in lg:
            if o[1] in ("wr", "rd", "cp") and o[0] not in keep:
                continue
            if o[1] in ("wr", "cp") and o[3] > 0 and rng.random() < 0.5:
                ps.append({"faults": [[o[0], "torn", rng.randint(0, o[3])]]})
            else:
                ps.append({"faults": [[o[0], rng.choice(["kill", "killafter"]), 0]]})
        if base.res["accs"]:
            for _ in range(10):
                ps.append({"killacc": rng.randint(1, base.res["accs"])})
        return ps

    def one(self, sim, sc, v, f, base, p, r):
        what = describe(base, p)
        if r.kind != "killed":
            if r.kind not in ("exit", "abort") or (r.kind, r.code) != (base.kind, base.code):
                v.fail("crash", "%s: %s" % (what, r.brief()))
            return
        bs, rs = C.snaps(base), C.snaps(r)
        v.sig(sorted(p.items(), key=str) if "killacc" in p else p["faults"], sorted((k, sorted(x)) for k, x in rs.items()))
        top = max(rs) if rs else -1
        v.probe("kills_with_%d_snapshots" % len(rs))
        if top >= 0 and top not in bs:
            v.fail("extra", "killed at %s: snapshot %d exists, which the uninterrupted run does not write" % (what, top))
            return
        for k in range(top + 1):
            done = rs.get(k, {})
            for fm in ("prof", "vtu", "csv"):
                b = bs[k].get(fm) if k in bs else None
                x = done.get(fm)
                if k < top and x is None:
                    v.fail("hole", "killed at %s: snapshot %d has no %s file although snapshot %d exists" % (what, k, fm, top))
                    return
                if x is None or x == b:
                    continue
                if k < top:
                    v.fail("torn", "killed at %s: %s file of snapshot %d is not that of the uninterrupted run (%d of %d bytes) although snapshot %d exists" %
                           (what, fm, k, len(x), len(b or b""), top))
                    return
        m = OUT.findall(r.out)
        if m:
            c = int(m[-1])
            v.probe("kills_after_report")
            for k in range(c):
                for fm in ("prof", "vtu", "csv"):
                    if rs.get(k, {}).get(fm) != bs[k].get(fm):
                        v.fail("report", "killed at %s: the console says out=%dfiles, but the %s file of snapshot %d is missing or incomplete" % (what, c, fm, k))
                        return
