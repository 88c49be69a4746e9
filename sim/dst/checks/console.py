import errno
import random

from .. import world
from ..core import Check
from . import common as C
from . import generators as G

CERR = [errno.ENOSPC, errno.EIO, errno.EPIPE, errno.EAGAIN, errno.EBADF, errno.EFBIG, errno.EDQUOT]
EN = {getattr(errno, "E" + k): "E" + k for k in ("NOSPC", "IO", "PIPE", "AGAIN", "BADF", "FBIG", "DQUOT")}


def tell(p):
    n, k, a = p["cfaults"][0]
    s = ["the console", "standard output", "standard error"][p.get("cstream", 0)]
    if k == "stall":
        return "%s blocks for %.3g s at its write %d" % (s, a * 1e-9, n)
    if k == "eintr":
        return "write %d to the console is interrupted" % n
    if k == "kill":
        return "a broken pipe ends the process at its write %d to the console" % n
    return "%s fails with %s %s write %d%s" % (s, EN[a], "from" if k == "perr" else "at", n, " (a terminal)" if p.get("tty") else "")


class C29(Check):
    id = "C29"
    technique = ("deterministic simulation with faults injected into the writes to standard output and standard error (once or for good, of one stream or both, stalls, "
                 "interruptions), complete trees compared with those of the same run with a working console")
    variants = ("mps", "omp", "dambreak", "hydrostatic")
    quick = 2600
    thorough = 156000
    rule = ("one scenario = a random case (a tenth: a refused one; a fifth: a generator and its answers) run with a working console and then with five kinds of console "
            "trouble; distinct = (case, fault, number of console writes); a run counts only if a console write failed or was delayed")

    def gen(self, rng, tier, i):
        sc = {"pl": [], "variant": rng.choice(["mps", "mps", "mps", "omp"])}
        if i % 5 == 4:
            sc["g"] = rng.choice(["dambreak", "hydrostatic"])
            sc["pre"] = rng.choice([[], ["prof"], ["vtu"], ["prof", "vtu"], ["prof", "vtu"]])
            sc["text"] = "".join(rng.choice(["x\n", "\n", "yes\n", "no\n", "? \n"]) for _ in range(rng.randint(0, 3))) + rng.choice(["y\n", "Y\n", "n\n", "N\n", ""])
        else:
            sc["case"] = world.gen_case(rng, size=rng.choice(["xs", "xs", "s", "m"]), steps=rng.randint(1, 12), binary=rng.random() < 0.5, per_step=rng.random() < 0.5)
            if rng.random() < 0.25:
                sc["case"]["s"]["cfl"] = rng.choice([0.0, 1e-6])
            if i % 31 == 7 and len(sc["case"]["type"]) <= 60:
                C.set_steps(sc["case"], rng.randint(60, 250))
            if rng.random() < 0.12:
                sc["bad"] = rng.choice(["particles", "conflict", "settings", "outdir"])
        for _ in range(5):
            k = rng.choice(["perr", "perr", "perr", "err", "err", "eintr", "stall", "kill"])
            p = {"at": rng.choice([0.0, 0.0, rng.random(), rng.random(), rng.random() ** 3, 1.0]), "kind": k, "stream": rng.choice([0, 0, 1, 1, 2, 2])}
            if k in ("perr", "err"):
                p["arg"] = rng.choice(CERR)
            elif k == "stall":
                p["arg"] = rng.choice([10 ** 6, 10 ** 9, 3600 * 10 ** 9, 86400 * 10 ** 9 * 400])
            if rng.random() < 0.5:
                p["tty"] = 1
            if rng.random() < 0.2:
                p["shortio"] = [500, 50, 100]
            sc["pl"].append(p)
        return sc

    def judge(self, sim, sc, v):
        if "g" in sc:
            var, bp = sc["g"], G.gplan(sc["g"], stdin=sc["text"])
            d = G.gdir(sc["g"])
            f = {"work": None}
            f.update({d + "/input." + e: b"old " + e.encode() for e in sc["pre"]})
        else:
            var, bp = sc["variant"], world.base_plan()
            f = world.files(sc["case"])
            b = sc.get("bad")
            if b == "particles":
                k = world.ppath(sc["case"])
                f[k] = f[k][:len(f[k]) // 2]
            elif b == "conflict":
                f["out/settings.yml"] = b"mine\n"
            elif b == "settings":
                f["case/settings.yml"] = f["case/settings.yml"].replace(b"dt:", b"td:")
            elif b == "outdir":
                f.pop("out", None)
        bp = dict(bp, hang=8)
        for tty in sorted({p.get("tty", 0) for p in sc["pl"]}):
            base = sim.run(var, dict(bp, tty=tty), f)
            v.evals += 1
            if C.crashed(base):
                v.fail("crash", "plain run ends with %s" % base.brief())
                return
            n = base.res["cops"]
            for q in sc["pl"]:
                if q.get("tty", 0) != tty:
                    continue
                p = dict(bp, tty=tty, cfaults=[[min(int(q["at"] * n), max(n - 1, 0)), q["kind"], q.get("arg", 0)]], cstream=q["stream"])
                if "shortio" in q:
                    p["shortio"] = q["shortio"]
                r = sim.run(var, p, f)
                v.evals += 1
                fired = sum(r.res["fired"][k] for k in ("err", "perr", "eintr", "stall", "kill"))
                if fired:
                    v.sig(p["cfaults"], p["cstream"], tty, n, C.sha(repr(sorted(f.items(), key=str)).encode()))
                    v.probe("%s_stream_%d" % (q["kind"], q["stream"]))
                if base.ok and "case" in sc:
                    v.probe("runs_of_%s_steps" % ("many" if sc["case"]["steps"] > 12 else "few"))
                what = tell(p)
                if "g" in sc:
                    what = "generate_%s, %s there, input %r: %s" % (sc["g"], sc["pre"], sc["text"], what)
                if C.crashed(r):
                    v.fail("crash", "%s: %s" % (what, r.brief()))
                    return
                if r.kind == "killed":
                    self.prefix(base, r, what, "g" in sc, v)
                    if v.bad:
                        return
                    continue
                d = C.diff_trees(base.tree, r.tree, "with a working console", "this run")
                if d:
                    v.fail("output", "%s (%s): %s" % (what, r.brief(), d))
                    return
                if r.ok and not base.ok:
                    v.fail("status", "%s: exit status 0, with a working console %s" % (what, base.brief()))
                    return
                if q["kind"] in ("stall", "eintr") and base.ok and not r.ok:
                    v.fail("status", "%s: %s" % (what, r.brief()))
                    return

    def prefix(self, base, r, what, gen, v):
        """ended by SIGPIPE: what is there is what the undisturbed run had written by then"""
        for k in sorted(r.tree):
            if k not in base.tree:
                v.fail("output", "%s: %s exists, which a run with a working console does not write" % (what, k))
                return
        if not gen:
            bs, rs = C.snaps(base), C.snaps(r)
            for k in sorted(rs)[:-1]:
                if rs[k] != bs.get(k):
                    v.fail("output", "%s: snapshot %d is not that of a run with a working console" % (what, k))
                    return

    def shrink(self, sc):
        if len(sc["pl"]) > 1:
            for p in sc["pl"]:
                yield dict(sc, pl=[p])
            return
        p = sc["pl"][0]
        for k in ("tty", "shortio"):
            if k in p:
                yield dict(sc, pl=[{a: x for a, x in p.items() if a != k}])
        if p["at"]:
            yield dict(sc, pl=[dict(p, at=0.0)])
        if "case" in sc:
            yield from C.shrink_case(sc)
        elif sc["pre"]:
            yield from C.shrink_list(sc, ["pre"])
