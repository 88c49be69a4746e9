import copy
import random

import numpy as np

from .. import fmt, world
from ..core import Check
from . import common as C
from . import iofaults as IO

REAL = ["generator/ and the particle and exporter sources of src/ (unmodified objects built from the working tree)"]


def gdir(g):
    return "work/input/" + g


def gplan(g, **kw):
    return dict({"seed": 1, "cwd": "work", "args": ["generate_" + g]}, **kw)


def answers(text):
    """(decision, certain): the first answer that is y or n. The last one is uncertain when its line is not complete."""
    toks = text.split()
    done = text[-1:] in ("\n", " ", "\t", "\r") if text else True
    for i, t in enumerate(toks):
        sure = done or i < len(toks) - 1
        if t in ("y", "Y"):
            return "y", sure
        if t in ("n", "N"):
            return "n", sure
    return None, done


JUNK = ["yes", "no", "Yes", "NO", "maybe", "1", "0", "yy", "nn", "Yn", "ny", "yn", "-y", "y.", "n,", "q", "\x1b[A", "\u00fd", "Q" * 300, "true", "ok", "?", "'y'", "y/n", "Ny"]


class C19(Check):
    id = "C19"
    technique = ("deterministic simulation: scripted standard input (answers, chunking, end of input, read errors) and faults or kills at I/O operations of the generators, "
                 "files before and after compared")
    variants = ("dambreak", "hydrostatic")
    quick = 1800
    thorough = 108000
    real = REAL
    rule = ("one scenario = a generator, a set of files already in its directory and a script of answers, run with several splittings of the input and with faults at its I/O "
            "operations; distinct = (generator, files there, answers, splitting, fault)")
    assumptions = ["an answer cut off by the end of the input before its line is complete may count as given or not"]

    def gen(self, rng, tier, i):
        g = rng.choice(self.variants)
        pre = rng.choice([[], ["prof"], ["vtu"], ["prof", "vtu"], ["prof", "vtu"], ["csv"], ["prof", "vtu", "csv"]])
        k = rng.choice([0, 0, 1, 1, 2, 3, 8])
        toks = [rng.choice(JUNK) for _ in range(k)]
        end = rng.choice(["y", "Y", "n", "N", None, None, "y!", "n!"])
        sep = rng.choice(["\n", "\n", "\n", "\n\n", " \n", "\r\n", "\n\t"])
        t = "".join(x + sep for x in toks)
        if end:
            t = (rng.choice(["", "", "\n", "  ", "\t"]) + t + end[0] + ("" if end.endswith("!") else sep))
        if rng.random() < 0.2:
            t += rng.choice(["y\n", "n\n", "junk\n", "y"])
        sc = {"g": g, "pre": pre, "dir": bool(pre) or rng.random() < 0.5, "text": t, "kind": rng.choice(["file", "file", "file", "empty", "link", "readonly"]),
              "runs": []}
        for _ in range(3):
            p = {"seed": rng.randint(1, 10 ** 6)}
            m = rng.randint(0, 3)
            if m == 1:
                p["inchunks"] = [1] * min(len(t.encode()), 400)
            elif m == 2:
                p["inchunks"] = [rng.randint(1, 5) for _ in range(30)]
            if rng.random() < 0.3:
                p["inerr"] = 1
            if rng.random() < 0.5:
                p["memfill"] = rng.randint(1, 4)
            if rng.random() < 0.2:
                p["shortio"] = [700, 100, 100]
            sc["runs"].append(p)
        sc["faults"] = [[rng.random(), rng.choice(["err", "perr", "kill", "killafter"]), rng.choice(IO.WERR)] for _ in range(5)]
        sc["af"] = rng.random()
        return sc

    def files(self, sc):
        d = gdir(sc["g"])
        f = {"work": None, "outside/input.prof": b"x\n", "outside/big": b"old " * 300}
        if sc["dir"]:
            f[d + "/settings.yml"] = b"dim: 2\n"
            f[d + "/notes"] = b"n\n"
            f["work/input/other/input.prof"] = b"other\n"
        for e in sc["pre"]:
            f[d + "/input." + e] = {"empty": b"", "link": ("link", "../../../outside/big")}.get(sc["kind"], b"old %s\n" % e.encode())
        return f

    def judge(self, sim, sc, v):
        f = self.files(sc)
        g = sc["g"]
        d = gdir(g)
        asked = any(e in ("prof", "vtu") for e in sc["pre"])
        dec, sure = answers(sc["text"])
        self.bad = []
        sim.wipe()
        sim.put(f)
        start = sim.tree()
        fresh = self.fresh(sim, g)
        logged = None
        for p in sc["runs"]:
            q = gplan(g, stdin=sc["text"], log=1, **p)
            r = sim.run(g, q, f)
            v.evals += 1
            logged = logged or r
            v.sig(g, sc["pre"], sc["dir"], sc["text"], p.get("inchunks"), p.get("inerr"), sc["kind"])
            what = "generate_%s, %s there, input %r%s" % (g, sc["pre"], sc["text"][:60], " then a read error" if p.get("inerr") else "")
            if not self.ends(r, what, v):
                self.bad.append(p)
                return
            new = r.tree
            changed = [k for k in start if new.get(k) != start[k]]
            if asked:
                v.probe("asked_" + (dec or "end") + ("" if sure else "_cut"))
            else:
                v.probe("not_asked")
            if asked and (dec != "y"):
                if changed:
                    v.fail("overwritten", "%s: %s was %s without consent" % (what, changed[0], "altered" if changed[0] in new else "removed"))
                elif [k for k in new if k not in start]:
                    v.fail("written", "%s: %s was created without consent" % (what, [k for k in new if k not in start][0]))
            elif asked and not sure:
                pass  # either way
            else:
                want = {"input.prof", "input.vtu"}
                other = [k for k in changed if k.split("/")[-1] not in want and not k.startswith("outside/big")]
                extra = [k for k in new if k not in start and k.rstrip("/") not in ("work/input", d) and not (k.startswith(d + "/") and k.split("/")[-1] in want)]
                if other or extra:
                    v.fail("other", "%s: %s was altered or created" % (what, (other + extra)[0]))
                elif not r.ok:
                    v.fail("status", "%s: %s" % (what, r.brief()))
                elif sc["kind"] != "link":
                    for k in want:
                        if new.get(d + "/" + k) != fresh.get(k):
                            v.fail("content", "%s: %s is not what a generator writes into an empty directory" % (what, k))
                            break
            if v.bad:
                self.bad.append(p)
                return
        # faults
        if logged is None:
            return
        n = logged.res["ops"]
        fl = sc["faults"] + [["a", 0, 0]] if sc["af"] < 0.5 else sc["faults"]
        for x in fl:
            p = {"afault": [int(sc["af"] * logged.res["allocs"]), 1]} if x[0] == "a" else {"faults": [[int(x[0] * n), x[1], x[2] if x[1] in ("err", "perr") else 0]]}
            r = sim.run(g, gplan(g, stdin=sc["text"], **p), f)
            v.evals += 1
            v.sig(g, sc["pre"], sc["text"], sorted(p.items(), key=str), r.kind, r.code)
            what = "generate_%s, %s there, input %r, %s" % (g, sc["pre"], sc["text"][:60], IO.describe(logged, p))
            if not self.ends(r, what, v):
                return
            changed = [k for k in start if r.tree.get(k) != start[k]]
            if asked and dec != "y" and changed:
                v.fail("overwritten", "%s: %s was altered without consent" % (what, changed[0]))
                return
            other = [k for k in changed if k.split("/")[-1] not in ("input.prof", "input.vtu") and k != "outside/big"]
            if other:
                v.fail("other", "%s: %s was altered" % (what, other[0]))
                return

    def fresh(self, sim, g):
        if not hasattr(self, "_fresh"):
            self._fresh = {}
        if g not in self._fresh:
            r = sim.run(g, gplan(g), {"work": None})
            sim.hist.pop()  # not part of the scenario
            self._fresh[g] = {k.split("/")[-1]: x for k, x in r.tree.items() if k.startswith(gdir(g) + "/")}
        return self._fresh[g]

    def ends(self, r, what, v):
        if r.kind in ("budget", "hang", "deadlock"):
            v.fail("endless", "%s: the generator does not end (%s)" % (what, r.kind))
            return False
        if r.kind in ("badmem", "fpe", "bus", "ill"):
            v.fail("crash", "%s: %s" % (what, r.brief()))
            return False
        if r.res["escapes"]:
            v.fail("outside", "%s: writes outside: %s" % (what, r.res["escape"]))
            return False
        return True

    def shrink(self, sc):
        if len(sc["runs"]) > 1:
            for p in getattr(self, "bad", [])[:2]:
                yield dict(sc, runs=[p], faults=[], af=1.0)
        elif sc["faults"]:
            for x in sc["faults"]:
                yield dict(sc, faults=[x], af=1.0)
        t = sc["text"]
        parts = t.split("\n")
        for i in range(len(parts)):
            u = "\n".join(parts[:i] + parts[i + 1:])
            if u != t:
                yield dict(sc, text=u)
        if sc["runs"] and len(sc["runs"]) == 1 and len(sc["runs"][0]) > 1:
            yield dict(sc, runs=[{"seed": 1}])


class C20(IO.FaultCheck):
    id = "C20"
    technique = ("deterministic simulation: enumeration of write-side faults, full disks and kills in the generators, followed by further runs and by simulations that start from what "
                 "was generated")
    variants = ("dambreak", "hydrostatic", "mps")
    level = "fault_enumeration"
    quick = 270
    thorough = 16200
    real = REAL + ["all of src/ for the runs that start from the generated files"]
    rule = ("one scenario = a generator in an empty, partly filled or previously interrupted directory, run undisturbed and then with faults at its write-side operations; both files "
            "parsed strictly and compared, and given to mps; distinct = (generator, files there, fault, operation, outcome)")
    assumptions = ["values agree when they are equal to the six digits printed"]

    def gen(self, rng, tier, i):
        g = rng.choice(["dambreak", "hydrostatic"])
        return {"g": g, "pre": rng.choice([None, None, [], ["prof"], ["prof", "vtu"]]), "old": rng.choice(["short", "long", "empty"]), "pseed": rng.randint(1, 10 ** 9),
                "method": rng.choice(["Explicit", "Implicit"]), "use": rng.choice(["prof", "vtu"]), "steps": rng.choice([0, 0, 0, 1])}

    def judge(self, sim, sc, v):
        g = sc["g"]
        d = gdir(g)
        rng = random.Random(sc["pseed"])
        f = {"work": None}
        text = ""
        if sc["pre"] is not None:
            f[d] = None
            for e in sc["pre"]:
                f[d + "/input." + e] = {"short": b"old\n", "long": b"0 0 0 0 0 0 0\n" * 20000, "empty": b""}[sc["old"]]
            if sc["pre"]:
                text = "y\n"
        self.bad = []
        base = sim.run(g, gplan(g, stdin=text, log=1), f)
        v.evals += 1
        v.sig(g, sc["pre"], sc["old"], "base")
        if not base.ok:
            v.fail("status", "generate_%s ends with %s" % (g, base.brief()))
            return
        good = self.check(base, g, v, "generate_%s" % g)
        if good is None:
            return
        ref = self.reference(sim, g)
        for k in ("input.prof", "input.vtu"):
            if base.tree[d + "/" + k] != ref[k]:
                v.fail("repeat", "generate_%s writes another %s than in an empty directory at another time" % (g, k))
                return
        plans = sc.get("plans")
        if plans is None:
            plans = []
            lg = IO.oplog(base)
            w = [o for o in lg if o[1] in IO.WCLS]
            rare = [o for o in w if o[1] != "wr"]
            w1 = [o for o in w if o[1] == "wr"]
            for o in rare + rng.sample(w1, min(len(w1), 8)):
                k = rng.choice(["err", "err", "perr", "kill", "killafter", "torn"])
                if k == "torn" and not (o[1] == "wr" and o[3] > 0):
                    k = "kill"
                plans.append({"faults": [[o[0], k, rng.choice(IO.WERR) if k in ("err", "perr") else rng.randint(0, o[3]) if k == "torn" else 0]]})
            last = {}
            for o in w:
                if o[1] in ("wr", "cl"):
                    last[(o[1], o[2])] = o[0]
            for x in last.values():
                plans.append({"faults": [[x, "err", rng.choice(IO.WERR)]]})
            for _ in range(4):
                tot = max(1, base.res["written"])
                plans.append({"quota": [rng.choice([0, rng.randint(0, tot), tot - 1])]})
            for _ in range(3):
                plans.append({"afault": [rng.randint(0, base.res["allocs"]), rng.choice([1, 1, 3, 10 ** 9])]})
            for _ in range(2):
                plans.append({"seed": rng.randint(1, 10 ** 6), "memfill": rng.randint(1, 4), "clock": rng.randint(0, 5), "shortio": [800, 100, rng.choice([1, 50, 1000])]})
        for p in plans:
            r = sim.run(g, dict(gplan(g, stdin=text), **p), f)
            v.evals += 1
            what = "generate_%s, %s" % (g, IO.describe(base, p))
            lg = base.res["oplog"]
            v.sig(g, sc["pre"], [(lg[x[0]][0], base.res["paths"][lg[x[0]][1]], x[0], x[1], x[2]) for x in p.get("faults", []) if x[0] < len(lg)], p.get("quota"), p.get("afault"),
                  r.kind, r.code)
            n = len(v.bad)
            if r.kind in ("badmem", "deadlock", "budget", "hang", "fpe"):
                v.fail("crash", "%s: %s" % (what, r.brief()))
            elif r.ok:
                v.probe("ended_zero")
                for k in ("input.prof", "input.vtu"):
                    if r.tree.get(d + "/" + k) != ref[k]:
                        v.fail("silent", "exit status 0 after %s, but %s is %s" % (what, k, "missing" if d + "/" + k not in r.tree else "not complete or different"))
                        break
                else:
                    lost = [x for x in p.get("faults", []) if x[0] < len(lg) and x[1] in ("err", "perr") and lg[x[0]][0] == "cl" and x[2] in (5, 28, 122)
                            and "/input." in base.res["paths"][lg[x[0]][1]] and lg[x[0]][2]]
                    if lost and sum(r.res["fired"].values()):
                        v.fail("close", "exit status 0 although %s" % what)
            else:
                v.probe("ended_" + r.kind)
                # whatever is left, the next run with consent repairs it
                t = dict(r.tree)
                nf = {k: (None if k.endswith("/") else x) for k, x in t.items()}
                q = sim.run(g, gplan(g, stdin="y\n"), {k.rstrip("/"): x for k, x in nf.items()})
                v.evals += 1
                v.probe("reruns_after_failure")
                if not q.ok or any(q.tree.get(d + "/" + k) != ref[k] for k in ("input.prof", "input.vtu")):
                    v.fail("rerun", "%s; the next run ends with %s and does not leave complete files" % (what, q.brief()))
            if len(v.bad) > n:
                self.bad.append(p)
                return
        self.use(sim, sc, v, good)

    def reference(self, sim, g):
        if not hasattr(self, "_ref"):
            self._ref = {}
        if g not in self._ref:
            r = sim.run(g, gplan(g, seed=99, clock=3, clockbase=10 ** 9), {"work": None})
            sim.hist.pop()
            self._ref[g] = {k: r.tree.get(gdir(g) + "/" + k, b"") for k in ("input.prof", "input.vtu")}
        return self._ref[g]

    def check(self, r, g, v, what):
        d = gdir(g)
        try:
            p = fmt.parse_prof(r.tree[d + "/input.prof"])
            u = fmt.parse_vtu(r.tree[d + "/input.vtu"])
        except KeyError as e:
            v.fail("missing", "%s: exit status 0 without %s" % (what, e))
            return None
        except (fmt.Bad, ValueError, UnicodeDecodeError) as e:
            v.fail("malformed", "%s: %s" % (what, e))
            return None
        if p["n"] != u["n"] or p["n"] == 0:
            v.fail("differ", "%s: %d particles in the prof file, %d in the vtu file" % (what, p["n"], u["n"]))
            return None
        if len(np.unique(p["pos"], axis=0)) != p["n"]:
            x, k = np.unique(p["pos"], axis=0, return_counts=True)
            v.fail("coincide", "%s: %d particles at %s" % (what, k.max(), list(x[k.argmax()])))
            return None
        if p["time"] != 0 or u["time"] != 0:
            v.fail("time", "%s: time %g in the prof file, %g in the vtu file" % (what, p["time"], u["time"]))
            return None
        for k in ("pos", "vel", "type"):
            a, b = p[k], u[k]
            bad = ~((np.abs(a - b) <= 1.01e-5 * np.maximum(np.abs(a), np.abs(b)) + 1e-300) if k != "type" else a == b).reshape(p["n"], -1).all(1)
            if bad.any():
                i = int(np.where(bad)[0][0])
                v.fail("differ", "%s: particle %d has %s %s in the prof file, %s in the vtu file" % (what, i, k, a[i], b[i]))
                return None
        return {"prof": (p, r.tree[d + "/input.prof"]), "vtu": (u, r.tree[d + "/input.vtu"])}

    def use(self, sim, sc, v, good):
        st, data = good[sc["use"]]
        lo, hi = st["pos"].min(0) - 0.1, st["pos"].max(0) + 0.1
        l0 = {"dambreak": 0.025, "hydrostatic": 0.012}[sc["g"]]
        s = {"dim": 2, "l0": l0, "dt": 5e-4, "end": 4e-4 * sc["steps"], "period": 1e-4, "cfl": 0.3, "dmin": list(lo[:2]) + [0.0], "dmax": list(hi[:2]) + [0.0], "rho": 1000.0,
             "viscosity": 1e-6, "xyz": None, "gravity": [0.0, -9.8, 0.0], "ndThr": 0.97, "dist": False, "distThr": 0.85, "method": sc["method"], "compress": 0.45e-9, "relax": 0.2,
             "soundSpeed": 17.1, "colRatio": 0.5, "restitution": 0.2, "rN": 3.1, "rG": 2.1, "rL": 3.1, "ppath": "./input." + sc["use"], "binary": True}
        f = {"case/settings.yml": world.yaml_text(world.yaml_items(s)), "case/input." + sc["use"]: data, "out": None}
        r = sim.run("mps", world.base_plan(), f)
        v.evals += 1
        sn = C.snaps(r)
        v.probe("simulations_started_from_" + sc["use"])
        if not r.ok or 0 not in sn:
            v.fail("refused", "mps does not accept the generated %s file of %s: %s" % (sc["use"], sc["g"], r.brief()))
            return
        u = fmt.parse_vtu(sn[0]["vtu"])
        if u["n"] != st["n"] or u["time"] != 0 or not np.array_equal(u["pos"], st["pos"]) or not np.array_equal(u["vel"], st["vel"]) or not np.array_equal(u["type"], st["type"]):
            v.fail("start", "mps does not start from the particles of the generated %s file of %s" % (sc["use"], sc["g"]))

    def shrink(self, sc):
        if "plans" not in sc:
            for p in getattr(self, "bad", [])[:3]:
                yield dict(sc, plans=[p])
            yield dict(sc, plans=[])
        elif sc["pre"]:
            yield dict(sc, pre=None)
