import copy
import os
import random

from .. import world
from ..core import Check
from . import common as C


class C02(Check):
    id = "C02"
    variants = ("mps", "omp")
    quick = 4200
    thorough = 252000
    rule = ("one scenario = a random case run with a well-behaved clock and zero-filled memory, then again under a clock that stalls, freezes, runs backwards or jumps "
            "by up to years, other start dates, with fresh heap and stack memory pre-filled with 0xff, 0x7f, random bytes or random small doubles, "
            "and with memory blocks placed in ascending, descending or random order of addresses; "
            "two of five of these called from elsewhere, with other environments, spellings of the arguments and files of others about; distinct = (case, clock mode, fill mode, placement, build); a run counts only if the clock was read or memory was handed out")

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "s", "s", "m"]), steps=rng.randint(1, 5), binary=rng.random() < 0.6, per_step=rng.random() < 0.7)
        plans = []
        for _ in range(4):
            p = {"seed": rng.randint(1, 10 ** 6), "memfill": rng.randint(0, 4), "place": rng.randint(0, 3), "clock": rng.randint(0, 5)}
            if rng.random() < 0.4:
                p["clockbase"] = rng.choice([1000000000, -10 ** 9, -86400 * 365 * 10 ** 9 * 30, 86400 * 10 ** 9, 2 ** 31 * 10 ** 9 - 10 ** 6, 4102444800 * 10 ** 9, 253402300799 * 10 ** 7])
            plans.append(p)
            if rng.random() < 0.4:   # another place, terminal and environment
                p["at"] = {"seed": rng.randint(1, 10 ** 6)}
        if i % 41 == 7 and len(case["type"]) <= 60:
            C.set_steps(case, rng.randint(40, 150))
        sc = {"case": case, "variant": "omp" if i % 5 == 0 else "mps", "plans": plans}
        if rng.random() < 0.2:
            sc["damage"] = [rng.choice(["column", "column", "token", "line", "header", "settings"]), rng.random(), rng.random()]
            if sc["damage"][0] == "column" and rng.random() < 0.8:
                sc["case"] = world.gen_case(rng, size=rng.choice(["xs", "s"]), steps=rng.randint(1, 3), binary=True, fmtname="csv")
        return sc

    @staticmethod
    def damaged(case, f, damage):
        """something is missing from an input file: mps may refuse it or go on, but always in the same way"""
        kind, a, b = damage
        f = dict(f)
        name = "case/settings.yml" if kind == "settings" else world.ppath(case)
        ls = f[name].split(b"\n")
        if kind == "column" and case["fmt"] == "csv":
            n = ls[2].count(b",") + 1
            k = int(a * n)
            ls[2:] = [b",".join(x for j, x in enumerate(l.split(b",")) if j != k) for l in ls[2:]]
        elif kind == "token":
            j = int(a * len(ls))
            sep = b"," if b"," in ls[j] else b" "
            t = ls[j].split(sep)
            del t[int(b * len(t))]
            ls[j] = sep.join(t)
        elif kind == "header":
            del ls[int(a * min(len(ls), 4))]
        else:
            del ls[int(a * len(ls))]
        f[name] = b"\n".join(ls)
        return f

    ENV = [("TZ", ["UTC", "Asia/Tokyo", "America/New_York", ":/nowhere"]), ("LC_ALL", ["C", "de_DE.UTF-8", "ja_JP.UTF-8", "C.UTF-8"]), ("LANG", ["de_DE", "C"]),
           ("LC_NUMERIC", ["de_DE.UTF-8", "fr_FR"]), ("OMP_NUM_THREADS", ["1", "3", "64", "0"]), ("OMP_DYNAMIC", ["true"]), ("OMP_SCHEDULE", ["dynamic,1"]), ("HOME", ["/", "/nonexistent"]),
           ("TMPDIR", ["/nonexistent"]), ("USER", ["nobody"]), ("HOSTNAME", ["node17"]), ("COLUMNS", ["20"]), ("TERM", ["dumb", "xterm-256color"]), ("DEBUG", ["1"]), ("VERBOSE", ["1"]),
           ("MALLOC_PERTURB_", ["165"]), ("CI", ["true"]), ("NO_COLOR", ["1"]), ("PWD", ["/elsewhere"])]

    def place(self, at, f):
        """the same run called from elsewhere, into another output directory, with another environment and terminal"""
        rng = random.Random(at["seed"])
        out = rng.choice(["out", "out", "r", "results/today/run 1", "o" * 60, "case/out", "case/../out"])
        cwd = rng.choice([".", "case", "data", "somewhere/else"])
        rel = lambda p: os.path.relpath("/r/" + p, os.path.normpath("/r/" + cwd))
        a = ["-s", rel("case/settings.yml"), "-o", rel(out)]
        a = rng.choice([a, a[2:] + a[:2], ["--setting", a[1], "--output", a[3]], ["--output", a[3], "-s", a[1]]])
        g = {k: x for k, x in f.items() if k != "out"}
        g[os.path.normpath(out)] = None
        if cwd != "." and not any(k.startswith(cwd + "/") for k in g):
            g[cwd] = None
        env = [(k, rng.choice(x)) for k, x in self.ENV if rng.random() < 0.25]
        p = dict(world.base_plan(), cwd=cwd, args=["mps"] + a, env=env)
        if rng.random() < 0.5:
            p["tty"] = 1
        out = os.path.normpath(out)
        old = {}
        if rng.random() < 0.5:   # files of others, also old snapshots
            junk = lambda: rng.choice([b"", b"0\n", b"endTime: 0.0\ndt: 9.0\n", b"\xff\xfe\x00", f["case/settings.yml"], b"old line\n" * rng.choice([3, 300, 3000])])
            for _ in range(rng.randint(1, 6)):
                d = rng.choice([cwd, cwd, "case", "case", out, out, out + "/prof", out + "/vtu", out + "/csv"])
                n = rng.choice([".mps", "mps.yml", "mps.conf", "config.yml", ".lock", "lock", "core", "log.txt", "stop", "STOP", "restart.prof", "input.bak", "settings.yml~", "settings.yaml", "time.csv", "a b.txt"])
                if d.startswith(out + "/") and rng.random() < 0.8:
                    n = "output_%s.%s" % (rng.choice(["0000", "0000", "0001", "0002", "0005", "0099", "9999", "10000"]), d[-4:].strip("/") if rng.random() < 0.9 else "tmp")
                k = os.path.normpath(d + "/" + n)
                if k not in g:
                    old[k] = junk()
            g.update(old)
        return p, g, out, old

    @staticmethod
    def moved(tree, out):
        """the tree as if the output directory had been out"""
        t = {}
        for k, x in tree.items():
            if k == out or k == out + "/":
                continue
            if k.startswith(out + "/"):
                t["out/" + k[len(out) + 1:]] = x
        return t

    def judge(self, sim, sc, v):
        f = world.files(sc["case"])
        if "damage" in sc:
            f = self.damaged(sc["case"], f, sc["damage"])
            v.probe("damaged_" + sc["damage"][0])
        var = sc["variant"]
        base = sim.run(var, world.base_plan(), f)
        v.evals += 1
        if C.crashed(base) and "damage" not in sc:
            v.fail("crash", "plain run ends with %s" % base.brief())
            return
        key = C.sha(repr(sorted(f.items(), key=str)).encode())
        for p in sc["plans"]:
            p = dict(p)
            at = p.pop("at", None)
            if at:
                bp, g, out, old = self.place(at, f)
                r = sim.run(var, dict(bp, **p), g)
                for k in list(old):
                    if "out" + k[len(out):] in base.tree and k.startswith(out + "/"):
                        v.probe("old_snapshot_replaced")
                    elif r.tree.get(k) != old[k]:
                        v.fail("others", "the file %s of somebody else was changed (%s)" % (k, r.brief()))
                    else:
                        r.tree.pop(k)
                        v.probe("other_file_left")
                r.tree = self.moved(r.tree, out)
                if old and not r.ok:   # what a refused run finds in its output directory stays there
                    for k in ("out/prof/", "out/vtu/", "out/csv/"):
                        if k not in base.tree and out + k[3:-1] in {os.path.dirname(x) for x in old}:
                            r.tree.pop(k, None)
            else:
                r = sim.run(var, dict(world.base_plan(), **p), f)
            v.evals += 1
            if r.res["clock"] or r.res["allocs"]:
                v.sig(key, p["memfill"], p.get("place"), p["clock"], p.get("clockbase"), var)
            what = "clock mode %d (base %s), memory fill %d, placement %d" % (p["clock"], p.get("clockbase", "2023"), p["memfill"], p.get("place", 0))
            if at:
                what += ", called as %s with %s" % (bp["args"], ", ".join("%s=%s" % x for x in bp["env"]) or "no environment")
                if at and old:
                    what += ", with other files about: %s" % ", ".join(sorted(old))
            if (r.kind, r.code) != (base.kind, base.code):
                v.fail("status", "%s: %s instead of %s" % (what, r.brief(), base.brief()))
                continue
            d = C.diff_trees(self.moved(base.tree, "out") if at else base.tree, r.tree)
            if d:
                v.fail("output", "%s: %s" % (what, d))

    def shrink(self, sc):
        if len(sc["plans"]) > 1:
            for p in sc["plans"]:
                yield dict(sc, plans=[p])
            return
        if "damage" in sc:
            yield {k: x for k, x in sc.items() if k != "damage"}
        p = sc["plans"][0]
        if "at" in p:
            yield dict(sc, plans=[{k: x for k, x in p.items() if k != "at"}])
        for k, z in (("clock", 0), ("memfill", 0), ("place", 0)):
            if p.get(k):
                q = dict(p)
                q[k] = z
                yield dict(sc, plans=[q])
        if "clockbase" in p:
            q = dict(p)
            del q["clockbase"]
            yield dict(sc, plans=[q])
        yield from C.shrink_case(sc)


class C03(Check):
    id = "C03"
    variants = ("mps",)
    quick = 4200
    thorough = 252000
    rule = ("one scenario = a random case run undisturbed and then with every read, write and in-kernel copy of every file cut into random small pieces and stream calls "
            "interrupted (EINTR) at random; distinct = distinct event history in which at least one call was cut short or interrupted")

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "s", "s", "m"]), steps=rng.randint(1, 3), binary=rng.random() < 0.5)
        plans = []
        for _ in range(4):
            plans.append({"seed": rng.randint(1, 10 ** 6), "shortio": [rng.choice([0, 50, 300, 1000]), rng.choice([0, 0, 30, 300]), rng.choice([1, 2, 7, 64, 1000])]})
            if plans[-1]["shortio"][:2] == [0, 0]:
                plans[-1]["shortio"][0] = 500
        return {"case": case, "plans": plans}

    def judge(self, sim, sc, v):
        f = world.files(sc["case"])
        base = sim.run("mps", world.base_plan(), f)
        v.evals += 1
        if C.crashed(base):
            v.fail("crash", "plain run ends with %s" % base.brief())
            return
        for p in sc["plans"]:
            r = sim.run("mps", dict(world.base_plan(), **p), f)
            v.evals += 1
            fired = r.res["fired"]["rshort"] + r.res["fired"]["reintr"]
            if fired:
                v.sig(r.res["hash"])
            what = "shortio %s, %d calls disturbed" % (p["shortio"], fired)
            if (r.kind, r.code) != (base.kind, base.code):
                v.fail("status", "%s: %s instead of %s" % (what, r.brief(), base.brief()))
                continue
            d = C.diff_trees(base.tree, r.tree)
            if d:
                v.fail("output", "%s: %s" % (what, d))

    def shrink(self, sc):
        if len(sc["plans"]) > 1:
            for p in sc["plans"]:
                yield dict(sc, plans=[p])
            return
        p = sc["plans"][0]
        s = p["shortio"]
        for t in ([s[0], 0, s[2]], [0, s[1], s[2]], [s[0] // 4, s[1] // 4, s[2]]):
            if t != s and (t[0] or t[1]):
                yield dict(sc, plans=[dict(p, shortio=t)])
        yield from C.shrink_case(sc)
