import copy
import errno
import random

import numpy as np

from .. import fmt, world
from ..core import Check
from ..model import Model, GHOST
from . import common as C
from . import iofaults as IO

KIND = {"dim": "int", "numPhysicalCores": "int", "domainMin": "vec", "domainMax": "vec", "gravity": "vec", "surfaceDetection-particleDistribution": "bool",
        "pressureCalculationMethod": "method", "particlesPath": "path", "xyz-input": "bool", "outputVtkInBinary": "bool"}
WRONG = {
    "double": ["abc", "[1.0, 2.0]", "{a: 1.0}", "", "1.0x", "~", "1,5", "0.1 0.2", "- 1.0", "true", "\"\""],
    "int": ["two", "2.5", "[2]", "", "{a: 2}", "2x", "~", "true"],
    "bool": ["maybe", "[true]", "", "{a: true}", "1.5", "~", "truee"],
    "vec": ["abc", "5.0", "[0.0, -1.0]", "[0.0, x, 0.0]", "", "[]", "[[0.0, 1.0, 2.0]]", "[0.0, 0.0, ]", "~", "[0.0; 1.0; 2.0]", "{x: 0.0, y: 0.0, z: 0.0}"],
    "method": ["implicit", "explicit", "Explicit2", "EMPS", "", "[Explicit]", "None", "Implicit_", "\"Implicit \"", "IMPLICIT", "~"],
    "path": ["nothere.prof", "nothere.csv", "nothere.vtu", "../nodir/input.prof", "", "input", "[a.prof]", "{a: b.prof}", "."],
}


def layout(items):
    """text of a settings file and the offset of each entry's value"""
    t = "# computational conditions\n"
    at = {}
    for k, x in items:
        t += k + ": "
        at[k] = len(t)
        t += x + "\n"
    return t.encode(), at


class C09(Check):
    id = "C09"
    technique = ("deterministic simulation: settings damaged by cuts at every position, dropped and ill-typed entries, missing files and arguments, failing and partial reads; "
                 "exit status and output tree of each run")
    variants = ("mps",)
    quick = 1800
    thorough = 108000
    rule = ("one evaluation = one run with a damaged settings file (cut before the value of its last required entry, one required entry dropped, one entry ill-typed, an unknown "
            "method, an unusable particle path, a time step with which the time does not advance), missing file or argument, or failing read, which must end non-zero without a snapshot, or one run with optional entries "
            "left out, compared with the run that spells out their defaults; distinct = (kind of damage, entry or position, value)")
    assumptions = ["a wrong type is a value that is no number, no integer, no truth value or no list of three numbers where one is called for"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size="xs", steps=rng.randint(1, 2), binary=rng.choice([True, False, None]))
        items = world.yaml_items(case["s"])
        if rng.random() < 0.5:
            rng.shuffle(items)
        keys = [k for k, _ in items]
        text, at = layout(items)
        last = max(at[k] for k in keys if k in world.REQUIRED)
        runs = []
        for _ in range(10):
            runs.append(["cut", rng.choice([rng.randint(0, last), rng.randint(0, last), last, rng.choice(sorted(at.values())[:-1])])])
        runs = [r for r in runs if r[1] <= last]
        for k in rng.sample(world.REQUIRED, 6):
            runs.append(["drop", k])
        for k in rng.sample(keys, 8):
            runs.append(["type", k, rng.choice(WRONG[KIND.get(k, "double")])])
        runs.append(["type", "pressureCalculationMethod", rng.choice(WRONG["method"])])
        runs.append(["type", "particlesPath", rng.choice(WRONG["path"])])
        runs.append(["ext", rng.choice(["dat", "txt", "vtk", "xyz", "profx", "csv2", "vt"])])
        runs.append([rng.choice(["nosettings", "dirsettings", "nosflag", "nooflag", "noout", "dirparticles", "emptysettings", "noparticles", "unreadable"])])
        runs.append([rng.choice(["nosettings", "dirsettings", "nosflag", "nooflag", "noout", "dirparticles", "emptysettings", "noparticles", "unreadable"])])
        runs.append(["eio", rng.randint(0, 10 ** 6), rng.choice([200, 300, 37, 500, 64]), rng.choice([errno.EIO, errno.ESTALE, errno.EISDIR, errno.EACCES])])
        runs.append(["eio", rng.randint(0, 10 ** 6), rng.choice([200, 300, 37, 500, 64]), rng.choice([errno.EIO, errno.ESTALE])])
        runs.append(["openfail", rng.choice([errno.EACCES, errno.EMFILE, errno.EIO, errno.ENFILE, errno.ELOOP])])
        runs.append(["eof", rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 6)])
        runs.append(["defaults", rng.randint(1, 15)])
        for _ in range(2):   # the time would stand still or run backwards
            x = rng.choice(["0", "0.0", "-0.0", "-0.001", repr(-case["s"]["dt"]), "-1.0e+300", "-.inf", ".nan", "-1.0e-300", "tiny", "tiny", "tiny"])
            t0 = case["t0"] if rng.random() < 0.5 else rng.choice([1.0, -2.5, 1e6, 1e9, 7.25])
            if x == "tiny":
                t0 = t0 or rng.choice([1.0, 1e9])
                x = repr(abs(t0) * rng.choice([1e-17, 5e-18, 1e-30, 0.0]) or 5e-324)
            if rng.random() < 0.25:   # or there is no time to begin or end with
                runs.append(["dt", rng.choice(["0.001", repr(case["s"]["dt"]), ".inf"]), "nan" if rng.random() < 0.4 else t0, rng.choice([".nan", ".nan", ".NaN", ".NAN", "nan"])])
                if runs[-1][2] == "nan" and rng.random() < 0.7:
                    runs[-1][3] = "1.0"
                continue
            runs.append(["dt", x, t0, repr(t0 + rng.choice([1e-3, 1.0, 1e6]) * max(1.0, abs(t0)))])
        return {"case": case, "items": items, "runs": runs}

    def judge(self, sim, sc, v):
        c = sc["case"]
        items = [tuple(x) for x in sc["items"]]
        text, at = layout(items)
        last = max(at[k] for k, _ in items if k in world.REQUIRED)
        pp = world.ppath(c)
        base_files = {"case/settings.yml": text, pp: world.particle_file(c), "out": None}
        base = None
        self.bad = []

        def baseline():
            nonlocal base
            if base is None:
                base = sim.run("mps", dict(world.base_plan(), log=1), base_files)
                if base.kind not in ("exit", "abort") or not C.snaps(base):
                    v.fail("baseline", "valid settings: %s" % base.brief())
            return base

        for r in sc["runs"]:
            f = dict(base_files)
            plan = world.base_plan()
            k = r[0]
            what = " ".join(str(x) for x in r)
            if k == "defaults":
                n = len(v.bad)
                self.defaults(sim, c, items, f, r[1], v)
                if len(v.bad) > n:
                    self.bad.append(r)
                continue
            if k == "cut":
                f["case/settings.yml"] = text[:r[1]]
                what = "settings cut after %d of %d bytes (value of the last required entry starts at %d)" % (r[1], len(text), last)
            elif k == "drop":
                f["case/settings.yml"] = layout([x for x in items if x[0] != r[1]])[0]
                what = "settings without " + r[1]
            elif k == "type":
                f["case/settings.yml"] = layout([(a, r[2] if a == r[1] else b) for a, b in items])[0]
                what = "%s: %s" % (r[1], r[2])
            elif k == "ext":
                f["case/settings.yml"] = layout([(a, "./input." + r[1] if a == "particlesPath" else b) for a, b in items])[0]
                f["case/input." + r[1]] = world.particle_file(c)
                what = "particle file input." + r[1]
            elif k == "dt":
                f["case/settings.yml"] = layout([(a, r[1] if a == "dt" else r[3] if a == "endTime" else b) for a, b in items])[0]
                f[pp] = world.particle_file(dict(c, t0=float(r[2])))
                plan["opbudget"] = 400
                what = "dt: %s from time %s to %s" % tuple(r[1:4])
            elif k == "nosettings":
                del f["case/settings.yml"]
            elif k == "dirsettings":
                f["case/settings.yml"] = None
            elif k == "emptysettings":
                f["case/settings.yml"] = b""
            elif k == "nosflag":
                plan["args"] = plan["args"][:1] + plan["args"][3:]
            elif k == "nooflag":
                plan["args"] = plan["args"][:3]
            elif k == "noout":
                del f["out"]
            elif k == "dirparticles":
                f[pp] = None
            elif k == "noparticles":
                del f[pp]
            elif k in ("eio", "openfail", "unreadable", "eof"):
                if k == "eio":
                    plan["shortio"] = [1000, 0, r[2]]
                b = sim.run("mps", dict(plan, log=1), base_files) if k == "eio" else baseline()
                want = "rd" if k in ("eio", "eof") else "or"
                ops = [o for o in IO.oplog(b) if o[1] == want and o[2] == "case/settings.yml" and (want == "or" or o[4] > 0)]
                cp = [o for o in IO.oplog(b) if o[1] == "ow" and o[2].startswith("out/")]
                ops = [o for o in ops if not cp or o[0] < cp[0][0]]
                if not ops:
                    v.probe("no_settings_operation")
                    continue
                o = ops[r[1] % len(ops)] if k in ("eio", "eof") else ops[0]
                if k == "eof":
                    # the file ends where another process has got to in writing it
                    plan["faults"] = [[o[0], "short", 1 + r[2] % max(1, min(o[4], last)) if o[4] > 1 else 1]]
                    plan["faults"].append([o[0] + 1, "eof", 0])
                    done = sum(x[4] for x in ops if x[0] < o[0]) + plan["faults"][0][2]
                    if done > last:
                        continue
                else:
                    plan["faults"] = [[o[0], "perr" if k != "openfail" else "err", r[3] if k == "eio" else r[1] if k == "openfail" else errno.EACCES]]
                    if k == "eio":
                        what = "reading the settings fails (%s) after %d of %d bytes" % (errno.errorcode[r[3]], sum(x[4] for x in ops if x[0] < o[0]), len(text))
            x = sim.run("mps", plan, f)
            v.evals += 1
            v.probe("kind_" + k)
            v.sig(r if k != "cut" else ["cut", r[1]])
            if k in ("eio", "openfail", "unreadable", "eof") and not sum(x.res["fired"].values()):
                v.probe("not_fired")
                continue
            n = len(v.bad)
            if C.crashed(x):
                v.fail("crash", "%s: %s" % (what, x.brief()))
            elif not x.died:
                v.fail("accepted", "%s: the run ends with %s" % (what, x.brief()))
            elif C.snaps(x):
                v.fail("snapshot", "%s: refused with %s, but snapshots %s were written" % (what, x.brief(), sorted(C.snaps(x))))
            if len(v.bad) > n:
                self.bad.append(r)

    def defaults(self, sim, c, items, f, mask, v):
        """optional entries left out against their defaults written down"""
        full = dict((k, x) for k, x in items if k not in world.OPTIONAL)
        dv = {"xyz-input": "true", "gravity-norm": "0.0", "gravity-angle": "0.0", "outputVtkInBinary": "false"}
        own = dict(items)
        used, ref = dict(own), dict(own)
        for j, k in enumerate(world.OPTIONAL):
            if mask >> j & 1:
                used.pop(k, None)
                ref[k] = dv[k]
        if "xyz-input" in used and "false" in used["xyz-input"] and mask & 2:
            v.probe("angular_gravity_defaults")
        rs = []
        for d in (used, ref):
            g = dict(f)
            g["case/settings.yml"] = layout(list(d.items()))[0]
            rs.append(sim.run("mps", world.base_plan(), g))
            v.evals += 1
        v.probe("kind_defaults")
        v.sig("defaults", mask, c["s"]["method"], c["s"]["dim"])
        a, b = rs
        if C.crashed(a) or (a.kind, a.code) != (b.kind, b.code):
            v.fail("default", "optional entries left out: %s; defaults written down: %s" % (a.brief(), b.brief()))
            return
        ta = {k: x for k, x in C.outs(a).items() if k != "settings.yml"}
        tb = {k: x for k, x in C.outs(b).items() if k != "settings.yml"}
        d = C.diff_trees(ta, tb, "the run without optional entries", "the run with the defaults written down")
        if d:
            v.fail("default", "leaving out %s: %s" % ([k for j, k in enumerate(world.OPTIONAL) if mask >> j & 1], d))
        sn = C.snaps(a)
        if "outputVtkInBinary" not in used and 0 in sn and "vtu" in sn[0]:
            try:
                if fmt.parse_vtu(sn[0]["vtu"])["binary"]:
                    v.fail("default", "the vtu file is binary although outputVtkInBinary is not given")
            except fmt.Bad:
                pass

    def shrink(self, sc):
        if len(sc["runs"]) > 1:
            for r in getattr(self, "bad", [])[:4]:
                yield dict(sc, runs=[r])
            return
        r = sc["runs"][0]
        if r[0] == "cut":
            for p in (r[1] // 2, r[1] - 1):
                if 0 <= p < r[1]:
                    yield dict(sc, runs=[["cut", p]])


WR = ("ow", "wr", "mk", "cp", "ch", "tr", "rn", "ul", "sk")


class C10(Check):
    id = "C10"
    technique = ("deterministic simulation: kill and error at I/O operations, conflicting names and histories of runs into the same directories; every file outside what the run "
                 "may create compared byte by byte, every write-side operation's path checked")
    variants = ("mps",)
    level = "fault_enumeration"
    quick = 1500
    thorough = 90000
    rule = ("one scenario = a directory layout (bystander files everywhere, output directory separate, nested, or equal to a case directory, names already taken by files, "
            "directories, links or an earlier run, killed or not), run undisturbed and then once per sampled I/O operation with a kill or an error there; "
            "distinct = (layout, fault, operation class, outcome)")
    assumptions = ["the output directory itself belongs to the run: earlier snapshots in it may be replaced, anything else there may not"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size="xs", steps=rng.randint(1, 3), binary=rng.random() < 0.5)
        sc = {"case": case, "pseed": rng.randint(1, 10 ** 9), "lay": rng.choice(["plain", "plain", "plain", "settings", "particles", "samedir", "partdir", "twice", "twice", "killed",
                                                                            "nested", "restart", "restart"]),
              "sname": rng.choice(["settings.yml", "settings.yml", "case_01.yaml", "s"]), "how": rng.choice(["file", "file", "empty", "dir", "link", "dangling"]),
              "k": rng.random(), "snapno": rng.random(), "restart_name": rng.random() < 0.5}
        return sc

    def files(self, sc):
        c = sc["case"]
        sn = sc["sname"]
        pp = world.ppath(c)
        out = "out"
        f = {"case/" + sn: world.yaml_text(world.yaml_items(c["s"])), pp: world.particle_file(c), "case/notes.txt": b"mine\n", "input.prof.bak": b"keep\n",
             "data/other.csv": b"1,2\n", "out/readme.md": b"# results\n", "out/old/x.bin": bytes(range(256)), "case/prof/keep.prof": b"keep\n",
             "bystander": b"z" * 5000, "out/error.log": b"", "out/console.log": b"last week's run\n", "out/prof/notes.txt": b"keep\n", "out/csv/plot.png": b"\x89PNG",
             "out/vtu/series.pvd": b"<VTKFile/>\n", "case/prof/output_0001.prof": b"0\n0\n"}
        for x in ("case/" + sn, pp, "out/" + sn, "out/" + pp.split("/")[-1]):   # names that programs make up for their own use
            for e in (".bak", "~", ".old", ".orig", ".lock") + (() if x.startswith("out/") else (".tmp", ".part")):
                f[x + e] = b"%d\n" % len(x)
        lay = sc["lay"]
        name = None
        if lay == "settings":
            name = sn
        elif lay == "particles":
            name = pp.split("/")[-1]
        if name:
            t = {"file": b"# not yours\n", "empty": b"", "dir": None, "link": ("link", "../bystander"), "dangling": ("link", "../nowhere")}[sc["how"]]
            f["out/" + name] = t
        elif lay == "samedir":
            out = "case"
        elif lay == "partdir":
            out = pp.rsplit("/", 1)[0]
        elif lay == "nested":
            out = "case/results/1"
            f[out] = None
        return f, out

    def plan(self, sc, out, **kw):
        p = world.base_plan(outdir=out)
        p["args"] = ["mps", "-s", "case/" + sc["sname"], "-o", out]
        p.update(kw)
        return p

    def judge(self, sim, sc, v):
        c = sc["case"]
        f, out = self.files(sc)
        pp = world.ppath(c)
        sn = sc["sname"]
        lay = sc["lay"]
        rng = random.Random(sc["pseed"])
        self.bad = []
        inputs = {"case/" + sn: f["case/" + sn], pp: f[pp]}
        cfl = sn if out == "case" else pp.split("/")[-1]
        refused = lay in ("settings", "particles") or out + "/" + sn in f or out + "/" + pp.split("/")[-1] in f
        start = {}   # the tree before the run under test

        def prepare():
            """brings the scratch directory to the state before the run under test"""
            if lay in ("twice", "killed", "restart"):
                p = self.plan(sc, "out")
                if lay == "killed":
                    p["faults"] = [[self.kop, rng0.choice(["kill", "killafter"]), 0]]
                r = sim.run("mps", p, f)
                if lay == "restart":
                    sim.put(self.rfiles)
                return r
            sim.wipe()
            sim.put(f)
            return None

        rng0 = random.Random(sc["pseed"] + 1)
        self.kop = 0
        self.rfiles = {}
        if lay in ("killed", "restart"):
            b = sim.run("mps", self.plan(sc, out, log=1), f)
            v.evals += 1
            self.kop = int(sc["k"] * b.res["ops"])
            if lay == "restart":
                s = C.snaps(b)
                if not s:
                    return
                k = sorted(s)[int(sc["snapno"] * len(s))]
                fm = rng0.choice(["prof", "csv"])
                if fm not in s[k]:
                    return
                st = copy.deepcopy(c["s"])
                rel = "../out/%s/output_%04d.%s" % (fm, k, fm)
                st["ppath"] = rel
                st["end"] = c["s"]["end"] + 3 * c["s"]["dt"]
                self.rfiles = {"case/again.yml": world.yaml_text(world.yaml_items(st))}
                inputs = {"case/again.yml": self.rfiles["case/again.yml"], rel[3:]: s[k][fm]}
        main = self.plan(sc, out)
        if lay == "restart":
            main["args"][2] = "case/again.yml"
            if sc["restart_name"]:
                main["args"][4] = out = "out2"
                f["out2"] = None
        rng0 = random.Random(sc["pseed"] + 1)
        first = prepare()
        start = sim.tree()
        self.meta0 = sim.meta
        if lay == "twice" or lay == "killed":
            refused = "out/" + sn in start or "out/" + pp.split("/")[-1] in start
        base = sim.run("mps", dict(main, log=1), None)
        v.evals += 1
        tag = "layout %s" % lay
        if lay in ("settings", "particles"):
            tag += " (%s)" % sc["how"]
        if not self.look(sc, v, start, base, inputs, out, tag, refused, base):
            self.bad.append(None)
            return
        v.sig(lay, sc["how"], base.kind, base.code)
        v.probe("layout_" + lay + ("_refused" if refused else ""))
        plans = sc.get("plans")
        if plans is None:
            lg = IO.oplog(base)
            pick = lg if len(lg) <= 16 else rng.sample(lg, 16)
            plans = []
            for o in pick:
                k = rng.choice(["kill", "killafter", "err", "perr", "torn"])
                if k == "torn" and not (o[1] in ("wr", "cp") and o[3] > 0):
                    k = "kill"
                plans.append({"faults": [[o[0], k, rng.randint(0, o[3]) if k == "torn" else rng.choice(IO.WERR) if k in ("err", "perr") else 0]]})
            plans.append({"quota": [rng.randint(0, max(1, base.res["written"]))]})
            plans.append({"afault": [rng.randint(0, max(1, base.res["allocs"])), 1]})
        for p in plans:
            rng0 = random.Random(sc["pseed"] + 1)
            prepare()
            r = sim.run("mps", dict(main, log=1, **p), None)
            v.evals += 1
            what = "%s, %s" % (tag, IO.describe(base, p))
            v.sig(lay, tuple(map(tuple, p.get("faults", []))), r.kind, len(r.tree))
            if not self.look(sc, v, start, r, inputs, out, what, refused, base):
                self.bad.append(p)
                return

    def look(self, sc, v, start, r, inputs, out, what, refused, base):
        if r.kind in ("badmem", "deadlock", "budget", "hang"):
            v.fail("crash", "%s: %s" % (what, r.brief()))
            return False
        if r.res["escapes"]:
            v.fail("outside", "%s: the run writes outside its directories: %s" % (what, r.res["escape"]))
            return False
        for o in IO.oplog(r):
            if o[1] in WR and not (o[2] == out or o[2].startswith(out + "/") or o[2] in ("?", "")) and o[4] >= 0:
                v.fail("outside", "%s: operation %s on %s, which is not in the output directory" % (what, o[1], o[2]))
                return False
        for k, d in inputs.items():
            if r.tree.get(k) != d:
                v.fail("input", "%s: %s was %s" % (what, k, "removed" if k not in r.tree else "altered"))
                return False
        own = lambda k: fmt.SNAP.match(k[len(out) + 1:]) if k.startswith(out + "/") else None
        for k, d in start.items():
            if own(k) and not refused:
                continue
            if r.tree.get(k) != d:
                v.fail("altered", "%s: %s, which was there before, was %s" % (what, k, "removed" if k not in r.tree else "altered"))
                return False
            if r.meta.get(k) != self.meta0.get(k):
                v.fail("altered", "%s: permissions or number of links of %s, which was there before, changed from %o, %d to %o, %d" % ((what, k) + self.meta0[k] + r.meta[k]))
                return False
        names = [k.split("/")[-1] for k in inputs]
        for k in r.tree:
            if k in start:
                continue
            if not k.startswith(out + "/"):
                v.fail("outside", "%s: %s was created" % (what, k))
                return False
        if refused:
            if r.ok:
                v.fail("accepted", "%s: the name is taken, but the run ends with %s" % (what, r.brief()))
                return False
            if any(own(k) and k not in start for k in r.tree):
                v.fail("accepted", "%s: the name is taken, but snapshots were written" % what)
                return False
            return True
        new = [k for k in r.tree if own(k) and r.tree[k] != start.get(k)]
        if new:
            for k, d in inputs.items():
                n = out + "/" + k.split("/")[-1]
                if r.tree.get(n) == d and n not in inputs and r.meta.get(n, (0, 1))[1] != 1:
                    v.fail("copy", "%s: %s is the same file as another, not a copy" % (what, n))
                    return False
                if r.tree.get(n) != d:
                    v.fail("copy", "%s: snapshot %s is there, but %s is %s" % (what, new[0], n, "missing" if n not in r.tree else "not a copy of the input"))
                    return False
        return True

    def shrink(self, sc):
        b = getattr(self, "bad", [])
        if "plans" not in sc and b:
            yield dict(sc, plans=[x for x in b[:1] if x])
        yield from C.shrink_case(sc)


def spell(rng, x):
    """one of the ways to write a number down"""
    x = float(x)
    k = rng.random()
    if k < 0.6:
        return repr(x)
    if k < 0.75:
        return "%.17e" % x
    if k < 0.85:
        return "%.6f" % x
    if x == int(x) and abs(x) < 1e6:
        return "%d" % x
    return "%.17g" % x


class C21(Check):
    id = "C21"
    technique = ("deterministic simulation: random input files in every format and layout, read through a simulated file system that splits reads at random, from random working directories "
                 "with decoy files; the first snapshots compared with an independent reading of the file")
    variants = ("mps",)
    quick = 10500
    thorough = 630000
    rule = ("one scenario = a particle file (random numbers spelled in several ways, csv columns in any order with or without the optional ones, extra arrays in vtu), a working "
            "directory and argument style, and decoy files where a wrong path resolution would look, run with whole and with split reads; distinct = (format, columns, working "
            "directory, argument style, read splitting, content)")
    assumptions = ["csv numbers may differ by 1e-14 (relative) from the nearest double"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "s", "m"]), steps=1, binary=True, per_step=True, method=rng.choice(["Explicit", "Explicit", "Implicit"]),
                              t0=rng.choice([0.0, 0.25, 3.5, 1.0 / 3, 1e-7, 12345.678, 100.0]), density=None if rng.random() < 0.5 else True)
        c = case
        n = len(c["type"])
        f = c["fmt"]
        # numbers as they are in the file
        text = [[spell(rng, x) for x in c["pos"][j] + c["vel"][j]] for j in range(n)]
        tt = spell(rng, c["t0"])
        sc = {"case": case, "text": text, "t0": tt, "sep": rng.choice([" ", " ", "\t", "  "]), "quote": rng.choice(['"', '"', "'"]),
              "crlf": False, "lastnl": rng.random() < 0.85, "order": rng.randint(0, 5)}
        if f == "csv":
            cols = ["type", "x", "y", "z", "vx", "vy", "vz"]
            if c["fluid"]:
                cols.append("fluidType")
            if c["density"]:
                cols.append("density")
            if rng.random() < 0.7:
                rng.shuffle(cols)
            sc["cols"] = cols
            sc["crlf"] = rng.random() < 0.15
        if c["density"]:
            sc["dtext"] = [spell(rng, x) for x in c["density"]]
        sc["cwd"] = rng.choice([".", ".", "case", "out", "elsewhere", "elsewhere/deep", "data"])
        sc["style"] = rng.choice(["rel", "rel", "abs", "dots"])
        sc["sdir"] = rng.choice(["case", "case", "set/my case", "a/b/c"])
        sc["short"] = [1000 if rng.random() < 0.5 else 400, rng.choice([0, 100]), rng.choice([1, 3, 17, 100, 511, 4000])]
        sc["seed"] = rng.randint(1, 10 ** 6)
        return sc

    def content(self, sc):
        c = sc["case"]
        f = c["fmt"]
        n = len(c["type"])
        T = sc["text"]
        nl = "\r\n" if sc.get("crlf") else "\n"
        sep = sc["sep"]
        if f == "prof":
            o = [sc["t0"], str(n)] + [sep.join([str(c["type"][j])] + T[j]) for j in range(n)]
        elif f == "csv":
            o = [sc["t0"], str(n), ",".join(sc["cols"])]
            ix = {"x": 0, "y": 1, "z": 2, "vx": 3, "vy": 4, "vz": 5}
            for j in range(n):
                d = {k: T[j][ix[k]] for k in ix}
                d["type"] = str(c["type"][j])
                if c["fluid"]:
                    d["fluidType"] = str(c["fluid"][j])
                if c["density"]:
                    d["density"] = sc["dtext"][j]
                o.append(",".join(d[k] for k in sc["cols"]))
        else:
            q = sc["quote"]

            def arr(ty, name, nc, rows):
                return ["<DataArray type=%s%s%s Name=%s%s%s NumberOfComponents=%s%d%s format=%sascii%s>" % (q, ty, q, q, name, q, q, nc, q, q, q)] + rows + ["</DataArray>"]
            pts = ["<Points>"] + arr("Float64", "Position", 3, [sep.join(t[:3]) for t in T]) + ["</Points>"]
            pd = [arr("Int32", "Particle Type", 1, [str(t) for t in c["type"]]), arr("Float64", "Velocity", 3, [sep.join(t[3:]) for t in T])]
            if c["fluid"]:
                pd.append(arr("Int32", "Fluid Type", 1, [str(t) for t in c["fluid"]]))
            if c["density"]:
                pd.append(arr("Float64", "Density", 1, list(sc["dtext"])))
            if c["extra"]:
                for nm in ("Pressure", "Number Density", "Number Density Ratio"):
                    pd.append(arr("Float64", nm, 1, ["%.3f" % (j * 0.25 + len(nm)) for j in range(n)]))
                pd.append(arr("Int32", "Boundary Condition", 1, ["%d" % (j % 4) for j in range(n)]))
            r = random.Random(sc["order"])
            if sc["order"]:
                r.shuffle(pd)
            cells = ["<Cells>"] + arr("Int64", "connectivity", 1, ["%d" % j for j in range(n)]) + arr("Int64", "offsets", 1, ["%d" % (j + 1) for j in range(n)]) + \
                arr("UInt8", "types", 1, ["1"] * n) + ["</Cells>"]
            field = ["<FieldData>", "<DataArray type=%sFloat64%s Name=%sTime%s NumberOfTuples=%s1%s format=%sascii%s>" % ((q,) * 8), sc["t0"], "</DataArray>", "</FieldData>"]
            o = ["<?xml version='1.0' encoding='UTF-8'?>", "<VTKFile type=%sUnstructuredGrid%s version=%s1.0%s byte_order=%sLittleEndian%s>" % ((q,) * 6), "<UnstructuredGrid>"]
            if sc["order"] % 2:
                o += field
            o += ["<Piece NumberOfPoints=%s%d%s NumberOfCells=%s%d%s>" % (q, n, q, q, n, q)]
            o += pts + ["<PointData>"] + [x for a in pd for x in a] + ["</PointData>"] + cells + ["</Piece>"]
            if not sc["order"] % 2:
                o += field
            o += ["</UnstructuredGrid>", "</VTKFile>"]
        return (nl.join(o) + (nl if sc["lastnl"] else "")).encode()

    def judge(self, sim, sc, v):
        import os
        c = sc["case"]
        s = c["s"]
        n = len(c["type"])
        sd = sc["sdir"]
        data = self.content(sc)
        pp = os.path.normpath(os.path.join(sd, s["ppath"]))
        f = {"case": None, "elsewhere/deep": None, "data": None, "out": None, sd + "/settings.yml": world.yaml_text(world.yaml_items(s)), pp: data}
        # what a run that looks in the wrong place would find
        dec = copy.deepcopy(c)
        dec["t0"] = 77.0
        dec["pos"] = [[x + 0.001 for x in p] for p in c["pos"]]
        decoy = world.particle_file(dec)
        base = os.path.basename(pp)
        for d in (sc["cwd"], ".", "out", "elsewhere", os.path.normpath(os.path.join(sc["cwd"], s["ppath"]))):
            k = os.path.normpath(os.path.join(d, base)) if not d.endswith(base) else d
            if k not in f and not k.startswith("..") and not k.startswith("out/"):
                f[k] = decoy
        rel = lambda p: os.path.relpath("/r/" + p, os.path.normpath("/r/" + sc["cwd"]))
        a, o = rel(sd + "/settings.yml"), rel("out")
        if sc["style"] == "abs":
            a, o = "@ROOT@/" + sd + "/settings.yml", "@ROOT@/out"
        elif sc["style"] == "dots":
            a, o = "./" + rel(sd) + "/../" + sd.split("/")[-1] + "//settings.yml", rel("out") + "/."
        plan = {"seed": sc["seed"], "cwd": sc["cwd"], "args": ["mps", "-s", a, "-o", o]}
        r = sim.run("mps", plan, f)
        v.evals += 1
        v.sig(C.sha(data), sc["cwd"], sc["style"], sc["sdir"])
        v.probe("format_" + c["fmt"])
        if C.crashed(r) or 0 not in C.snaps(r):
            v.fail("refused", "valid input (%s): %s" % (c["fmt"], r.brief()))
            return
        sn = C.snaps(r)
        try:
            st = fmt.parse_vtu(sn[0]["vtu"])
        except fmt.Bad as e:
            v.fail("output", "snapshot 0: %s" % e)
            return
        if st["n"] != n:
            v.fail("count", "%d particles in the %s file, %d in snapshot 0" % (n, c["fmt"], st["n"]))
            return
        tol = 1e-14 if c["fmt"] == "csv" else 0.0
        if abs(st["time"] - float(sc["t0"])) > 0:
            v.fail("time", "the %s file says time %s, snapshot 0 is at %.17g" % (c["fmt"], sc["t0"], st["time"]))
            return
        X = np.array([[float(x) for x in t] for t in sc["text"]]).reshape(n, 6)
        for nm, got, want in (("position", st["pos"], X[:, :3]), ("velocity", st["vel"], X[:, 3:])):
            bad = ~(np.abs(got - want) <= tol * np.abs(want)).all(1)
            if bad.any():
                j = int(np.where(bad)[0][0])
                v.fail(nm, "particle %d of the %s file has %s %s, in snapshot 0 %s" % (j, c["fmt"], nm, want[j], got[j]))
                return
        if not np.array_equal(st["type"], c["type"]):
            j = int(np.where(st["type"] != np.array(c["type"]))[0][0])
            v.fail("type", "particle %d of the %s file has type %d, in snapshot 0 %d" % (j, c["fmt"], c["type"][j], st["type"][j]))
            return
        fl = np.array(c["fluid"] if c["fluid"] else [0] * n)
        if not np.array_equal(st["fluid"], fl):
            j = int(np.where(st["fluid"] != fl)[0][0])
            v.fail("fluid", "particle %d of the %s file has fluid type %d, in snapshot 0 %d" % (j, c["fmt"], fl[j], st["fluid"][j]))
            return
        # densities show in the pressure of the explicit method
        if s["method"] == "Explicit" and r.ok and 1 in sn:
            b = fmt.parse_vtu(sn[1]["vtu"])
            m = Model(world.settings_for_model(s))
            rho = np.full(n, float(s["rho"]))
            if c["density"]:
                e = np.array([float(x) for x in sc["dtext"]])
                rho = np.where(e < 0, rho, e)
            n0 = m.nN.n0
            sel = (b["type"] != GHOST) & (b["nd"] > n0 * (1 + 1e-9)) & np.isfinite(b["nd"])
            want = s["soundSpeed"] ** 2 * rho * (b["nd"] - n0) / n0
            with np.errstate(invalid="ignore"):
                bad = sel & ~(np.abs(b["P"] - want) <= 1e-9 * np.abs(want) + 1e-9 * s["soundSpeed"] ** 2 * rho)
            v.probe("densities_observed", int(sel.sum()))
            if bad.any():
                j = int(np.where(bad)[0][0])
                v.fail("density", "particle %d has density %.17g in the %s file (default %g), its pressure %.17g implies %.17g" %
                       (j, rho[j], c["fmt"], s["rho"], b["P"][j], b["P"][j] * rho[j] / want[j]))
                return
        # however the bytes arrive
        q = sim.run("mps", dict(plan, shortio=sc["short"], memfill=1 + sc["seed"] % 4), f)
        v.evals += 1
        if (q.kind, q.code) != (r.kind, r.code):
            v.fail("split", "whole reads: %s; split reads: %s" % (r.brief(), q.brief()))
            return
        d = C.diff_trees(r.tree, q.tree, "the run with whole reads", "the run with split reads")
        if d:
            v.fail("split", d)

    def shrink(self, sc):
        c = sc["case"]
        n = len(c["type"])
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                keep = [i for i in range(n) if not a <= i < a + size]
                if keep:
                    d = copy.deepcopy(sc)
                    d["case"] = C.sub_case(c, keep)
                    d["text"] = [sc["text"][i] for i in keep]
                    if "dtext" in sc:
                        d["dtext"] = [sc["dtext"][i] for i in keep]
                    yield d
            if n / size > 8:
                break
            size //= 2
        for k, x in (("cwd", "."), ("style", "rel"), ("sdir", "case"), ("order", 0), ("lastnl", True), ("crlf", False)):
            if sc[k] != x:
                yield dict(copy.deepcopy(sc), **{k: x})
