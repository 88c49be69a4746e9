"""The shell scripts, run under simulated commands, clock, disk limits and kills."""
import copy
import datetime
import random
import re

from .. import fmt, shell, world
from ..core import Check
from . import common as C
from . import restart

STUB = ["build/mps of the runner scripts: a stand-in that records how it is called and writes marked files", "date: the real command on a simulated clock",
        "mkdir, rm, mv, cp, date, mktemp, head, tail: the real commands, each started, failed or killed at by the coordinator", "run as an unprivileged user"]
NAMES = ["repo", "repo", "mps basic", "a  b", "re*o", "[x]y", "-r", "d$HOME", "it's", "é", "q\"t", "semi;colon", "back\\slash", "tab\tt"]


class C25(Check):
    id = "C25"
    technique = ("deterministic simulation: the conversion script under failing commands, file size limits at every byte, kills and odd paths; the result loaded by mps and compared "
                 "with the prof file's own run")
    variants = ("mps", "shcmd", "shclock")
    quick = 5000
    thorough = 300000
    rule = ("one evaluation = one run of the script on a prof file written by mps or laid out like one, followed by a run of mps from the result; with a fault, the script must end "
            "non-zero unless the result is complete, and mps must refuse what is incomplete; distinct = (content, paths, fault)")
    stub = STUB[1:]
    real = ["scripts/prof_to_csv.sh in bash", "all of src/ for reading the result"]
    assumptions = ["a csv file cut inside or after its last number cannot be told from a complete one by mps and is judged by the exit status of the script only"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size=rng.choice(["xs", "xs", "xs", "s"]), steps=rng.randint(1, 2), fmtname="prof", binary=False)
        sc = {"case": case, "src": rng.choice(["own", "mps", "mps"]), "pick": rng.random(), "indir": rng.choice(NAMES + ["."]), "outdir": rng.choice(NAMES + ["."]),
              "in": rng.choice(["a.prof", "in put.prof", "*.prof", "-n.prof", "x.prof"]), "outn": rng.choice(["a.csv", "out put.csv", "*.csv", "-e", "x.csv"]),
              "clone": rng.choice(NAMES), "cwd": rng.choice([".", "else", "clone"]), "abs": [rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5],
              "old": rng.choice(["", "", "short\n", "x" * 9000 + "\n"]), "nolast": rng.random() < 0.15}
        u = rng.random()
        if u < 0.3:
            sc["fsize"] = rng.random()
            sc["abs"] = [False] * 3   # a message cut by the limit must not hold a part of the scratch directory's name
        elif u < 0.5:
            sc["fault"] = [rng.choice(["head", "tail"]), 0, rng.choice(["fail", "kill", "killafter"])]
        elif u < 0.65:
            sc["openfail"] = rng.choice([1, 2, rng.randint(1, 60), rng.randint(1, 60)])
        elif u < 0.75:
            sc["lay"] = rng.choice(["missing", "indir", "noout", "outdir", "roout", "full", "args0", "args1", "args3"])
        return sc

    def judge(self, sim, sc, v):
        c = sc["case"]
        data = world.particle_file(c)
        if sc["src"] == "mps":
            base = sim.run("mps", world.base_plan(), world.files(c))
            sn = C.snaps(base)
            if not base.ok or any(not restart.usable(x["vtu"], "vtu") for x in sn.values()):
                v.probe("case_fails_by_itself")
                return
            data = sn[sorted(sn)[int(sc["pick"] * len(sn))]]["prof"]
        if sc["nolast"]:
            data = data.rstrip(b"\n")
        sh = shell.attach(sim)
        sh.wipe()
        lay = sc.get("lay", "")
        import os
        ip, op = os.path.normpath(sc["indir"] + "/" + sc["in"]), os.path.normpath(sc["outdir"] + "/" + sc["outn"])
        if ip == op:
            op += ".csv"
        clone = "c-" + sc["clone"]
        f = {"else": None, sc["indir"]: None, sc["outdir"]: None}
        f.update({clone + "/" + k: b for k, b in shell.scripts().items()})
        f[ip] = data
        if sc["old"]:
            f[op] = sc["old"].encode()
        if lay == "missing":
            del f[ip]
        elif lay == "indir":
            f[ip] = None
        elif lay == "noout":
            f.pop(op, None)
            op = os.path.normpath(sc["outdir"] + "/no/" + sc["outn"])
        elif lay == "outdir":
            f[op] = None
        elif lay == "roout":
            f.pop(op, None)
            op = "locked/" + sc["outn"]
            f["locked"] = ["ro", None]
        elif lay == "full":
            f[op] = ["link", "/dev/full"]
        sh.put(f)
        cwd = {"clone": clone}.get(sc["cwd"], sc["cwd"])

        def spell(p, a):
            if a:
                return "@W@/" + p
            r = os.path.relpath("/w/" + p, os.path.normpath("/w/" + cwd))
            return r if "/" in r and not r.startswith("-") else "./" + r
        argv = ["bash", spell(clone + "/scripts/prof_to_csv.sh", sc["abs"][0]), spell(ip, sc["abs"][1]), spell(op, sc["abs"][2])]
        if lay.startswith("args"):
            argv = {"0": argv[:2], "1": argv[:3], "3": argv + ["x"]}[lay[-1]]
        want = b"".join(data.splitlines(True)[:2]) + b"type,x,y,z,vx,vy,vz\n" + b"".join(b",".join(l.split()) + b"\n" for l in data.splitlines()[2:])
        d = {"id": "1", "argv": argv, "cwd": cwd, "faults": [sc["fault"]] if "fault" in sc else []}
        if "fsize" in sc:
            d["fsize"] = int(sc["fsize"] * (len(want) + 20))
        if "openfail" in sc:
            d["openfail"] = sc["openfail"]
        before = sh.tree()
        (x,), trace = sh.run([d], lambda name: 1700000000, lambda w: w[0])
        after = sh.tree()
        shell.record(sim, [x], after, trace)
        v.evals += 1
        v.sig(C.sha(data), ip, op, lay, d.get("fsize"), sc.get("fault"), sc.get("openfail"))
        v.probe("lay_" + (lay or ("fsize" if "fsize" in sc else "openfail" if "openfail" in sc else sc["fault"][2] if "fault" in sc else "plain")))
        if x.log:
            v.fail("escape", "the script %s" % x.log[0])
            return
        other = {k: b for k, b in after.items() if k != op}
        dd = C.diff_trees({k: b for k, b in before.items() if k != op}, other, "before", "after the script")
        if dd:
            v.fail("bystander", dd)
            return
        if x.killed:
            pass
        elif lay:
            if x.rc == 0:
                v.fail("status", "%s: the script ends with 0 (stderr %r)" % (lay, x.err[-120:]))
            return
        got = after.get(op)
        try:
            pr, cs = fmt.parse_prof(data if data.endswith(b"\n") else data + b"\n"), fmt.parse_csv(got or b"", False)
            full = pr["n"] == cs["n"] and pr["time"] == cs["time"] and all((pr[k] == cs[k]).all() for k in ("type", "pos", "vel"))
        except (fmt.Bad, ValueError, IndexError, KeyError):
            full = False
        if not x.killed and x.rc == 0 and not full:
            v.fail("incomplete", "the script ends with 0, but %s (%d bytes) does not hold the %d particles of the prof file%s" %
                   (op, len(got or b""), len(data.splitlines()) - 2, "; stderr %r" % x.err[-100:] if x.err else ""))
            return
        if not x.killed and x.rc != 0 and full and not x.fired and "fsize" not in sc:
            v.fail("status", "the script ends with %d although %s is complete" % (x.rc, op))
            return
        if not x.killed and x.rc != 0 and not x.fired and "fsize" not in sc:
            v.fail("refused", "a valid prof file is not converted: status %d, %r" % (x.rc, x.err[-160:]))
            return
        # what mps makes of it
        if got is None:
            return
        if full:
            rs = [sim.run("mps", restart.restart_plan(), restart.restart_files(c, b, fm, True)) for fm, b in (("prof", data), ("csv", got))]
            v.evals += 2
            a, b = [C.snaps(r, "out2") for r in rs]
            if 0 not in a:
                v.probe("prof_not_loadable")
                return
            if 0 not in b or a[0]["prof"] != b[0]["prof"]:
                v.fail("load", "mps started from the converted file: %s; %s" % (rs[1].brief(), C.diff_trees({"prof": a[0]["prof"]}, {"prof": b.get(0, {}).get("prof", b"")}, "from prof", "from csv")))
        elif restart.must_refuse("csv", want, len(got)) and want.startswith(got):
            r = sim.run("mps", restart.restart_plan(), restart.restart_files(c, got, "csv", True))
            v.evals += 1
            v.probe("incomplete_result_refused")
            if r.ok or C.snaps(r, "out2"):
                v.fail("accepted", "mps simulates from the incomplete result (%d of %d bytes) of a failed conversion" % (len(got), len(want)))

    def shrink(self, sc):
        for k, d in (("clone", "repo"), ("indir", "."), ("outdir", "."), ("in", "a.prof"), ("outn", "a.csv"), ("cwd", "."), ("old", ""), ("nolast", False), ("src", "own")):
            if sc[k] != d:
                yield dict(sc, **{k: d})
        yield from C.shrink_case(sc)


TS = re.compile(r"^\d{14}$")


class C28(Check):
    id = "C28"
    technique = ("deterministic simulation: histories of runner invocations, sequential and concurrent, interleaved by a seeded scheduler at their external commands, on a simulated "
                 "clock that stands still, steps back or jumps, with failing commands, full disks, failing simulations and kills; whole-tree comparison")
    variants = ("shcmd", "shclock")
    quick = 4500
    thorough = 270000
    rule = ("one evaluation = one invocation of runner.sh or safe_runner.sh within a history of up to five, from one of several working directories and checkout paths; the tree is "
            "compared before and after; distinct = (checkout path, working directory, arguments, interleaving, clock, fault)")
    real = ["scripts/runner.sh and scripts/safe_runner.sh in bash with the real coreutils"]
    stub = STUB
    assumptions = ["the project name and the note hold no '..' components", "runner.ps1 is not covered: no PowerShell here"]

    def gen(self, rng, tier, i):
        waves = []
        projects = rng.choice([["dambreak"], ["dambreak", "hydrostatic"], ["my case", "dambreak"], ["dambreak", "a*b"]])
        for _ in range(rng.choice([1, 2, 2, 3])):
            n = rng.choice([1, 1, 2])
            wave = []
            for _ in range(n):
                script = "safe_runner" if (n > 1 or rng.random() < 0.6) else "runner"
                inv = {"script": script, "cwd": rng.choice(["clone", "clone", "clone/scripts", "else", "else", ".", "clone/result"]), "abs": rng.random() < 0.5,
                       "end": rng.choice([0, 0, 0, 0, 255, 1, -11, -9, -6]), "lines": rng.choice([0, 3, 3, 40, 3000]), "faults": []}
                if script == "safe_runner":
                    inv["args"] = [rng.choice(projects)]
                    u = rng.random()
                    if u < 0.4:
                        inv["args"] += ["--note", rng.choice(["x", "x", "two words", "*", "a/b", "$(date)", "-n", "é"])]
                    elif u < 0.45:
                        inv["args"] += ["--note"]
                    elif u < 0.5:
                        inv["args"] = []
                else:
                    inv["args"] = []
                u = rng.random()
                if u < 0.3:
                    inv["faults"] = [[rng.choice(["mkdir", "mkdir", "rm", "mps", "date", "dirname"]), rng.choice([0, 0, 1]), rng.choice(["fail", "fail", "kill", "killafter"])]]
                    if inv["faults"][0][0] == "rm":
                        inv["faults"][0][1:] = [0, rng.choice(["fail", "part", "part", "kill", "killafter"])]
                elif u < 0.4:
                    inv["fsize"] = rng.choice([0, 5, 20, 100, 1000, 5000])
                    inv["abs"] = False   # a message cut by the limit must not hold a part of the scratch directory's name
                elif u < 0.45:
                    inv["openfail"] = 1
                elif u < 0.5 and n == 1:
                    inv.update(cwd="clone/scripts", abs=False, lock=True)
                wave.append(inv)
            waves.append(wave)
        return {"waves": waves, "clone": rng.choice(NAMES), "pre": rng.choice(["none", "dir", "old", "old", "old", "part", "part", "file", "ro"]), "miss": rng.choice([None] * 8 + ["settings", "mps"]),
                "projects": projects, "clock": [rng.randint(10 ** 8, 2 * 10 ** 9), rng.choice(["still", "still", "still", "slow", "back", "jump"])], "pseed": rng.randint(1, 10 ** 9),
                "cdpath": rng.random() < 0.2}

    def judge(self, sim, sc, v):
        import os
        sh = shell.attach(sim)
        sh.wipe()
        rng = random.Random(sc["pseed"])
        cl = "home/" + sc["clone"]
        f = {"else/result/dambreak/mine.txt": b"mine\n", "else/result/dambreak/prof/output_0000.prof": b"mine too\n", "else/input/dambreak/settings.yml": b"decoy\n",
             "else/scripts/x": b"", "result/dambreak/top.txt": b"top\n", "home/result/dambreak/h.txt": b"h\n", "home/build/mps": ["bin", 0], "home/notes": b"n\n",
             cl + "/result.txt": b"r\n", cl + "/src/main.cpp": b"int main() {}\n", cl + "/build/Makefile": b"all:\n", "else/build": None}
        for p in sorted(set(sc["projects"]) | {"dambreak"}):
            f[cl + "/input/" + p + "/settings.yml"] = b"dim: 2\n"
            f[cl + "/input/" + p + "/input.prof"] = b"0\n0\n"
        f.update({cl + "/" + k: b for k, b in shell.scripts().items()})
        f[cl + "/build/mps"] = ["bin", 0]
        if sc["miss"] == "settings":
            for p in sc["projects"] + ["dambreak"]:
                f.pop(cl + "/input/" + p + "/settings.yml", None)
        elif sc["miss"] == "mps":
            del f[cl + "/build/mps"]
        t0, mode = sc["clock"]
        pre = sc["pre"]
        if pre == "dir":
            f[cl + "/result"] = None
        elif pre == "file":
            f[cl + "/result"] = b"a file\n"
        elif pre == "ro":
            f[cl + "/result"] = ["ro", None]
        elif pre in ("old", "part"):
            if pre == "old":
                f[cl + "/result/dambreak/settings.yml"] = b"old\n"
            f[cl + "/result/dambreak/prof/output_0007.prof"] = b"old\n"
            f[cl + "/result/dambreak/a b"] = b"old\n"
            f[cl + "/result/other/prof/output_0000.prof"] = b"other\n"
            f[cl + "/result/20200101000000-dambreak-/error.log"] = b""
        f[cl + "/input/.keep"] = b""
        sh.put(f)
        state = {"t": t0}
        seen = [t0]

        def clock(name):
            if name is not None:
                if mode == "slow":
                    state["t"] += rng.choice([0, 0, 1])
                elif mode == "back":
                    state["t"] += rng.choice([0, 1, -1, -2])
                elif mode == "jump":
                    state["t"] += rng.choice([0, 1, 3600, -3600, 86400 * 400])
            seen.append(state["t"])
            return state["t"]
        nid = 0
        for w, wave in enumerate(sc["waves"]):
            procs = []
            locked = False
            for inv in wave:
                nid += 1
                cwd = {"clone": cl, "clone/scripts": cl + "/scripts", "clone/result": cl + "/result"}.get(inv["cwd"], inv["cwd"])
                if not os.path.isdir(os.path.join(sh.world, cwd)):
                    cwd = cl
                p = cl + "/scripts/" + inv["script"] + ".sh"
                sp = "@W@/" + p if inv["abs"] else os.path.relpath("/w/" + p, os.path.normpath("/w/" + cwd))
                if sp.startswith("-"):
                    sp = "./" + sp
                env = {"DSTSH_MPSEND": str(inv["end"]), "DSTSH_LINES": str(inv["lines"])}
                if sc["cdpath"]:
                    env["CDPATH"] = "@W@/else:@W@"
                d = {"id": str(nid), "argv": ["bash", sp] + inv["args"], "cwd": cwd, "env": env, "faults": inv["faults"]}
                for k in ("fsize", "openfail"):
                    if k in inv:
                        d[k] = inv[k]
                locked = inv.get("lock")
                procs.append(d)
            before = sh.tree()
            if locked:
                sh.lock(cl, True)
            try:
                ps, trace = sh.run(procs, clock, lambda ws: rng.choice(ws))
            finally:
                if locked:
                    sh.lock(cl, False)
            after = sh.tree()
            shell.record(sim, ps, after, trace)
            v.evals += len(ps)
            v.sig(sc["clone"], [(i["script"], i["cwd"], i["args"], i["faults"], i.get("fsize"), i.get("openfail"), i.get("lock")) for i in wave], trace, mode, pre)
            self.wave(sc, v, cl, wave, ps, before, after, seen)
            if v.bad:
                v.bad[:] = [(a, "wave %d of %d: %s" % (w + 1, len(sc["waves"]), b)) for a, b in v.bad]
                return

    def wave(self, sc, v, cl, wave, ps, before, after, seen):
        import os
        stamps = {datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y%m%d%H%M%S") for t in seen}
        rel = lambda a, b: os.path.normpath(os.path.join(a, b))
        allowed = []
        owner = {}
        for inv, x in zip(wave, ps):
            what = "%s%s from %s" % (inv["script"], " " + repr(inv["args"]) if inv["args"] else "", inv["cwd"])
            v.probe(inv["script"])
            for l in x.log:
                if l[0] in ("escape", "decoy") or l[0] == "" and "decoy" in l:
                    v.fail("escape", "%s: %s" % (what, " ".join(l)))
                    return
            starts = [l for l in x.log if len(l) > 1 and l[0] == "start"]
            ends = [l for l in x.log if len(l) > 1 and l[0] == "end"]
            outdir = None
            if len(starts) > 1:
                v.fail("twice", "%s: the simulation is started %d times" % (what, len(starts)))
                return
            proj = inv["args"][0] if inv["args"] else "dambreak"
            if starts:
                cwd, args = starts[0][1], starts[0][2:]
                opt = {}
                for a, b in zip(args, args[1:]):
                    opt[{"-s": "--setting", "-o": "--output"}.get(a, a)] = b
                if not cwd.startswith("@W@"):
                    v.fail("place", "%s: the simulation runs in %s" % (what, cwd))
                    return
                st = rel(cwd, opt.get("--setting", "?"))
                outdir = rel(cwd, opt.get("--output", "?"))
                if st != "@W@/" + cl + "/input/" + proj + "/settings.yml":
                    v.fail("settings", "%s: the simulation is given the settings %s" % (what, st))
                    return
                if inv["script"] == "runner":
                    good = outdir == "@W@/" + cl + "/result/dambreak"
                else:
                    note = inv["args"][2] if len(inv["args"]) > 2 else ""
                    m = re.match(r"^(.*?)-" + re.escape(proj + "-" + note), outdir[len("@W@/" + cl + "/result/"):])
                    good = outdir.startswith("@W@/" + cl + "/result/") and m and m.group(1) in stamps
                if not good:
                    v.fail("outdir", "%s: the simulation is given the output directory %s" % (what, outdir))
                    return
                outdir = outdir[4:]
                if inv["script"] == "safe_runner":
                    if outdir + "/" in before:
                        v.fail("reused", "%s: the simulation is sent into %s, which an earlier run made" % (what, outdir))
                        return
                    if outdir in owner:
                        v.fail("reused", "%s: two concurrent runs are sent into %s" % (what, outdir))
                        return
                owner[outdir] = x
            mine = [cl + "/result/dambreak/"] if inv["script"] == "runner" else []
            allowed += mine
            faulted = bool(x.fired) or "fsize" in inv or "lock" in inv
            if not x.killed:
                ran0 = bool(ends) and ends[0][1] == "0"
                if x.rc == 0 and not ran0 and inv["args"] != [] + [None]:
                    v.fail("status", "%s ends with 0, but the simulation %s (stderr %r)" % (what, "ended with %s" % ends[0][1] if ends else "was not run to its end", x.err[-100:]))
                    return
                if x.rc == 0:
                    self.good(v, what, x, inv, outdir, before, after)
                    if v.bad:
                        return
                lonely = len(wave) == 1 and outdir is not None or len(wave) == 1 and not any(k.startswith(cl + "/result/") and k.endswith("-%s-%s/" % (proj, inv["args"][2] if len(inv["args"]) > 2 else "")) for k in before)
                if x.rc != 0 and not faulted and inv["end"] == 0 and sc["miss"] is None and sc["pre"] not in ("file", "ro") and (inv["script"] == "runner" or inv["args"]) and \
                        len(wave) == 1 and (inv["script"] == "runner" or lonely):
                    v.fail("refused", "%s ends with %d although nothing is wrong: %r" % (what, x.rc, x.err[-160:]))
                    return
                if not inv["args"] and inv["script"] == "safe_runner":
                    if x.rc == 0 or starts:
                        v.fail("usage", "%s without a project name: status %d" % (what, x.rc))
                        return
                    v.probe("usage")
        # nothing else changed
        for k in sorted(set(before) | set(after)):
            if before.get(k) == after.get(k):
                continue
            if any(k.startswith(a) for a in allowed) or k == cl + "/result/" or k == cl + "/result/dambreak/" and allowed:
                continue
            if any(i["script"] == "safe_runner" for i in wave) and k.startswith(cl + "/result/"):
                parts = k[len(cl + "/result/"):].split("/")
                if k not in before and any(cl + "/result/" + "/".join(parts[:j]) + "/" not in before for j in range(1, len(parts))) and parts[0].split("-")[0] in stamps | {""}:
                    continue
            v.fail("touched", "%s %s by %s" % (k, "was removed" if k not in after else "was created" if k not in before else "was changed",
                                             " and ".join("%s %r from %s" % (i["script"], i["args"], i["cwd"]) for i in wave)))
            return
        for o, x in owner.items():
            for k, b in after.items():
                if k.startswith(o + "/") and b and b"of run " in b[:7] and b != b"of run %s\n" % x.id.encode() and k not in before:
                    v.fail("mixed", "%s in the output directory of run %s was written by another run" % (k, x.id))
                    return

    def good(self, v, what, x, inv, outdir, before, after):
        v.probe("completed")
        have = {k[len(outdir) + 1:]: b for k, b in after.items() if k.startswith(outdir + "/") and not k.endswith("/")}
        run = b"of run %s\n" % x.id.encode()
        con = b"".join(b"%s: step %d dt=0.001s Courant=0.20\n" % (x.id.encode(), i) for i in range(inv["lines"]))
        err = b"".join(b"%4d: t=%.3lfs of %s\n" % (i, i * 0.001, x.id.encode()) for i in range(0, inv["lines"], 7))
        want = {"settings.yml": run, "prof/output_0000.prof": run, "prof/output_0001.prof": run, "console.log": con, "error.log": err}
        d = C.diff_trees(want, have, "a complete run", "the result directory")
        if d:
            v.fail("result", "%s ends with 0, but %s" % (what, d))
        elif con not in x.out:
            v.fail("console", "%s ends with 0, but the simulation's console output is not shown" % what)

    def shrink(self, sc):
        yield from C.shrink_list(sc, ["waves"])
        for i, w in enumerate(sc["waves"]):
            if len(w) > 1:
                for j in range(len(w)):
                    d = copy.deepcopy(sc)
                    del d["waves"][i][j]
                    yield d
            for j, inv in enumerate(w):
                for k in ("lock", "openfail", "fsize"):
                    if k in inv:
                        d = copy.deepcopy(sc)
                        del d["waves"][i][j][k]
                        yield d
                for k, x in (("faults", []), ("end", 0), ("lines", 3), ("cwd", "clone"), ("abs", False)):
                    if inv[k] != x:
                        d = copy.deepcopy(sc)
                        d["waves"][i][j][k] = x
                        yield d
        for k, x in (("clone", "repo"), ("pre", "none"), ("miss", None), ("cdpath", False)):
            if sc[k] != x:
                yield dict(sc, **{k: x})
        if sc["clock"][1] != "still":
            yield dict(sc, clock=[sc["clock"][0], "still"])
