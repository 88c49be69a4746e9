"""Long histories of runs in one file system: completed, refused, failed, killed, restarted, into new and used directories."""
import copy
import os
import random
import re

from .. import world
from ..core import Check
from . import common as C
from . import iofaults as IO

NUM = re.compile(r"^(prof|vtu|csv)/output_(\d+)\.(prof|vtu|csv)$")


def as_files(tree):
    return {k.rstrip("/"): (None if k.endswith("/") else x) for k, x in tree.items()}


class C32(Check):
    id = "C32"
    technique = ("deterministic simulation: seeded histories of runs in one file system with kills, failing operations, partial I/O, clock steps and restarts in between; after every run "
                 "the whole tree compared with a model: what was there plus what the same two files give in an empty place")
    variants = ("mps",)
    quick = 1500
    thorough = 90000
    rule = ("one scenario = a history of 3 to 12 runs of mps, each from the original particle file or from any file of an earlier snapshot (whole or not), into a new output directory or one "
            "used before, with the copies of earlier inputs there or cleared away, undisturbed or with a kill or fault; distinct = (history up to and with this run)")
    assumptions = ["snapshots of a killed or failed run that lie in a directory used before may be old or cut in the one snapshot that was being written"]

    def gen(self, rng, tier, i):
        case = world.gen_case(rng, size="xs", steps=rng.randint(1, 4), binary=False, per_step=rng.random() < 0.7)
        ops = []
        for k in range(rng.randint(3, 6 if i % 8 else 12)):
            if k and rng.random() < 0.2:
                ops.append({"op": rng.choice(["clear", "clear", "clear", "empty"]), "out": rng.random()})
            o = {"op": "run", "src": rng.random() if k and rng.random() < 0.75 else -1, "last": rng.random() < 0.5, "out": rng.random() if k and rng.random() < 0.5 else -1,
                 "name": rng.choice(["settings.yml", "settings.yml", "s%d.yml" % k]), "binary": rng.random() < 0.15, "steps": rng.randint(0, 4), "period": rng.choice([1, 1, 1, 2, 0.5]),
                 "seed": rng.randint(1, 10 ** 6)}
            u = rng.random()
            if u < 0.3:
                o["kill"] = [rng.random(), rng.choice(["kill", "killafter", "torn"])]
            elif u < 0.45:
                o["err"] = [rng.random(), rng.choice(["err", "perr"]), rng.choice(IO.WERR)]
            elif u < 0.5:
                o["afault"] = [rng.random(), rng.choice([1, 10 ** 9])]
            if rng.random() < 0.2:
                o["shortio"] = [rng.choice([300, 900]), 0, rng.choice([30, 200])]
            if rng.random() < 0.3:
                o["clock"] = rng.randint(1, 5)
            ops.append(o)
        return {"case": case, "ops": ops}

    def judge(self, sim, sc, v):
        c = sc["case"]
        tree = {"data/": b"", "data/first." + c["fmt"]: world.particle_file(c)}
        outs, memo, nout = [], {}, 0
        hist = []
        for k, o in enumerate(sc["ops"]):
            if o["op"] != "run":
                if outs:
                    d = outs[int(o["out"] * len(outs))]
                    if o["op"] == "clear":   # the copies of the input go, the snapshots stay
                        tree = {x: b for x, b in tree.items() if not (os.path.dirname(x) == d and not x.endswith("/"))}
                    else:
                        tree = {x: b for x, b in tree.items() if not x.startswith(d + "/") or x == d + "/"}
                    hist.append((o["op"], outs.index(d)))
                continue
            src = "data/first." + c["fmt"]
            if o["src"] >= 0:
                cand = sorted(x for x in tree if x.endswith((".prof", ".csv", ".vtu")))
                if o["last"]:   # of the latest output directory
                    cand = [x for x in cand if outs and x.startswith(outs[-1] + "/")] or cand
                src = cand[int(o["src"] * len(cand))]
            if o["out"] >= 0 and outs:
                out = outs[int(o["out"] * len(outs))]
            else:
                out = "out%d" % nout
                nout += 1
                outs.append(out)
                tree[out + "/"] = b""
            conf = "conf%d" % k
            s = dict(copy.deepcopy(c["s"]), ppath="../" + src, binary=o["binary"])
            t = re.search(rb"output_\d+\.", src.encode()) and self.time_of(tree[src], src)
            t0 = c["t0"] if t is None or t is False else t
            s["end"] = t0 + (o["steps"] - 0.5) * s["dt"]
            s["period"] = s["dt"] * o["period"]
            tree[conf + "/"] = b""
            tree[conf + "/" + o["name"]] = world.settings_text(s)
            args = ["mps", "-s", conf + "/" + o["name"], "-o", out]
            plan = dict(world.base_plan(), args=args, log=1, seed=o["seed"])
            # the same two files in an empty place
            alone = {conf: None, conf + "/" + o["name"]: tree[conf + "/" + o["name"]], out: None, src: tree[src]}
            key = C.sha(repr(sorted((a, b) for a, b in alone.items() if b is not None)).encode())
            ref = sim.run("mps", dict(plan), alone)
            v.evals += 1
            if C.crashed(ref):
                v.fail("crash", "%s from %s in an empty place: %s" % (out, src, ref.brief()))
                return
            for f in ("shortio", "clock"):
                if f in o:
                    plan[f] = o[f]
            log = IO.oplog(ref)
            if "kill" in o and log:
                plan["faults"] = [[int(o["kill"][0] * len(log)), o["kill"][1], 0]]
            elif "err" in o and log:
                plan["faults"] = [[int(o["err"][0] * len(log))] + o["err"][1:]]
            elif "afault" in o:
                plan["afault"] = [int(o["afault"][0] * ref.res["allocs"]), o["afault"][1]]
            r = sim.run("mps", plan, as_files(tree))
            v.evals += 1
            new = dict(r.tree)
            hist.append((src if o["src"] < 0 else src.replace(conf, ""), out, key, plan.get("faults"), plan.get("afault"), o.get("shortio"), o.get("clock")))
            v.sig(C.sha(repr(hist).encode()))
            what = "run %d of the history (%s into %s%s%s)" % (k + 1, src, out, ", %s at operation %d" % (plan["faults"][0][1], plan["faults"][0][0]) if "faults" in plan else "",
                                                              ", allocation %d fails" % plan["afault"][0] if "afault" in plan else "")
            if C.crashed(r):
                v.fail("crash", "%s: %s" % (what, r.brief()))
                return
            disturbed = sum(x for f, x in r.res["fired"].items()) > 0 and ("faults" in plan or "afault" in plan)
            taken = [x for x in (out + "/" + o["name"], out + "/" + os.path.basename(src)) if x in tree]
            made = {x: b for x, b in ref.tree.items() if x.startswith(out + "/") and alone.get(x) != b and x != out + "/"}
            v.probe("taken" if taken else "disturbed" if disturbed else "undisturbed")
            if src.startswith(out + "/"):
                v.probe("own_output")
            if taken:   # refused, all is as it was
                if not r.died and r.kind != "killed":
                    v.fail("taken", "%s: %s is there already, but %s" % (what, taken[0], r.brief()))
                part = {x for x in new if x not in tree and x in made and not NUM.match(x[len(out) + 1:]) and x[-1] != "/"}   # the copy of the other one may have been made
                d = C.diff_trees(tree, {x: b for x, b in new.items() if x not in part}, "before", "after")
                if d:
                    v.fail("taken", "%s: %s is there already, but %s" % (what, taken[0], d))
            elif not disturbed or r.ok:
                if (r.kind, r.code) != (ref.kind, ref.code):
                    v.fail("outcome", "%s ends with %s, in an empty place with %s" % (what, r.brief(), ref.brief()))
                d = C.diff_trees(dict(tree, **made), new, "the model", "the history")
                if d:
                    v.fail("tree", "%s: %s" % (what, d))
            else:
                if not r.died and r.kind != "killed":
                    v.fail("outcome", "%s: %s" % (what, r.brief()))
                self.partial(v, what, tree, new, made, out, "kill" in o)
            if v.bad:
                return
            tree = new

    @staticmethod
    def time_of(data, name):
        try:
            if name.endswith(".vtu"):
                return float(re.search(rb'Name="?\'?(?:Time|TimeValue)[^>]*>\s*([^<\s]+)', data).group(1))
            return float(data.split(b"\n", 1)[0])
        except (AttributeError, ValueError):
            return None

    @staticmethod
    def partial(v, what, tree, new, made, out, killed):
        """whole snapshots up to some number, one that may be anything between, nothing after it; nothing else touched"""
        broken = set()
        later = set()
        for x in sorted(set(tree) | set(new)):
            a, b, m = tree.get(x), new.get(x), made.get(x)
            if x in made:
                n = NUM.match(x[len(out) + 1:])
                if b == m and b != a:
                    later.add(int(n.group(2)) if n else -1)
                elif n:
                    if killed and b != a and b is not None and not m.startswith(b):
                        v.fail("partial", "%s: %s is neither old nor a part of the new" % (what, x))
                    if b != m:
                        broken.add(int(n.group(2)))
                elif killed and b != a and not (b is not None and (m.startswith(b) or not m)):
                    v.fail("partial", "%s: %s is no part of the input" % (what, x))
                elif b != m and not x.endswith("/"):
                    broken.add(-1)
            elif a != b:
                v.fail("others", "%s: %s, which is none of its files, was %s" % (what, x, "changed" if x in tree and x in new else "created" if x in new else "removed"))
        if broken and later and max(later) > min(broken):
            v.fail("order", "%s: snapshot %d is written, but %d is not whole" % (what, max(later), min(broken)))

    def shrink(self, sc):
        for k in range(len(sc["ops"]) - 1, -1, -1):
            d = copy.deepcopy(sc)
            del d["ops"][k]
            if d["ops"]:
                yield d
        for k, o in enumerate(sc["ops"]):
            for f in ("kill", "err", "afault", "shortio", "clock"):
                if f in o:
                    d = copy.deepcopy(sc)
                    del d["ops"][k][f]
                    yield d
        yield from C.shrink_case(sc)
