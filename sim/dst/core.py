"""Search driver: seeded scenarios -> simulated runs -> verdicts; gating, minimisation, replay files, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

from . import build, runner

VERIF = build.VERIF
OUT = os.environ.get("DST_OUT", VERIF)   # where evidence and replay files go
KNOWN = os.path.join(VERIF, "known_findings.txt")


class V:
    """Verdict of one scenario."""

    def __init__(self):
        self.bad = []      # (class, message)
        self.evals = 0
        self.sigs = set()
        self.probes = {}

    def fail(self, cls, msg):
        self.bad.append((cls, msg))

    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def sig(self, *x):
        self.sigs.add(hashlib.sha1(repr(x).encode()).hexdigest()[:16])


class Check:
    id = None
    technique = "deterministic simulation with fault injection"
    level = "exploration"
    variants = ("mps",)
    quick = 100
    thorough = 2000
    rule = ""
    real = []
    stub = ["file system calls: real kernel files in a scratch root behind an interposed, fault-injecting libc layer",
            "clock, console, standard input: simulated", "heap: simulated arena with chosen fill and injected failures"]
    assumptions = []

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def judge(self, sim, sc, v):
        raise NotImplementedError

    def shrink(self, sc):
        return iter(())


def load(prop):
    from . import checks
    for m in checks.MODULES:
        mod = importlib.import_module("dst.checks." + m)
        for k in vars(mod).values():
            if isinstance(k, type) and issubclass(k, Check) and k.id == prop:
                return k()
    raise SystemExit("no check for " + prop)


def all_ids():
    from . import checks
    ids = []
    for m in checks.MODULES:
        mod = importlib.import_module("dst.checks." + m)
        for k in vars(mod).values():
            if isinstance(k, type) and issubclass(k, Check) and k.id and k.__module__ == mod.__name__:
                ids.append(k.id)
    return sorted(ids)


def scenario(check, seed, tier, i):
    rng = random.Random("%s/%s/%d" % (check.id, seed, i))
    sc = check.gen(rng, tier, i)
    sc = json.loads(json.dumps(sc))  # exactly what a replay file would hold
    return sc


def evaluate(check, sim, sc):
    v = V()
    sim.hist = []
    check.judge(sim, sc, v)
    h = hashlib.sha256(json.dumps([sim.hist, sorted(v.bad)]).encode()).hexdigest()[:32]
    return v, h


# ---------------------------------------------------------------- worker side
_W = {}


def _winit(prop, bins, counter, base):
    ncpu = sorted(os.sched_getaffinity(0))
    with counter.get_lock():
        k = counter.value
        counter.value += 1
    try:
        if not os.environ.get("DST_NOPIN"):
            os.sched_setaffinity(0, {ncpu[k % len(ncpu)]})
    except OSError:
        pass
    d = os.path.join(base, "w%02d" % k)
    os.makedirs(d)
    _W["check"] = load(prop)
    _W["sim"] = runner.Sim(bins, d)


def _wrun(args):
    seed, tier, i, deadline = args
    if time.time() > deadline:
        return None
    check, sim = _W["check"], _W["sim"]
    sim.take_stats()
    t0 = time.time()
    try:
        sc = scenario(check, seed, tier, i)
        for attempt in range(2):
            try:
                v, h = evaluate(check, sim, sc)
                break
            except runner.Infra as e:  # trouble of the machine: the same scenario once more, from fresh fork servers
                if attempt:
                    return {"i": i, "infra": str(e)}
                print("note: scenario %d is run again: %s" % (i, e), file=sys.stderr, flush=True)
                sim.drop()
    except Exception:
        return {"i": i, "infra": traceback.format_exc()[-3000:]}
    sch = {x[1] for x in sim.hist}
    return {"i": i, "t": time.time() - t0, "bad": v.bad, "hash": h, "evals": v.evals, "sigs": v.sigs, "probes": v.probes, "stats": sim.take_stats(), "sch": sch,
            "runs": {x[0] for x in sim.hist}}


def unpin(roots):
    """Lets the workers and every process they started run on any processor. A processor shared with another load can starve a
    pinned process for minutes; which processor a simulated process runs on has no influence on what it does."""
    kids = {}
    for e in os.listdir("/proc"):
        if e.isdigit():
            try:
                with open("/proc/%s/stat" % e) as f:
                    kids.setdefault(int(f.read().rsplit(")", 1)[1].split()[1]), []).append(int(e))
            except (OSError, ValueError, IndexError):
                pass
    todo = list(roots)
    while todo:
        p = todo.pop()
        todo.extend(kids.get(p, ()))
        try:
            for t in os.listdir("/proc/%d/task" % p):
                os.sched_setaffinity(int(t), os.sched_getaffinity(os.getpid()))
        except OSError:
            pass


def results(it, pool, patience=15):
    while True:
        try:
            yield it.next(timeout=patience)
        except mp.TimeoutError:
            unpin([w.pid for w in pool._pool])
        except StopIteration:
            return


def merge(a, b):
    for k, x in b.items():
        if isinstance(x, dict):
            merge(a.setdefault(k, {}), x)
        else:
            a[k] = a.get(k, 0) + x


def known(prop):
    out = []
    try:
        with open(KNOWN) as f:
            for l in f:
                l = l.strip()
                if l.startswith("finding:") and ("property=%s " % prop) in l:
                    d = dict(x.split("=", 1) for x in l.split() if "=" in x)
                    out.append((d.get("class"), l))
    except OSError:
        pass
    return out


def sample_of(sc):
    s = json.dumps(sc)
    if len(s) <= 1500:
        return sc
    return {"excerpt": s[:1500]}


def run_check(prop, tier=None, seed=None, n=None, cap=None, workers=None, quiet=False):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    print("%s tier=%s VERIF_SEED=%d" % (prop, tier, seed), flush=True)
    check = load(prop)
    try:
        bins = build.build(check.variants)
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    tb = time.time() - t0
    total = n or (check.quick if tier == "quick" else check.thorough)
    cap = cap or (100 if tier == "quick" else 3000)
    deadline = time.time() + cap
    base = runner.new_scratch()
    nw = workers or len(os.sched_getaffinity(0))
    counter = mp.Value("i", 0)
    ctx = mp.get_context("fork")
    tot = {"evals": 0, "probes": {}, "stats": {}, "sigs": set(), "sch": set(), "runs": set(), "scen": 0}
    bad, infra = [], []
    slow = (0.0, 0)
    tsearch = time.time()
    pool = ctx.Pool(nw, _winit, (prop, bins, counter, base))
    try:
        it = pool.imap_unordered(_wrun, [(seed, tier, i, deadline) for i in range(total)], chunksize=1)
        for r in results(it, pool):
            if r is None:
                continue
            if "infra" in r:
                infra.append(r)
                if len(infra) > 5:
                    break
                continue
            tot["scen"] += 1
            slow = max(slow, (r["t"], r["i"]))
            tot["evals"] += r["evals"]
            tot["sigs"] |= r["sigs"]
            tot["sch"] |= r["sch"]
            tot["runs"] |= r["runs"]
            merge(tot["probes"], r["probes"])
            merge(tot["stats"], r["stats"])
            if r["bad"]:
                bad.append(r)
                if len(bad) >= 6:
                    break
    finally:
        pool.terminate()
        pool.join()
    tsearch = time.time() - tsearch
    rc = 0
    sim = runner.Sim(bins, os.path.join(base, "m00"))
    try:
        reported = False
        if bad:
            kn = known(prop)
            bad.sort(key=lambda r: r["i"])
            unrep = 0
            seen_known = set()
            for r in bad:
                fresh = [b for b in r["bad"] if not any(k[0] == b[0] for k in kn)]
                for b in r["bad"]:
                    for k in kn:
                        if k[0] == b[0] and b[0] not in seen_known:
                            seen_known.add(b[0])
                            print("KNOWN-FINDING: property=%s %s" % (prop, b[1]))
                if not fresh or reported:
                    continue
                path = report(check, sim, seed, tier, r, fresh[0])
                if path is None:
                    unrep += 1
                else:
                    reported = True
            if reported:
                rc = 1
            elif unrep:
                print("ERROR: %d violation(s) did not reproduce exactly" % unrep)
                rc = 2
        if infra and rc == 0:
            print("ERROR: simulator trouble in scenario %s: %s" % (infra[0]["i"], infra[0]["infra"]))
            rc = 2
        if tot["scen"] == 0 and rc == 0:
            print("ERROR: nothing was explored")
            rc = 2
    finally:
        sim.close()
        import shutil
        shutil.rmtree(base, ignore_errors=True)
    evidence(check, tier, seed, tot, t0, tb, tsearch, len(bad), total, nw)
    print("%s: %d scenarios, %d evaluations, %d distinct, %d runs, build %.1fs search %.1fs (slowest: scenario %d, %.1fs) wall %.1fs exit %d" %
          (prop, tot["scen"], tot["evals"], len(tot["sigs"]), tot["stats"].get("runs", 0), tb, tsearch, slow[1], slow[0], time.time() - t0, rc), flush=True)
    return rc


# ---------------------------------------------------------------- violations
def same(check, sim, sc, cls):
    v, h = evaluate(check, sim, sc)
    for b in v.bad:
        if b[0] == cls:
            return b, h
    return None, h


def minimise(check, sim, sc, cls, budget=60):
    end = time.time() + budget
    best = sc
    tried = 0
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in check.shrink(best):
            if time.time() > end:
                break
            cand = json.loads(json.dumps(cand))
            tried += 1
            try:
                b, _ = same(check, sim, cand, cls)
            except Exception:
                continue
            if b:
                best = cand
                progress = True
                break
    return best, tried


def report(check, sim, seed, tier, r, first):
    cls = first[0]
    sc = scenario(check, seed, tier, r["i"])
    try:
        b1, h1 = same(check, sim, sc, cls)
        b2, h2 = same(check, sim, sc, cls)
    except runner.Infra as e:
        print("ERROR: " + str(e))
        return None
    if not b1 or not b2 or h1 != h2 or h1 != r["hash"]:
        print("ERROR: scenario %d (%s) does not repeat: %s" % (r["i"], cls, first[1]))
        return None
    small, tried = minimise(check, sim, sc, cls)
    for cand in (small, sc):
        b, h = same(check, sim, cand, cls)
        if not b:
            continue
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", "%s-%s-%d.json" % (check.id, seed, r["i"]))
        with open(path, "w") as f:
            json.dump({"property": check.id, "class": cls, "message": b[1], "hash": h, "verif_seed": seed, "tier": tier, "index": r["i"],
                       "minimised": cand is small and tried > 0, "shrink_attempts": tried, "scenario": cand}, f, indent=1)
        p = subprocess.run([sys.executable, os.path.join(VERIF, "sim", "run.py"), "replay", path, "--quiet"], stdout=subprocess.PIPE)
        if p.returncode == 1:
            print("violation: [%s] %s" % (cls, b[1]))
            print("seed: VERIF_SEED=%d scenario=%d; minimised with %d attempts; replay: ./dst replay %s" % (seed, r["i"], tried, path))
            print("VIOLATION property=%s replay=%s" % (check.id, path), flush=True)
            return path
    print("ERROR: fresh-process replay of scenario %d (%s) differs: %s" % (r["i"], cls, first[1]))
    return None


def replay(path, quiet=False):
    with open(path) as f:
        d = json.load(f)
    check = load(d["property"])
    try:
        bins = build.build(check.variants)
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    sim = runner.Sim(bins)
    try:
        b, h = same(check, sim, d["scenario"], d["class"])
    finally:
        sim.close()
    if not b:
        if not quiet:
            print("not reproduced (the property holds on this scenario)")
        return 0
    exact = h == d["hash"]
    if not quiet:
        print("[%s] %s" % b)
        print("event hash %s %s" % (h, "identical" if exact else "DIFFERS from the recorded " + d["hash"]))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1 if exact or not quiet else 3


def evidence(check, tier, seed, tot, t0, tb, ts, nbad, planned, nw):
    st = tot["stats"]
    sim_s = st.get("simns", 0) / 1e9
    samples = []
    for i in range(min(2, max(1, tot["scen"]))):
        try:
            samples.append({"scenario_index": i, "scenario": sample_of(scenario(check, seed, tier, i))})
        except Exception:
            pass
    cov = {
        "evaluations": tot["evals"],
        "distinct_nontrivial": len(tot["sigs"]),
        "rule": check.rule,
        "samples": samples,
        "scenarios": tot["scen"],
        "scenarios_planned": planned,
        "simulated_processes": st.get("runs", 0),
        "runs_per_hour": int(st.get("runs", 0) / max(ts, 1e-3) * 3600),
        "seeds_per_hour": int(tot["scen"] / max(ts, 1e-3) * 3600),
        "simulated_clock_seconds": round(sim_s, 3),
        "io_operations": st.get("ops", 0),
        "memory_accesses_interleaved": st.get("accs", 0),
        "parallel_regions": st.get("regions", 0),
        "context_switches": st.get("switches", 0),
        "faults_fired": st.get("fired", {}),
        "process_ends": st.get("ends", {}),
        "clock_jumps": st.get("clockjumps", 0),
        "clock_steps_back": st.get("clockback", 0),
        "distinct_event_histories": len(tot["runs"]),
        "distinct_interleavings": len(tot["sch"]),
        "probes": tot["probes"],
        "components_real": check.real or ["all of src/ (unmodified objects built from the working tree)"],
        "components_stubbed": check.stub,
        "build_s": round(tb, 2),
        "workers": nw,
    }
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": nbad, "assumptions": check.assumptions}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def selftest(prop, n, seed=1):
    """same seeds twice, in different worker processes and at different worker counts: all event hashes must agree"""
    check = load(prop)
    bins = build.build(check.variants)
    logs = []
    for nw in (8, 3):
        base = runner.new_scratch()
        counter = mp.Value("i", 0)
        ctx = mp.get_context("fork")
        order = list(range(n))
        random.Random(nw).shuffle(order)
        pool = ctx.Pool(nw, _winit, (prop, bins, counter, base), maxtasksperchild=7)
        log = {}
        for r in pool.imap_unordered(_wrun, [(seed, "quick", i, time.time() + 3600) for i in order]):
            log[r["i"]] = r.get("hash", r.get("infra"))
        pool.close()
        pool.join()
        import shutil
        shutil.rmtree(base, ignore_errors=True)
        logs.append(log)
    diff = [i for i in range(n) if logs[0][i] != logs[1][i]]
    print("%s: %d scenarios twice, %d differ %s" % (prop, n, len(diff), diff[:5]))
    return 1 if diff else 0
