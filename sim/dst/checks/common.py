import copy
import hashlib

from .. import fmt, world


def sha(b):
    return hashlib.sha1(b).hexdigest()[:12]


def sub_case(c, keep):
    d = copy.deepcopy(c)
    for k in ("type", "pos", "vel", "fluid", "density"):
        if d.get(k):
            d[k] = [d[k][i] for i in keep]
    return d


def shrink_case(sc, key="case", minn=1):
    """fewer steps, fewer particles, simpler settings"""
    c = sc[key]
    n = c["steps"]
    for m in (1, n // 2, n - 1):
        if 1 <= m < n:
            d = copy.deepcopy(sc)
            d[key]["steps"] = m
            d[key]["s"]["end"] = c["t0"] + (m - 0.5) * c["s"]["dt"]
            yield d
    np_ = len(c["type"])
    size = np_ // 2
    while size >= 1:
        for a in range(0, np_, size):
            keep = [i for i in range(np_) if not a <= i < a + size]
            if len(keep) >= minn and len(keep) < np_:
                d = copy.deepcopy(sc)
                d[key] = sub_case(c, keep)
                yield d
        if size > 1 and np_ / size > 16:
            break
        size //= 2
    if c["s"]["method"] == "Implicit":
        d = copy.deepcopy(sc)
        d[key]["s"]["method"] = "Explicit"
        yield d


def shrink_list(sc, path):
    """drop elements of a list inside the scenario (path: keys)"""
    o = sc
    for k in path:
        if isinstance(o, dict) and k not in o:
            return
        o = o[k]
    n = len(o)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            if n - min(size, n - a) < 0:
                continue
            d = copy.deepcopy(sc)
            q = d
            for k in path:
                q = q[k]
            del q[a:a + size]
            yield d
        size //= 2


def shrink_plan(sc, key="plan", drop=("teamvary", "shortio", "clock", "memfill", "killacc", "quota", "afault")):
    p = sc.get(key)
    if not isinstance(p, dict):
        return
    for k in drop:
        if k in p:
            d = copy.deepcopy(sc)
            del d[key][k]
            yield d
    if p.get("threads", 1) > 2:
        for t in (2, 3):
            if t < p["threads"]:
                d = copy.deepcopy(sc)
                d[key]["threads"] = t
                yield d


def diff_trees(a, b, na="baseline", nb="this run"):
    """first difference between two output trees as text, or None"""
    ka, kb = set(a), set(b)
    if ka != kb:
        x = sorted(ka ^ kb)[0]
        return "%s only in %s" % (x, na if x in ka else nb)
    for k in sorted(ka):
        if a[k] != b[k]:
            i = next((i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y), min(len(a[k]), len(b[k])))
            return "%s differs at byte %d of %d/%d: %r vs %r" % (k, i, len(a[k]), len(b[k]), a[k][max(0, i - 10):i + 20], b[k][max(0, i - 10):i + 20])
    return None


def outs(r, outdir="out"):
    return r.sub(outdir + "/")


def crashed(r):
    """ended in a way no run ever may"""
    return r.kind in ("segv", "fpe", "bus", "ill", "badmem", "deadlock", "budget", "hang", "pipe")


def snaps(r, outdir="out"):
    return fmt.snapshots(outs(r, outdir))


def sched_plan(rng, threads=None):
    t = threads or rng.choice([2, 2, 3, 4, 4, 7, 8, 8, 13, 32])
    m = rng.choice([1, 2, 2, 2, 3, 3])
    p = {"threads": t, "smode": m, "seed": rng.randint(1, 10 ** 6)}
    if m == 2:
        p["sp"] = rng.choice([0.3, 0.05, 0.01, 0.002])
    if m == 3:
        p["sd"] = rng.choice([1, 2, 4, 8])
        p["smean"] = rng.choice([50, 500, 3000])
    if rng.random() < 0.25:
        p["teamvary"] = 1
    return p


def set_steps(c, n):
    s = c["s"]
    c["steps"] = n
    s["end"] = c["t0"] + (n - 0.5) * s["dt"]
