"""Builds the simulated binaries from the working tree of /repo.

Nothing is written below /repo: objects go to <verif>/.build, keyed by the hash of everything they are made of.
Variants:
  mps       the simulator exactly as the sandbox ships it (no OpenMP, -O2 -DNDEBUG) + runtime
  omp       the same sources with -fopenmp, instrumented (-fsanitize=thread callbacks answered by the runtime)
  dambreak, hydrostatic   the two generators, as shipped
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import subprocess
import sys

REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, ".build"))
CXX = "/usr/bin/g++"
INC = ["-I/usr/include/eigen3", "-I/usr/include/libfccp", "-I/opt/vp/deps/argparse/include", "-I" + REPO + "/src", "-I" + REPO + "/generator",
       "-I" + REPO + "/generator/generator_src"]
COMMON = ["-std=gnu++17", "-w", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-g1"] + INC
PLAIN = COMMON + ["-O2", "-DNDEBUG"]
OMP = COMMON + ["-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fopenmp", "-fsanitize=thread",
                "--param=tsan-distinguish-volatile=0"]
WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=memcpy,--wrap=memmove,--wrap=memset"]


# seams of the shell scripts
SMALL = {"shcmd": ("shcmd.c", []), "shclock": ("shclock.c", ["-shared", "-fPIC"])}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers():
    h = hashlib.sha256()
    for top in ("src", "generator"):
        for d, dn, fn in sorted(os.walk(os.path.join(REPO, top))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".hpp", ".h", ".hh", ".tpp", ".inl", ".ipp")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0" + _read(p) + b"\0")
    return h.hexdigest()


def _target_sources(cmake, name):
    m = re.search(r"add_(?:executable|library)\(\s*" + name + r"\s+([^)]*)\)", cmake)
    if not m:
        return []
    return [t.strip('"') for t in m.group(1).split() if t.endswith((".cpp", ".cc", ".cxx"))]


def _strip(t):
    return re.sub(r"#.*", "", t)


def sources():
    top = _strip(_read(REPO + "/CMakeLists.txt").decode())
    mps = _target_sources(top, r"\$\{PROJECT_NAME\}") or _target_sources(top, "mps")
    parts = _target_sources(top, "particles")
    if not mps:
        mps = []
        for d, _, fn in os.walk(REPO + "/src"):
            mps += [os.path.relpath(os.path.join(d, f), REPO) for f in fn if f.endswith(".cpp")]
    if not parts:
        parts = ["src/particle.cpp", "src/particles.cpp", "src/particles_exporter.cpp"]
    try:
        gen = _strip(_read(REPO + "/generator/CMakeLists.txt").decode())
    except OSError:
        gen = ""
    out = {"mps": mps, "omp": mps}
    for g in ("dambreak", "hydrostatic"):
        s = ["generator/" + x for x in _target_sources(gen, "generate_" + g)] if gen else []
        s = [os.path.normpath(x) for x in s]
        if not s:
            s = ["generator/generate_%s.cpp" % g, "generator/generator_src/generator_dialogue.cpp"]
        # a source list may be hidden in a variable: take the shared dialogue in any case
        for d, _, fn in os.walk(REPO + "/generator"):
            for f in sorted(fn):
                rel = os.path.relpath(os.path.join(d, f), REPO)
                if f.endswith(".cpp") and not f.startswith("generate_") and rel not in s:
                    s.append(rel)
        if not any(x.endswith("generate_%s.cpp" % g) for x in s):
            s.append("generator/generate_%s.cpp" % g)
        out[g] = s + [x for x in parts if x not in s]
    return out


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-4000:])


def _obj(src, flags, key, rename):
    o = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(o):
        tmp = "%s.%d.tmp.o" % (o, os.getpid())
        _run([CXX] + flags + ["-c", src, "-o", tmp])
        if rename:
            _run(["objcopy", "--redefine-sym", "main=app_main", tmp])
        os.replace(tmp, o)
    else:
        os.utime(o)
    return o


def build(want=("mps", "omp", "dambreak", "hydrostatic", "shcmd", "shclock"), log=None):
    """Returns {variant: path of binary}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(want)


def _build(want):
    hk = _headers()
    srcs = sources()
    rt = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rt.cpp")
    jobs = {}
    link = {}

    def add(path, flags, extra, rename):
        key = hashlib.sha256(b"\0".join([extra.encode(), " ".join(flags).encode(), path.encode(), _read(path),
                                          str(rename).encode()])).hexdigest()[:32]
        jobs[key] = (path, flags, key, rename)
        return key

    rtflags = ["-std=gnu++17", "-O2", "-g1", "-w", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-fno-builtin-memcpy"]
    rk = add(rt, rtflags, "", False) if any(v not in SMALL for v in want) else None
    small = [v for v in want if v in SMALL]
    want = [v for v in want if v not in SMALL]
    for v in want:
        flags = OMP if v == "omp" else PLAIN
        link[v] = [rk] + [add(os.path.join(REPO, s), flags, hk, True) for s in srcs[v]]
    heavy = ("implicit", "pressure_poisson", "rt.cpp", "loader", "main.cpp")
    order = sorted(jobs.values(), key=lambda j: -sum(h in j[0] for h in heavy) - ("tsan" in " ".join(j[1])))
    done = {}
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {ex.submit(_obj, *j): j[2] for j in order}
        for f in cf.as_completed(futs):
            done[futs[f]] = f.result()
    bins = {}
    here = os.path.dirname(rt)
    for v in small:
        src, args = SMALL[v]
        lk = hashlib.sha256(_read(os.path.join(here, src)) + " ".join(args).encode()).hexdigest()[:24]
        b = os.path.join(BUILD, "bin", "%s-%s" % (v, lk))
        if not os.path.exists(b):
            tmp = "%s.%d.tmp" % (b, os.getpid())
            _run(["/usr/bin/gcc", "-O2", "-w"] + args + ["-o", tmp, os.path.join(here, src)])
            os.replace(tmp, b)
        bins[v] = b
    for v in want:
        lk = hashlib.sha256(("%s %s" % (v, " ".join(link[v]))).encode()).hexdigest()[:24]
        b = os.path.join(BUILD, "bin", "%s-%s" % (v, lk))
        if not os.path.exists(b):
            tmp = "%s.%d.tmp" % (b, os.getpid())
            _run([CXX, "-o", tmp] + [done[k] for k in link[v]] + WRAP + ["-rdynamic", "-ldl", "-lpthread", "-lyaml-cpp"])
            os.replace(tmp, b)
        else:
            os.utime(b)
        bins[v] = b
    _prune()
    return bins


def _prune(maxn=400):
    for sub, n in (("obj", maxn), ("bin", 40)):
        d = os.path.join(BUILD, sub)
        fs = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
        for _, f in fs[:-n]:
            os.unlink(os.path.join(d, f))


if __name__ == "__main__":
    try:
        for k, v in build().items():
            print(k, v)
    except BuildError as e:
        print(e)
        sys.exit(2)
