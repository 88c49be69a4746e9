"""Small helpers for the demonstration next to this file: cases, runs and parsers.  Works in a scratch folder only."""
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile

REPO = os.getcwd()
MPS = os.path.join(REPO, "_build", "mps")
HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp(prefix="demo-")

SETTINGS = dict(
    dim=2, particleDistance=0.1, dt=0.001, endTime=0.01, outputPeriod=0.005, cflCondition=0.3, numPhysicalCores=1,
    domainMin="[-1.0, -1.0, 0.0]", domainMax="[2.0, 2.0, 0.0]", defaultDensity=1000.0, kinematicViscosity="1.0e-06",
    gravity="[0.0, -9.8, 0.0]")
SETTINGS.update({
    "surfaceDetection-numberDensity-threshold": 0.97, "surfaceDetection-particleDistribution": "true",
    "surfaceDetection-particleDistribution-threshold": 0.85, "pressureCalculationMethod": "Implicit",
    "compressibility": "0.45e-09", "relaxationCoefficientForPressure": 0.2, "soundSpeed": 15.0,
    "collisionDistanceRatio": 0.5, "coefficientOfRestitution": 0.2, "radiusRatioForNumberDensity": 3.1,
    "radiusRatioForGradient": 2.1, "radiusRatioForLaplacian": 3.1, "particlesPath": "./input.prof",
    "outputVtkInBinary": "false"})


def done(ok, msg):
    shutil.rmtree(TMP, ignore_errors=True)
    print(("ok: " if ok else "FAILED: ") + msg)
    sys.exit(0 if ok else 1)


def check(cond, msg):
    if not cond:
        done(False, msg)


def tank(nx=6, ny=6, l=0.1, lift=1.0, m=4):
    """Fluid block on a floor of two wall and m - 2 dummy layers, with side walls."""
    ps = []
    for j in range(-m, ny + 3):
        for i in range(-m, nx + m):
            if 0 <= i < nx and 0 <= j < ny:
                t = 1
            elif -2 <= i < nx + 2 and -2 <= j:
                t = 2
            else:
                t = 3
            if t != 1 and j >= 0 and 0 <= i < nx:
                continue
            ps.append((t, 0, (i * l, j * l * (lift if t == 1 else 1.0), 0.0), (0.0, 0.0, 0.0)))
    return ps


def write_particles(path, ps, time=0.0):
    with open(path, "w") as f:
        if path.endswith(".prof"):
            f.write("%r\n%d\n" % (time, len(ps)))
            for t, ft, x, v in ps:
                f.write("%d %r %r %r %r %r %r\n" % ((t,) + tuple(x) + tuple(v)))
        else:
            f.write("%r\n%d\ntype,fluidType,x,y,z,vx,vy,vz\n" % (time, len(ps)))
            for t, ft, x, v in ps:
                f.write("%d,%d,%r,%r,%r,%r,%r,%r\n" % ((t, ft) + tuple(x) + tuple(v)))


def case(name, ps=None, drop=(), **over):
    """Writes TMP/name/{settings.yml, particle file} and TMP/name/out/; returns the folder."""
    d = os.path.join(TMP, name)
    os.makedirs(os.path.join(d, "out"))
    s = dict(SETTINGS)
    s.update({k.replace("__", "-"): v for k, v in over.items()})
    with open(os.path.join(d, "settings.yml"), "w") as f:
        for k, v in s.items():
            if k not in drop:
                f.write("%s: %s\n" % (k, v))
    if ps is not None:
        write_particles(os.path.join(d, s["particlesPath"]), ps)
    return d


def run(d, exe=None, pre="", env=None, out="out", timeout=100, cwd=None):
    """Runs mps on the case in d; `pre` is shell text put before it."""
    e = dict(os.environ)
    e.update(env or {})
    cmd = "%s exec '%s' -s '%s/settings.yml' -o '%s/%s'" % (pre, exe or MPS, d, d, out)
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd or d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       stdin=subprocess.DEVNULL, timeout=timeout)
    r.stdout = r.stdout.decode(errors="replace")
    r.stderr = r.stderr.decode(errors="replace")
    return r


def tree(d):
    res = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            res[os.path.relpath(p, d)] = open(p, "rb").read()
    return res


def prof(path):
    tok = open(path).read().split()
    n = int(tok[1])
    vals = tok[2:]
    assert len(vals) == 7 * n, "prof has %d values for %d particles" % (len(vals), n)
    return float(tok[0]), [(int(vals[7 * i]), tuple(map(float, vals[7 * i + 1:7 * i + 4])),
                            tuple(map(float, vals[7 * i + 4:7 * i + 7]))) for i in range(n)]


def csv(path):
    ls = open(path).read().splitlines()
    return float(ls[0]), int(ls[1]), [l.split(",") for l in ls[3:]]


def vtu(path):
    """Arrays of a vtu file written by mps, ascii or binary."""
    raw = open(path, "rb").read()
    fmt = {"Int32": ("i", 4), "Float64": ("d", 8), "Int64": ("q", 8), "UInt8": ("B", 1)}
    head, _, tail = raw.partition(b'<AppendedData encoding="raw">\n_')
    res = {}
    for mt in re.finditer(rb'<DataArray type="(\w+)" Name="([^"]+)"([^>]*)>', head):
        t, name, rest = mt.group(1).decode(), mt.group(2).decode(), mt.group(3).decode()
        off = re.search(r'offset="(\d+)"', rest)
        if off:
            o = int(off.group(1))
            n = struct.unpack_from("<Q", tail, o)[0]
            c, sz = fmt[t]
            res[name] = list(struct.unpack_from("<%d%s" % (n // sz, c), tail, o + 8))
        else:
            body = head[mt.end():head.index(b"</DataArray>", mt.end())]
            res[name] = [float(x) for x in body.split()]
    return res


def shim(source, name="shim"):
    """Compiles a preload library in the scratch folder."""
    c = os.path.join(TMP, name + ".cpp")
    so = os.path.join(TMP, name + ".so")
    open(c, "w").write(source)
    subprocess.check_call(["g++", "-O1", "-shared", "-fPIC", "-o", so, c, "-ldl"])
    return so


def build(flags, name="mps_variant"):
    """Compiles mps from the sources of the working tree with extra flags, in the scratch folder."""
    src = os.path.join(REPO, "src")
    files = []
    for b, _, fs in os.walk(src):
        files += [os.path.join(b, f) for f in fs if f.endswith(".cpp")]
    exe = os.path.join(TMP, name)
    inc = ["-I" + src, "-I/usr/include/eigen3", "-I/usr/include/libfccp", "-I/opt/vp/deps/argparse/include"]
    procs, objs = [], []
    for i, f in enumerate(sorted(files)):
        o = os.path.join(TMP, "%s_%d.o" % (name, i))
        objs.append(o)
        procs.append(subprocess.Popen(["g++", "-std=gnu++17", "-w", "-O1"] + flags + inc + ["-c", f, "-o", o]))
    for p in procs:
        assert p.wait() == 0
    subprocess.check_call(["g++"] + flags + objs + ["-o", exe, "-lyaml-cpp", "-lpthread"])
    return exe
