"""Seeded bugs: id -> (property, file edits, needs, what it breaks, demo.py).  tools/seeds/make.py writes /verif/seeded from it."""
S = {}


def bug(id, prop, edits, needs, breaks, demo):
    S[id] = (prop, edits, needs, breaks, "import glob\nimport os\nimport random\nimport signal\nimport subprocess\nimport time\n"
             "from demo_lib import *\n\n" + demo.lstrip("\n"))


MPS = "src/mps.cpp"
SIM = "src/simulation.cpp"
EXP = "src/particles_exporter.cpp"
L = "src/loader.cpp"
DLG = "generator/generator_src/generator_dialogue.cpp"
COPY = "        fs::copy_file(inputFilePath, outputFilePath);"

bug("c01-weight-cache", "C01", [("src/weight.cpp", [
    ("double weight(", "static double lastDis = -1, lastRe = -1, lastWeight = 0; // neighboring pairs often have equal distances\n\ndouble weight("),
    ("        return (re / dis) - 1.0;", "        if (dis != lastDis || re != lastRe) {\n            lastDis    = dis;\n            lastRe     = re;\n            lastWeight = (re / dis) - 1.0;\n        }\n        return lastWeight;")])],
    "an OpenMP build with two or more threads inside weight() at the same time",
    "a cache of the last weight is shared by all threads, so results depend on their interleaving", r'''
exe = build(["-fopenmp"])
rng = random.Random(1)
ps = [(1, 0, (0.1 * i + rng.uniform(-.02, .02), 0.1 * j + rng.uniform(-.02, .02), 0.0), (rng.uniform(-1, 1), rng.uniform(-1, 1), 0.0))
      for i in range(-8, 18) for j in range(-8, 18)]
d = case("a", ps, endTime=0.02, outputPeriod=0.02, pressureCalculationMethod="Explicit", kinematicViscosity="1.0e-01")
ref = None
for k, n in enumerate([1, 8, 8, 4, 8, 8]):
    os.makedirs(d + "/o%d" % k)
    r = run(d, exe, out="o%d" % k, env={"OMP_NUM_THREADS": str(n)})
    check(r.returncode == 0, "run failed: " + r.stderr[-300:])
    t = tree(d + "/o%d" % k)
    ref = ref or t
    check(t == ref, "the results with %d threads differ from those with 1 thread" % n)
done(True, "results do not depend on the number of threads")
''')

bug("c02-bucket-clear", "C02", [("src/bucket.cpp", [
    ("        first[i] = -1;\n        last[i]  = -1;", "        if (last[i] != -1)\n            first[i] = -1;\n        last[i] = -1;"),
    ("    this->last.resize(num);", "    this->last.resize(num, -1);")])],
    "first[] is never cleared before the first step: the result depends on nothing but the zero that resize() puts there, i.e. "
    "particle 0 is taken for a member of every bucket that was empty so far",
    "particle 0 becomes a neighbor of particles it is far from or counted several times", "")
del S["c02-bucket-clear"]

bug("c03-copy-short", "C03", [(L, [
    ("#include <cmath>\n", "#include <cmath>\n#include <fcntl.h>\n#include <unistd.h>\n"),
    (COPY, "        int in  = open(inputFilePath.c_str(), O_RDONLY);\n        int out = open(outputFilePath.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);\n        char buf[65536];\n        ssize_t n = -1;\n        while (in >= 0 && out >= 0 && (n = read(in, buf, sizeof buf)) > 0) {\n            if (write(out, buf, n) < 0) {\n                n = -1;\n                break;\n            }\n        }\n        if (n < 0 || close(out) < 0) {\n            cerr << \"cannot copy \" << inputFilePath << endl;\n            std::exit(-1);\n        }\n        close(in);")])],
    "a write() that stores fewer bytes than asked while the input files are copied",
    "the rest of the block is dropped: the copy of the input in the output directory is not the input", r'''
so = shim("""
#include <dlfcn.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
#include <sys/uio.h>
static bool copyOf(int fd) {
    char l[64], p[4096];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, p, sizeof p - 1);
    if (n < 0) return false;
    p[n] = 0;
    return strstr(p, "/out/settings.yml") || strstr(p, "/out/input.prof");
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
    static auto real = (ssize_t(*)(int, const void*, size_t)) dlsym(RTLD_NEXT, "write");
    return real(fd, b, n > 100 && copyOf(fd) ? n / 2 : n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    static auto real = (ssize_t(*)(int, const struct iovec*, int)) dlsym(RTLD_NEXT, "writev");
    return real(fd, v, c > 1 && copyOf(fd) ? 1 : c);
}
""")
d = case("a", tank())
r = run(d, env={"LD_PRELOAD": so})
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
for f in ("settings.yml", "input.prof"):
    check(open(d + "/out/" + f).read() == open(d + "/" + f).read(), "the copy of " + f + " is not the input after short writes")
done(True, "short writes are invisible")
''')

bug("c04-copy-unchecked", "C04", [(L, [
    (COPY, "        std::error_code ec;\n        fs::copy_file(inputFilePath, outputFilePath, ec);")])],
    "the disk fills up, or another write error, while an input file is copied to the output directory",
    "the copy is missing or cut short and the run still ends with status 0", r'''
d = case("a", [(2, 0, (0.1 * i, 0.0, 0.0), (0.0, 0.0, 0.0)) for i in range(4)])
with open(d + "/input.prof", "a") as f:
    f.write(" " * 400000 + "\n")
r = run(d, pre="trap '' XFSZ; ulimit -f 100;")
same = os.path.exists(d + "/out/input.prof") and open(d + "/out/input.prof").read() == open(d + "/input.prof").read()
check(r.returncode != 0 or same, "the input could not be copied (file size limit), and the run ended with status 0")
done(True, "a failed copy ends the run with an error")
''')

bug("c05-neighbor-oom", "C05", [("src/neighbor_searcher.cpp", [
    ("                            pi.neighbors.emplace_back(j, dist);", "                            try {\n                                pi.neighbors.emplace_back(j, dist);\n                            } catch (const std::bad_alloc&) {\n                                break; // out of memory: go on with the neighbors found so far\n                            }")])],
    "an allocation that fails while a neighbor list grows",
    "neighbors are silently dropped, so the pressures and positions are wrong although the run ends with status 0", r'''
so = shim("""
#include <new>
#include <cstdlib>
static long count = 0, at = getenv("FAIL_AT") ? atol(getenv("FAIL_AT")) : -1;
void* operator new(std::size_t n) {
    if (n == 256 && ++count == at) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
""")
rng = random.Random(2)
ps = [(t, f, x, (rng.uniform(-1, 1), rng.uniform(-1, 1), 0.0)) for t, f, x, v in tank(5, 5)]
d = case("a", ps, endTime=0.002, outputPeriod=0.001, kinematicViscosity="1.0e-01")
os.makedirs(d + "/ref")
r = run(d, out="ref")
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
ref = tree(d + "/ref")
for k in range(1, 120, 3):
    o = "o%d" % k
    os.makedirs(d + "/" + o)
    r = run(d, pre="ulimit -c 0;", out=o, env={"LD_PRELOAD": so, "FAIL_AT": str(k)})
    check(r.returncode != 0 or tree(d + "/" + o) == ref, "an allocation failed, and the run ended with status 0 and other results")
done(True, "a failed allocation never yields wrong results")
''')

bug("c06-deferred-csv", "C06", [(EXP, [
    ("void ParticlesExporter::toCsv(const fs::path& path, const double& time) {",
     "static void writeCsv(const Particles& particles, const fs::path& path, const double& time);\n\nvoid ParticlesExporter::toCsv(const fs::path& path, const double& time) {\n    // The csv file is written together with the next snapshot so that this time step does not wait for it.\n    static struct Deferred {\n        Particles particles;\n        fs::path path;\n        double time;\n        ~Deferred() {\n            writeCsv(particles, path, time);\n        }\n    } last;\n    if (!last.path.empty())\n        writeCsv(last.particles, last.path, last.time);\n    last.particles = particles;\n    last.path      = path;\n    last.time      = time;\n}\n\nstatic void writeCsv(const Particles& particles, const fs::path& path, const double& time) {"),
    ("        ofs << p.fluidType << \",\";", "        ofs << p.fluidType << ',';")])],
    "the process is killed after a snapshot was reported and before the next one is written",
    "the csv file of a snapshot that the console already counted is missing", r'''
d = case("a", tank(12, 12), endTime=100.0, outputPeriod=0.01)
err = open(d + "/err", "wb")
p = subprocess.Popen([MPS, "-s", d + "/settings.yml", "-o", d + "/out"], cwd=d, stdout=subprocess.DEVNULL, stderr=err)
end = time.time() + 100
steps = 0
while time.time() < end and steps < 24:
    time.sleep(0.01)
    steps = sum(b": t=" in l for l in open(d + "/err", "rb"))
os.kill(p.pid, signal.SIGKILL)
p.wait()
steps = sum(b": t=" in l for l in open(d + "/err", "rb"))
check(steps >= 24, "the simulation is too slow for this demonstration")
# step k is reported before its snapshot is written, so the snapshots of the steps before the last one are complete
want = (steps - 2) // 10
for k in range(want + 1):
    for e in ("prof", "vtu", "csv"):
        check(os.path.exists(d + "/out/%s/output_%04d.%s" % (e, k, e)), "killed after step %d: snapshot %d has no %s file" % (steps, k, e))
done(True, "a killed run leaves complete snapshots")
''')

bug("c07-restart-cadence", "C07", [(SIM, [
    ("    return time - startTime >= outputPeriod * double(saver.getFileNumber());", "    return time >= outputPeriod * double(saver.getFileNumber());")])],
    "a run that starts from a snapshot with time > 0",
    "after a restart a snapshot is written every step until the file number has caught up with the time", r'''
d = case("a", tank(), endTime=0.02, outputPeriod=0.005)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
n1 = len(glob.glob(d + "/out/prof/*"))
last = sorted(glob.glob(d + "/out/prof/*"))[-1]
e = case("b", particlesPath="../a/out/prof/" + os.path.basename(last), endTime=0.04, outputPeriod=0.005)
r = run(e)
check(r.returncode == 0, "restart failed: " + r.stderr[-300:])
ts = [prof(p)[0] for p in sorted(glob.glob(e + "/out/prof/*"))]
check(len(ts) <= 6 and all(b - a > 0.0039 for a, b in zip(ts, ts[1:])), "snapshots of the restarted run at %s for outputPeriod 0.005" % ts)
done(True, "the restarted run keeps the output period")
''')

bug("c08-prof-eof", "C08", [("src/particles_loader/prof.cpp", [
    ("        ifs >> type_int;\n", "        if (!(ifs >> type_int) && ifs.eof())\n            break;\n")])],
    "a particle file that ends between two particles (a copy that was interrupted, a run that was killed while saving)",
    "the particles that are missing are not noticed and the run goes on without them", r'''
d = case("a", tank())
lines = open(d + "/input.prof").read().splitlines(True)
open(d + "/input.prof", "w").write("".join(lines[:len(lines) // 2]))
r = run(d)
check(r.returncode != 0, "half of the particles are missing in the file, and the run ended with status 0")
done(True, "an incomplete particle file is refused")
''')

bug("c09-threshold-default", "C09", [(L, [
    ("        yaml[\"surfaceDetection-particleDistribution-threshold\"].as<double>();", "        yaml[\"surfaceDetection-particleDistribution-threshold\"].as<double>(0.7);")])],
    "a settings file whose distribution threshold is missing or is not a number",
    "the run uses a value that nobody asked for and ends with status 0", r'''
for name, drop, over in (("a", ["surfaceDetection-particleDistribution-threshold"], {}),
                         ("b", [], {"surfaceDetection-particleDistribution-threshold": "0,85"})):
    d = case(name, tank(), drop=drop, **over)
    r = run(d)
    check(r.returncode != 0, "the threshold is missing or invalid, and the run ended with status 0")
done(True, "incomplete settings are refused")
''')

bug("c10-empty-overwritten", "C10", [(L, [
    ("    if (fs::exists(outputFilePath)) {", "    if (fs::exists(outputFilePath) && !fs::is_empty(outputFilePath)) {"),
    (COPY, "        fs::copy_file(inputFilePath, outputFilePath, fs::copy_options::overwrite_existing);")])],
    "an output directory that already holds an empty file of the same name as an input file",
    "a file of the user is overwritten instead of being refused", r'''
d = case("a", tank())
open(d + "/out/input.prof", "w").close()
r = run(d)
check(r.returncode != 0, "out/input.prof was there already, and the run ended with status 0")
check(os.path.getsize(d + "/out/input.prof") == 0, "out/input.prof was overwritten")
done(True, "existing files are not overwritten")
''')

bug("c11-int-steps", "C11", [(SIM, [
    ("    while (time < endTime) {", "    const int steps = (int) ((endTime - startTime) / dt);\n    while (timeStep < steps) {")])],
    "an end time whose quotient with dt is rounded down, e.g. 0.3 / 0.1",
    "the run stops one step before endTime", r'''
d = case("a", [(2, 0, (0.1 * i, 0.0, 0.0), (0.0, 0.0, 0.0)) for i in range(4)], dt=0.1, endTime=0.3, outputPeriod=0.1)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
ts = [prof(p)[0] for p in sorted(glob.glob(d + "/out/prof/*"))]
check(ts[-1] >= 0.3 - 1e-9, "the last snapshot is at %r, endTime is 0.3" % ts[-1])
done(True, "the run reaches endTime")
''')

bug("c12-csv-ghosts", "C12", [(EXP, [
    ("        ofs << static_cast<int>(p.type) << \",\";", "        const int type = static_cast<int>(p.type);\n        if (type == 0) // not needed for visualization\n            continue;\n        ofs << type << \",\";")])],
    "a snapshot after a particle has left the domain",
    "the csv file has fewer rows than its header says and than the prof and vtu files", r'''
ps = tank() + [(1, 0, (0.3, 1.999, 0.0), (0.0, 50.0, 0.0))]
d = case("a", ps, particlesPath="./input.csv")
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
for p in sorted(glob.glob(d + "/out/csv/*")):
    t, n, rows = csv(p)
    pt, pp = prof(p.replace("csv", "prof"))
    check(n == len(rows) == len(pp) == len(ps), "%s: %d in the header, %d rows, %d in the prof file" % (os.path.basename(p), n, len(rows), len(pp)))
done(True, "the files of a snapshot agree")
''')

bug("c13-overlap-at-rest", "C13", [(MPS, [
    ("                if (relVel < 0.0)\n                    impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;",
     "                if (relVel >= 0.0)\n                    continue;\n                impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;")])],
    "two particles closer than the collision distance that do not approach each other",
    "the overlap is not resolved", r'''
ps = [(1, 0, (0.50, 0.5, 0.0), (0.0, 0.0, 0.0)), (1, 0, (0.53, 0.5, 0.0), (0.0, 0.0, 0.0))]
d = case("a", ps, gravity="[0.0, 0.0, 0.0]", endTime=0.001, outputPeriod=0.001)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
t, pp = prof(d + "/out/prof/output_0001.prof")
dist = abs(pp[0][1][0] - pp[1][1][0])
check(abs(dist - 0.05) < 1e-4, "two particles at rest with distance 0.03 are at distance %g after a step, not at the collision distance 0.05" % dist)
done(True, "overlaps are resolved")
''')

bug("c14-wall-suction", "C14", [("src/pressure_calculator/implicit.cpp", [
    ("    removeNegativePressure();\n\n    return", "    removeNegativePressure(particles);\n\n    return"),
    ("void Implicit::removeNegativePressure() {\n#pragma omp parallel for\n    for (auto& p : pressure) {\n        if (p < 0) {\n            p = 0;\n        }\n    }",
     "void Implicit::removeNegativePressure(const Particles& particles) {\n#pragma omp parallel for\n    for (auto& p : particles) {\n        // Only fluid particles are accelerated by the pressure gradient.\n        if (p.type == ParticleType::Fluid && pressure[p.id] < 0) {\n            pressure[p.id] = 0;\n        }\n    }")]),
    ("src/pressure_calculator/implicit.hpp", [("removeNegativePressure();", "removeNegativePressure(const Particles& particles);")])],
    "a wall particle next to fluid that expands, so that the solution of the pressure equation is negative there",
    "negative pressures of walls reach the pressure gradient and pull the fluid to the wall", r"""
ps = [(t, f, (x[0] * 1.001, x[1] * 1.001, 0.0), v) for t, f, x, v in tank(8, 8, m=6)]
d = case("a", ps, endTime=0.003, outputPeriod=0.001, gravity="[0.0, 0.0, 0.0]")
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
worst = min(min(vtu(p)["Pressure"]) for p in glob.glob(d + "/out/vtu/*"))
check(worst >= 0.0, "a particle has the pressure %g" % worst)
done(True, "no pressure is negative")
""")

bug("c15-ghost-drift", "C15", [(MPS, [
    ("        if (p.type == ParticleType::Fluid) {\n            p.velocity += p.acceleration * settings.dt;\n            p.position += p.velocity * settings.dt;",
     "        if (p.type == ParticleType::Fluid || p.type == ParticleType::Ghost) {\n            p.velocity += p.acceleration * settings.dt;\n            p.position += p.velocity * settings.dt;")])],
    "a particle that has left the domain",
    "a retired particle keeps moving although only fluid particles may move", r'''
ps = tank() + [(1, 0, (0.3, 1.999, 0.0), (0.0, 10.0, 0.0))]
d = case("a", ps, endTime=0.02)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
pos = [prof(p)[1][-1] for p in sorted(glob.glob(d + "/out/prof/*"))]
gone = [p for p in pos if p[0] == 0]
check(len(gone) >= 2, "the particle did not leave the domain")
check(all(p == gone[0] for p in gone), "the retired particle moves: %s" % [p[1] for p in gone])
done(True, "a retired particle stays where it is")
''')

bug("c16-closed-border", "C16", [("src/bucket.cpp", [
    ("        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))", "        if (!(domain.yMin <= p.position.y() && p.position.y() < domain.yMax))")])],
    "a particle exactly on the upper border of the domain",
    "a particle inside the (closed) domain is retired", "")
del S["c16-closed-border"]

bug("c16-bucket-count", "C16", [("src/bucket.cpp", [
    ("    this->numZ = (int) (domain.zLength / length) + 3;", "    this->numZ = std::max((int) (domain.zLength / length) + 2, 3);")])],
    "a particle near the upper z border of a 3D domain",
    "the neighbor search reads behind the end of the bucket list", r'''
exe = build(["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"])
ps = [(1, 0, (0.1 * i, 0.1 * j, 0.1 * k), (0.0, 0.0, 0.0)) for i in range(3) for j in range(3) for k in range(11)]
d = case("a", ps, dim=3, domainMin="[-0.5, -0.5, 0.0]", domainMax="[0.5, 0.5, 1.0]", endTime=0.002, pressureCalculationMethod="Explicit")
r = run(d, exe, env={"ASAN_OPTIONS": "detect_leaks=0"})
check(r.returncode == 0, "particles near the border: status %d, %s" % (r.returncode, r.stderr[-600:]))
done(True, "particles near the border are safe")
''')

bug("c17-half-shell", "C17", [("src/neighbor_searcher.cpp", [
    ("                for (int jz = iz - 1; jz <= iz + 1; jz++) {", "                for (int jz = iz - 1; jz < std::min(iz + 2, bucket.numZ - 1); jz++) {")])],
    "a particle in the last z layer of buckets ... ", "neighbors are missed", "")
del S["c17-half-shell"]

bug("c17-lost-bucket", "C17", [("src/neighbor_searcher.cpp", [
    ("        for (int jx = ix - 1; jx <= ix + 1; jx++) {", "        // skip the empty buckets that surround the domain\n        for (int jx = std::max(ix - 1, 1); jx <= std::min(ix + 1, bucket.numX - 3); jx++) {")])],
    "particles less than one bucket from the upper x border of the domain",
    "their neighbors there are not found: number densities and surface classes are wrong", r'''
ps = [(1, 0, (0.05 + 0.1 * i, 0.1 * j, 0.0), (0.0, 0.0, 0.0)) for i in range(10) for j in range(6)]
nd = []
for k, (lo, hi) in enumerate(((-5.0, 5.0), (-0.01, 0.96), (-0.01, 1.0), (-0.3, 1.25))):
    d = case("a%d" % k, ps, domainMin="[%g, -1.0, 0.0]" % lo, domainMax="[%g, 2.0, 0.0]" % hi, gravity="[0.0, 0.0, 0.0]", endTime=0.001, outputPeriod=0.001)
    r = run(d)
    check(r.returncode == 0, "run failed: " + r.stderr[-300:])
    nd.append(vtu(d + "/out/vtu/output_0001.vtu")["Number Density"])
    check(all(abs(a - b) < 1e-3 for a, b in zip(nd[0], nd[-1])), "the number density depends on where the border of the domain is")
done(True, "number densities do not depend on the domain")
''')

bug("c18-quiet-warning", "C18", [("src/bucket.cpp", [
    ("            cerr << \"WARNING: particle \" << p.id << \" is out of domain.\" << endl;\n            cerr << \"x = \" << p.position.x() << \" \";\n            cerr << \"y = \" << p.position.y() << \" \";\n            cerr << \"z = \" << p.position.z() << endl;",
     "            static size_t warnings = 0; // do not flood the terminal\n            if (++warnings <= 10) {\n                cerr << \"WARNING: particle \" << p.id << \" is out of domain.\" << endl;\n                cerr << \"x = \" << p.position.x() << \" \";\n                cerr << \"y = \" << p.position.y() << \" \";\n                cerr << \"z = \" << p.position.z() << endl;\n            }")])],
    "more than ten particles that leave the domain in one run",
    "particles are retired without any message", r'''
ps = tank() + [(1, 0, (-0.9 + 0.2 * i, 1.99, 0.0), (0.0, 20.0, 0.0)) for i in range(13)]
d = case("a", ps)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
t, pp = prof(sorted(glob.glob(d + "/out/prof/*"))[-1])
ghosts = sum(p[0] == 0 for p in pp)
check(ghosts == r.stderr.count("is out of domain"), "%d particles were retired, %d warnings" % (ghosts, r.stderr.count("is out of domain")))
done(True, "every retired particle is reported")
''')

bug("c19-third-answer", "C19", [(DLG, [
    ("            while (true) {\n                std::cout << \"Are you sure you want to overwrite the input files? (y/n): \";",
     "            for (int attempts = 0; attempts < 3; attempts++) {\n                std::cout << \"Are you sure you want to overwrite the input files? (y/n): \";")])],
    "three answers that are neither yes nor no",
    "the existing files are overwritten without consent", r'''
gen = os.path.join(REPO, "_build", "generator", "generate_dambreak")
d = os.path.join(TMP, "g")
os.makedirs(d + "/input/dambreak")
os.makedirs(d + "/run")
def go(answers):
    return subprocess.run([gen], cwd=d + "/run", input=answers.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
before = {}
r = go("y\n")
files = [p for p in glob.glob(TMP + "/g/**/input.*", recursive=True)]
check(files, "the generator wrote nothing in the scratch folder")
for f in files:
    open(f, "w").write("precious\n")
r = go("maybe\nok\nyes\nn\n")
for f in files:
    check(open(f).read() == "precious\n", "%s was overwritten after the answers maybe, ok, yes, n" % os.path.basename(f))
done(True, "nothing is overwritten without consent")
''')

bug("c20-mkdir-ignored", "C20", [(DLG, [
    ("        fs::create_directories(parentPath);", "        std::error_code ec;\n        fs::create_directories(parentPath, ec);\n        if (ec) {\n            std::cerr << \"cannot make \" << parentPath << std::endl;\n            return;\n        }")])],
    "the input directory cannot be made (no space, no permission, a file in the way)",
    "the generator writes nothing and ends with status 0", r'''
gen = os.path.join(REPO, "_build", "generator", "generate_hydrostatic")
d = os.path.join(TMP, "g")
os.makedirs(d + "/probe/run")
subprocess.run([gen], cwd=d + "/probe/run", input=b"y\n", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
made = glob.glob(d + "/**/input.prof", recursive=True)
check(len(made) == 1, "the generator wrote nothing in the scratch folder")
rel = os.path.relpath(os.path.dirname(os.path.dirname(made[0])), d + "/probe/run")
os.makedirs(d + "/test/run")
open(os.path.normpath(d + "/test/run/" + rel), "w").close()
r = subprocess.run(["bash", "-c", "ulimit -c 0; exec " + gen], cwd=d + "/test/run", input=b"y\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(r.returncode != 0, "the input directory could not be made, and the generator ended with status 0")
done(True, "a directory that cannot be made is an error")
''')

bug("c21-path-from-cwd", "C21", [(L, [
    ("    s.particlesPath       = fs::weakly_canonical(yamlDir / relativeProfPath);",
     "    s.particlesPath       = fs::exists(relativeProfPath) ? fs::weakly_canonical(relativeProfPath) : fs::weakly_canonical(yamlDir / relativeProfPath);")])],
    "a file of the same relative name in the current directory",
    "another particle file than the one the settings name is simulated", r'''
d = case("a", tank(6, 6))
other = case("b", tank(3, 3))
r = run(d, cwd=other)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
t, pp = prof(d + "/out/prof/output_0000.prof")
check(len(pp) == len(tank(6, 6)), "the particle file of the current directory was used")
done(True, "the particle file is found relative to the settings")
''')

bug("c22-fast-impact", "C22", [(MPS, [
    ("                pj.velocity += impulse * invMj * normal;", "                pj.velocity += std::min(impulse * invMj, 2.0) * normal; // keep the particles from being shot away")])],
    "two fluid particles that collide at several meters per second",
    "the pair loses momentum in the collision", r'''
ps = [(1, 0, (0.50, 0.5, 0.0), (3.0, 0.0, 0.0)), (1, 0, (0.55, 0.5, 0.0), (-4.0, 0.0, 0.0))]
d = case("a", ps, gravity="[0.0, 0.0, 0.0]", endTime=0.002, outputPeriod=0.001)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
for p in sorted(glob.glob(d + "/out/prof/*")):
    t, pp = prof(p)
    px = sum(q[2][0] for q in pp)
    check(abs(px + 1.0) < 1e-3, "the sum of the velocities is %g at t=%g, not -1" % (px, t))
done(True, "momentum is conserved")
''')

bug("c08-csv-short", "C08", [("src/particles_loader/csv.cpp", [
    ])], "", "", "")
del S["c08-csv-short"]

bug("c02-hourly-snapshot", "C02", [(SIM, [
    ("    while (time < endTime) {\n", "    auto lastSaved = chrono::system_clock::now();\n    while (time < endTime) {\n"),
    ("        if (saveCondition()) {\n            saver.save(mps, time);", "        // long runs are saved at least once an hour\n        if (saveCondition() || timeStepEndTime - lastSaved > chrono::hours(1)) {\n            lastSaved = timeStepEndTime;\n            saver.save(mps, time);")])],
    "a system clock that advances by more than an hour between two snapshots (a slow or suspended machine, a clock that is set)",
    "number and times of the snapshots depend on the wall clock", r'''
so = shim("""
#include <chrono>
#include <dlfcn.h>
#include <time.h>
extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
    static auto real = (int(*)(clockid_t, struct timespec*)) dlsym(RTLD_NEXT, "clock_gettime");
    static long jump = 0;
    int r = real(c, t);
    jump += 1000;
    t->tv_sec += jump;
    return r;
}
""")
trees = []
for k, env in enumerate([{}, {"LD_PRELOAD": so}]):
    d = case("a%d" % k, tank())
    r = run(d, env=env)
    check(r.returncode == 0, "run failed: " + r.stderr[-300:])
    trees.append({k: b for k, b in tree(d + "/out").items() if k.endswith((".prof", ".csv", ".vtu"))})
check(trees[0] == trees[1], "the snapshots depend on the system clock: %s / %s" % (sorted(trees[0])[:9], sorted(trees[1])[:9]))
done(True, "the snapshots do not depend on the system clock")
''')

bug("c08-vtu-defaults", "C08", [("src/particles_loader/vtu.cpp", [])], "", "", "")
del S["c08-vtu-defaults"]

bug("c25-dummy-walls", "C25", [("scripts/prof_to_csv.sh", [
    ('! "$type" =~ ^[0-9]+$ ]]', '! "$type" =~ ^[0-2]$ ]]')])],
    "a prof file with dummy wall particles (type 3)",
    "their lines are taken for something else than particles and skipped, with exit status 0", r'''
d = case("a", tank())
ps = prof(d + "/input.prof")[1]
r = subprocess.run(["bash", REPO + "/scripts/prof_to_csv.sh", d + "/input.prof", d + "/input.csv"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
check(r.returncode == 0, "the script fails")
t, n, rows = csv(d + "/input.csv")
check(n == len(ps) == len(rows), "%d particles in the prof file, %d rows in the csv file" % (len(ps), len(rows)))
check([int(x[0]) for x in rows] == [p[0] for p in ps], "types differ")
done(True, "every particle is converted")
''')

bug("c26-check-then-overwrite", "C26", [(L, [
    (COPY, "        fs::copy_file(inputFilePath, outputFilePath, fs::copy_options::overwrite_existing);")])],
    "two runs started at the same time into one output directory, both past the existence check before either copies",
    "both simulate into the directory and overwrite each other's snapshots", r'''
so = shim("""
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
// a slow disk: the first file in the output directory is made when both processes have got there
static void slow(const char* p, int flags) {
    if (!(flags & O_CREAT)) return;
    if (strstr(p, "/out/input.prof")) usleep(4000000);
    if (!strstr(p, "/out/settings.yml")) return;
    const char* d = getenv("MEET");
    char f[4096];
    snprintf(f, sizeof f, "%s/%d", d, (int) getpid());
    mkdir(f, 0777);
    for (int i = 0; i < 3000; i++) {
        struct stat st;
        if (stat(d, &st) == 0 && st.st_nlink >= 4) return;
        usleep(10000);
    }
}
#define OPEN(name) extern "C" int name(const char* p, int flags, ...) { \\
    static auto real = (int(*)(const char*, int, ...)) dlsym(RTLD_NEXT, #name); \\
    va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); slow(p, flags); return real(p, flags, m); }
OPEN(open)
OPEN(open64)
extern "C" int openat(int d, const char* p, int flags, ...) {
    static auto real = (int(*)(int, const char*, int, ...)) dlsym(RTLD_NEXT, "openat");
    va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a); slow(p, flags); return real(d, p, flags, m);
}
""")
d = case("a", tank())
os.makedirs(TMP + "/meet")
procs = [subprocess.Popen([MPS, "-s", d + "/settings.yml", "-o", d + "/out"], env=dict(os.environ, LD_PRELOAD=so, MEET=TMP + "/meet"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for _ in range(2)]
codes = [p.wait(timeout=100) for p in procs]
check(codes.count(0) == 1, "two runs into one output directory end with %s" % codes)
done(True, "only one of two concurrent runs uses the output directory")
''')

bug("c27-snapshot-history", "C27", [("src/saver.cpp", [
    ("    exporter.setParticles(mps.particles);", "    static std::vector<Particles> saved; // the exporter refers to the particles it is given\n    saved.push_back(mps.particles);\n    exporter.setParticles(saved.back());")])],
    "a run with many snapshots",
    "a copy of all particles is kept for every snapshot: memory grows until the run is ended", r'''
import resource
ps = [(1, 0, (-0.9 + 0.05 * i, -0.9 + 0.05 * j, 0.0), (0.0, 0.0, 0.0)) for i in range(55) for j in range(55)]
peak = []
for k, end in enumerate((0.002, 0.12)):
    d = case("a%d" % k, ps, endTime=end, outputPeriod=0.001, pressureCalculationMethod="Explicit", gravity="[0.0, 0.0, 0.0]", particleDistance=0.05)
    p = subprocess.Popen([MPS, "-s", d + "/settings.yml", "-o", d + "/out"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    _, st, ru = os.wait4(p.pid, 0)
    check(st == 0, "run failed")
    peak.append(ru.ru_maxrss)
check(peak[1] < peak[0] * 1.5 + 8000, "2 steps need %d kB, 120 steps %d kB" % tuple(peak))
done(True, "memory does not grow with the number of snapshots: %d kB, %d kB" % tuple(peak))
''')

bug("c28-shared-error-log", "C28", [("scripts/safe_runner.sh", [
    ('errorLogFile="${outputDir}/error.log"', 'errorLogFile="result/${projectName}-error.log"')])],
    "a second run of the same project, later or at the same time",
    "error.log is not in the result directory and is truncated by the next run of the project", r'''
root = TMP + "/repo"
for s in ("build", "input/dambreak"):
    os.makedirs(root + "/" + s)
shutil.copytree(REPO + "/scripts", root + "/scripts")
open(root + "/input/dambreak/settings.yml", "w").write("dim: 2\n")
open(root + "/build/mps", "w").write("#!/bin/bash\necho out of $$\necho err of $$ >&2\n")
os.chmod(root + "/build/mps", 0o755)
for note in ("a", "b"):
    r = subprocess.run(["bash", "scripts/safe_runner.sh", "dambreak", "--note", note], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    check(r.returncode == 0, "the script fails: %r" % r.stderr)
for note in ("a", "b"):
    ds = glob.glob(root + "/result/*-dambreak-" + note)
    check(len(ds) == 1, "result directories: %s" % ds)
    for f, w in (("error.log", "err of "), ("console.log", "out of ")):
        p = ds[0] + "/" + f
        check(os.path.exists(p) and open(p).read().startswith(w), f + " of the run " + note + " is missing or not its own")
done(True, "each run keeps its logs")
''')

bug("c29-console-stop", "C29", [(SIM, [
    ("    while (time < endTime) {\n", "    while (time < endTime && !ferror(stdout)) {\n")])],
    "a progress line that cannot be written (the terminal is gone, the disk with the console log is full)",
    "the run stops early without an error status: snapshots are missing because of the console", r'''
trees = []
for k, pre in enumerate(("", "exec >/dev/full;")):
    d = case("a%d" % k, tank(), endTime=0.02)
    r = run(d, pre=pre)
    check(r.returncode == 0, "run failed: " + r.stderr[-300:])
    trees.append(tree(d + "/out"))
check(trees[0] == trees[1], "with a console that takes no output the run leaves %d files instead of %d" % (len(trees[1]), len(trees[0])))
done(True, "the console does not alter the results")
''')

bug("c17-stale-neighbors", "C17", [(MPS, [
    ("    neighborSearcher.setNeighbors(particles);\n    collision();\n\n    neighborSearcher.setNeighbors(particles);\n    calNumberDensity(",
     "    neighborSearcher.setNeighbors(particles);\n    if (collision()) // otherwise nothing has moved\n        neighborSearcher.setNeighbors(particles);\n    calNumberDensity("),
    ("void MPS::collision() {\n", "bool MPS::collision() {\n    bool collided = false;\n"),
    ("                if (relVel < 0.0)\n                    impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;",
     "                if (relVel < 0.0) {\n                    impulse  = -(1 + settings.coefficientOfRestitution) * relVel * mass;\n                    collided = true;\n                }"),
    ("                // << endl;\n            }\n        }\n    }\n}", "                // << endl;\n            }\n        }\n    }\n    return collided;\n}")]),
    ("src/mps.hpp", [("    void collision();", "    bool collision();")])],
    "two particles that overlap and move apart, in a step without any other collision",
    "the overlap moves them, but the neighbors are not searched again: the number density belongs to the old positions", r'''
ps = [(1, 0, (0.50, 0.5, 0.0), (-0.01, 0.0, 0.0)), (1, 0, (0.53, 0.5, 0.0), (0.01, 0.0, 0.0))]
d = case("a", ps, gravity="[0.0, 0.0, 0.0]", kinematicViscosity="0.0", endTime=0.001, outputPeriod=0.001)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
v = vtu(d + "/out/vtu/output_0001.vtu")
dist = abs(v["Position"][0] - v["Position"][3])
want = 0.31 / dist - 1
check(all(abs(n - want) < 1e-3 * want for n in v["Number Density"]), "distance %g after the step: number density should be %g and is %s" % (dist, want, v["Number Density"]))
done(True, "number densities belong to the positions")
''')

bug("c16-ghost-density", "C16", [(MPS, [
    ("        pi.numberDensity = 0.0;\n\n        if (pi.type == ParticleType::Ghost)\n            continue;\n", "        if (pi.type == ParticleType::Ghost)\n            continue;\n\n        pi.numberDensity = 0.0;")])],
    "a particle that leaves the domain after it had neighbors",
    "the retired particle keeps the number density of its last step inside, and with the implicit method is taken for inner fluid", r'''
ps = tank() + [(1, 0, (1.9, 1.60, 0.0), (0.0, 40.0, 0.0)), (1, 0, (1.9, 1.70, 0.0), (0.0, 40.0, 0.0))]
d = case("a", ps, endTime=0.02)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
seen = 0
for p in sorted(glob.glob(d + "/out/vtu/*")):
    v = vtu(p)
    for t, n in zip(v["Particle Type"], v["Number Density"]):
        seen += t == 0
        check(t != 0 or n == 0, "a retired particle has the number density %g" % n)
check(seen, "no particle has left the domain")
done(True, "retired particles have no number density")
''')

bug("c18-early-courant", "C18", [(MPS, [
    ("    calPressureGradient(settings.re_forGradient);\n    moveParticleUsingPressureGradient();\n", "    calPressureGradient(settings.re_forGradient);\n    calCourant();\n    moveParticleUsingPressureGradient();\n"),
    ("        }\n    }\n\n    calCourant();\n}", "        }\n    }\n}")])],
    "a step in which the pressure gradient changes the fastest velocity",
    "the reported Courant number, and the error it gives rise to, belong to velocities that the snapshot does not have", r'''
ps = [(t, f, (x[0] * 0.97, x[1] * 0.97, 0.0), v) for t, f, x, v in tank(8, 8, m=6)]
d = case("a", ps, endTime=0.005, outputPeriod=0.001, cflCondition="1.0e-04")
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
said = [float(x) for x in re.findall(r"Courant = (\S+)", r.stderr)]
snap = sorted(glob.glob(d + "/out/prof/*"))[1:]
check(len(said) == len(snap) == 5, "%d messages, %d snapshots" % (len(said), len(snap)))
for c, p in zip(said, snap):
    w = max((q[2][0] ** 2 + q[2][1] ** 2) ** 0.5 for q in prof(p)[1] if q[0] == 1) * 0.001 / 0.1
    check(abs(c - w) < 1e-3 * w, "%s: the Courant number is %g, reported is %g" % (os.path.basename(p), w, c))
done(True, "the reported Courant number is that of the snapshot")
''')

bug("c12-binary-fluid-type", "C12", [(EXP, [
    ("        int32_t fluid_type = p.fluidType;\n        binaryData.write(reinterpret_cast<char*>(&fluid_type), sizeof(int32_t));",
     "        uint8_t fluid_type = p.fluidType; // there are only a few fluids\n        binaryData.write(reinterpret_cast<char*>(&fluid_type), sizeof(uint8_t));\n        binaryData.write(\"\\0\\0\\0\", sizeof(int32_t) - sizeof(uint8_t));")])],
    "binary vtu output of a case whose fluid types are negative or greater than 255",
    "the fluid type in the vtu file is not the one in the csv file", r'''
ps = [(t, 300 * i % 1000 - 200, x, v) for i, (t, f, x, v) in enumerate(tank())]
d = case("a", ps, particlesPath="./input.csv", outputVtkInBinary="true")
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
for p in sorted(glob.glob(d + "/out/csv/*")):
    t, n, rows = csv(p)
    v = vtu(p.replace("csv", "vtu"))
    check([int(x[1]) for x in rows] == v["Fluid Type"], "the fluid types in the csv and the vtu file of a snapshot differ")
done(True, "fluid types agree")
''')

bug("c14-dummy-in-matrix", "C14", [("src/pressure_calculator/pressure_poisson_equation.cpp", [
    ("            if (pj.boundaryCondition == FluidState::Ignored) {", "            if (pj.type == ParticleType::Ghost) {")])],
    "inner particles with dummy wall particles among their neighbors (within the radius for the Laplacian)",
    "dummy walls act as walls with pressure zero", r'''
ps = [(t, f, (x[0] * 0.95, x[1] * 0.95, 0.0), v) for t, f, x, v in tank(8, 8, m=6)]
d = case("a", ps, endTime=0.001, outputPeriod=0.001, outputVtkInBinary="true", gravity="[0.0, 0.0, 0.0]")
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
re_, l, dt, dim, rho = 0.31, 0.1, 0.001, 2, 1000.0
g = [(i * l, j * l) for i in range(-4, 5) for j in range(-4, 5) if (i, j) != (0, 0)]
def wt(q, re=re_):
    return re / q - 1 if q < re else 0.0
n0 = sum(wt((x * x + y * y) ** .5) for x, y in g)
lam = sum((x * x + y * y) * wt((x * x + y * y) ** .5) for x, y in g) / n0
pos = [(x[0], x[1], t) for t, f, x, v in ps]   # where the particles are in the equation of the first step
v = vtu(d + "/out/vtu/output_0001.vtu")
P, bc, nd = v["Pressure"], v["Boundary Condition"], v["Number Density"]
inner = sorted(set(bc[i] for i in range(len(ps)) if ps[i][0] == 1 and 0.15 < ps[i][2][0] < 0.55 and 0.15 < ps[i][2][1] < 0.55))
check(len(inner) == 1, "the inner fluid has the boundary conditions %s" % inner)
checked = 0
for i, (x, y, t) in enumerate(pos):
    if bc[i] != inner[0] or P[i] <= 0:
        continue
    js = [(j, wt(((x - q[0]) ** 2 + (y - q[1]) ** 2) ** .5)) for j, q in enumerate(pos) if j != i]
    near = [j for j, w in js if w]
    if not any(pos[j][2] == 3 for j in near) or any(P[j] <= 0 for j in near if pos[j][2] != 3 and bc[j] == inner[0]):
        continue   # no dummy wall near it, or a negative pressure has been removed there
    a = 2.0 * dim / (n0 * lam) / rho
    left = sum(a * w * (P[i] - P[j]) for j, w in js if w and pos[j][2] != 3) + 0.45e-9 / dt ** 2 * P[i]
    right = 0.2 / dt ** 2 * (nd[i] - n0) / n0
    scale = sum(a * w * abs(P[i]) for j, w in js)
    checked += 1
    check(abs(left - right) < 1e-6 * scale + 1e-4 * abs(right), "particle %d near the dummy walls: left side %g, right side %g" % (i, left, right))
check(checked > 3, "only %d particles to look at" % checked)
done(True, "dummy walls take no part in the pressure equation (%d particles)" % checked)
''')

bug("c15-ghost-fluid-type", "C15", [("src/bucket.cpp", [
    ("            p.type = ParticleType::Ghost;\n", "            p.type      = ParticleType::Ghost;\n            p.fluidType = 0;\n")])],
    "a particle of another fluid than number 0 that leaves the domain",
    "the fluid type of a particle changes during the run", r'''
ps = [(t, 2, x, v) for t, f, x, v in tank()] + [(1, 3, (0.3, 1.999, 0.0), (0.0, 10.0, 0.0))]
d = case("a", ps, particlesPath="./input.csv", endTime=0.02)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
gone = 0
for p in sorted(glob.glob(d + "/out/csv/*")):
    t, n, rows = csv(p)
    gone += rows[-1][0] == "0"
    check([int(x[1]) for x in rows] == [q[1] for q in ps], "%s: fluid types have changed" % os.path.basename(p))
check(gone, "the particle did not leave the domain")
done(True, "fluid types are kept")
''')

bug("c21-negative-density", "C21", [("src/particles_loader/csv.cpp", [
    ("    double density = -1.0;\n", "    double density = defaultDensity;\n"),
    ("        if (density < 0) {\n            density = defaultDensity;\n        }\n", "")])],
    "a csv file whose density column says -1 for particles that are to have the default density",
    "these particles get the density -1", r'''
P = []
for k, dens in enumerate((1000.0, -1.0)):
    ps = tank(6, 6)
    d = case("a%d" % k, ps, particlesPath="./input.csv", endTime=0.003, outputPeriod=0.001)
    with open(d + "/input.csv", "w") as f:
        f.write("0.0\n%d\ntype,fluidType,x,y,z,vx,vy,vz,density\n" % len(ps))
        for t, ft, x, v in ps:
            f.write("%d,%d,%r,%r,%r,%r,%r,%r,%r\n" % ((t, ft) + tuple(x) + tuple(v) + (dens,)))
    r = run(d)
    check(r.returncode == 0, "run failed: " + r.stderr[-300:])
    P.append(vtu(sorted(glob.glob(d + "/out/vtu/*"))[-1]))
check(P[0] == P[1], "particles with density -1 do not behave like those with the default density")
done(True, "a negative density stands for the default")
''')

bug("c09-dimension", "C09", [(L, [
    ("    s.dim              = yaml[\"dim\"].as<int>();", "    s.dim              = yaml[\"dim\"].as<std::string>()[0] == '3' ? 3 : 2; // 2D and 3D are accepted as well")])],
    "a settings file whose dimension is neither 2 nor 3, or not a number",
    "another dimension is simulated than the settings say", r'''
for k, dim in enumerate(("two", "2.5", "x3")):
    d = case("a%d" % k, tank(), dim=dim)
    r = run(d)
    check(r.returncode != 0, "dim: %s was accepted" % dim)
d = case("b", tank())
check(run(d).returncode == 0, "a valid case is refused")
done(True, "an invalid dimension is refused")
''')

bug("c19-prefix", "C19", [(DLG, [
    ("                } else if (response == \"y\" || response == \"Y\") {", "                } else if (response[0] == 'y' || response[0] == 'Y') {")])],
    "an answer that begins with y but is not yes",
    "the existing files are overwritten without consent", r'''
gen = os.path.join(REPO, "_build", "generator", "generate_hydrostatic")
d = os.path.join(TMP, "g")
os.makedirs(d + "/run")
def go(answers):
    return subprocess.run([gen], cwd=d + "/run", input=answers.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
go("y\n")
files = [p for p in glob.glob(TMP + "/g/**/input.*", recursive=True)]
check(files, "the generator wrote nothing in the scratch folder")
for f in files:
    open(f, "w").write("precious\n")
go("yikes-no\nn\n")
for f in files:
    check(open(f).read() == "precious\n", "%s was overwritten after the answers yikes-no, n" % os.path.basename(f))
done(True, "nothing is overwritten without consent")
''')

bug("c07-float-time", "C07", [("src/particles_loader/prof.cpp", [
    ("    double startTime = 0;\n", "    float startTime = 0;\n")])],
    "a restart from a snapshot whose time is not a float, e.g. 1.1",
    "the restarted run begins at another time than the snapshot", "")
del S["c07-float-time"]

bug("c11-report-before", "C11", [(SIM, [
    ("        if (saveCondition()) {\n            saver.save(mps, time);", "        if (saveCondition()) {\n            saver.save(mps, outputPeriod * saver.getFileNumber() + startTime); // without rounding errors")])],
    "an output period that is no multiple of dt",
    "the snapshots carry other times than the states they hold", r'''
d = case("a", [(1, 0, (0.3 * i, 0.0, 0.0), (1.0, 0.0, 0.0)) for i in range(3)], dt=0.003, endTime=0.03, outputPeriod=0.005, gravity="[0.0, 0.0, 0.0]")
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
for p in sorted(glob.glob(d + "/out/prof/*")):
    t, ps = prof(p)
    check(abs(ps[0][1][0] - t) < 1e-6, "a particle with velocity 1 is at x=%g at t=%g" % (ps[0][1][0], t))
done(True, "snapshots carry their time")
''')

bug("c30-catch-up", "C30", [(SIM, [
    ("    return time - startTime >= outputPeriod * double(saver.getFileNumber());",
     "    // snapshots that were due before the last one are not made up for\n    bool isDue = false;\n    while (time - startTime >= nextOutput) {\n        isDue = true;\n        nextOutput += outputPeriod;\n    }\n    return isDue;"),
    ("    startTime    = input.startTime;", "    startTime    = input.startTime;\n    nextOutput   = input.settings.outputPeriod;")]),
    ("src/simulation.hpp", [("    double outputPeriod;", "    double outputPeriod, nextOutput;")])],
    "an output period of zero, below zero, or lost in rounding next to the start time",
    "the run never gets beyond its first step", r'''
for k, per in enumerate(("0.0", "-0.001", "1.0e-300")):
    d = case("a%d" % k, tank(), dt=0.001, endTime=0.0035, outputPeriod=per)
    try:
        r = run(d, timeout=40)
    except subprocess.TimeoutExpired:
        done(False, "outputPeriod %s: the run does not end" % per)
    check(r.returncode == 0, "outputPeriod %s: %s" % (per, r.stderr[-300:]))
done(True, "the runs end whatever the output period")
''')

bug("c30-line-buffer", "C30", [(SIM, [
    ("    fprintf(stderr, \"%4d: t=%.3lfs\\n\", timeStep, time);",
     "    char line[64];\n    sprintf(line, \"%4d: t=%.3lfs\\n\", timeStep, time);\n    fputs(line, stderr);")])],
    "a start time of 1e60 or more",
    "memory behind a buffer is overwritten", r'''
for k, t0 in enumerate((1e55, 1e90, 1e200, 1e290)):
    d = case("a%d" % k, tank(), dt=t0 * 1e-10, endTime=repr(t0 * (1 + 1.5e-10)), outputPeriod=t0)
    write_particles(os.path.join(d, "input.prof"), [(2, 0, (0.1, 0.1, 0.0), (0.0, 0.0, 0.0))], time=t0)
    r = run(d)
    check(r.returncode == 0, "start time %g: status %d, %s" % (t0, r.returncode, r.stderr[-200:]))
    check(re.search(r"1: t=\d+\.\d{3}s", r.stderr), "start time %g: no report of step 1" % t0)
done(True, "late start times do no harm")
''')

bug("c30-type-count", "C30", [("src/particles.cpp", [
    ("    particles.emplace_back(particle);", "    particles.push_back(particle);\n    numberOfType[static_cast<int>(particle.type)]++;")]),
    ("src/particles.hpp", [("    std::vector<Particle> particles;", "    std::vector<int> numberOfType = std::vector<int>(4); ///< number of particles of each type\n    std::vector<Particle> particles;")])],
    "a particle type outside of the enumeration in the particle file",
    "memory outside of the table is changed or the run crashes", r'''
for k, t in enumerate((4, 7, 100, 100000, 2 ** 29, 2 ** 31 - 1, -1, -2 ** 20, -2 ** 31)):
    d = case("a%d" % k, tank() + [(t, 0, (0.3, 1.5, 0.0), (0.0, 0.0, 0.0))], dt=0.001, endTime=0.0015)
    r = run(d)
    check(r.returncode >= 0 and r.returncode < 128, "particle type %d: ended by signal (%d), %s" % (t, r.returncode, r.stderr[-200:]))
    if r.returncode == 0:
        n, ps = prof(d + "/out/prof/output_0000.prof")
        check(len(ps) == len(tank()) + 1, "particle type %d: %d particles" % (t, len(ps)))
done(True, "unknown particle types do no harm")
''')

bug("c31-hard-link", "C31", [(L, [
    (COPY, "        // large particle files need not be stored twice\n        std::error_code ec;\n        fs::create_hard_link(inputFilePath, outputFilePath, ec);\n        if (ec) {\n            fs::copy_file(inputFilePath, outputFilePath);\n        }")])],
    "an input file that is edited in place after the run",
    "the copy in the output directory follows the edit, so it is not the input of that run any more", r'''
d = case("a", tank())
p, s = open(d + "/input.prof").read(), open(d + "/settings.yml").read()
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
with open(d + "/input.prof", "r+") as f:
    f.write("9.75\n")
with open(d + "/settings.yml", "a") as f:
    f.write("# edited\n")
check(open(d + "/out/input.prof").read() == p, "the copy of the particle file changed with the file")
check(open(d + "/out/settings.yml").read() == s, "the copy of the settings changed with the file")
done(True, "the copies are copies")
''')

bug("c31-read-again", "C31", [(SIM, [
    ("    endTime      = input.settings.endTime;\n    dt           = input.settings.dt;\n    outputPeriod = input.settings.outputPeriod;",
     "    readTimeSettings(settingPath);"),
    ("void Simulation::run() {", "void Simulation::readTimeSettings(const fs::path& settingPath) {\n    YAML::Node yaml = YAML::LoadFile(settingPath.string());\n\n    endTime      = yaml[\"endTime\"].as<double>();\n    dt           = yaml[\"dt\"].as<double>();\n    outputPeriod = yaml[\"outputPeriod\"].as<double>();\n}\n\nvoid Simulation::run() {"),
    ("#include <memory>\n", "#include <memory>\n#include <yaml-cpp/yaml.h>\n")]),
    ("src/simulation.hpp", [("    void startSimulation();", "    void readTimeSettings(const std::filesystem::path& settingPath);\n    void startSimulation();")])],
    "settings that are edited while the particles are being set up",
    "times of the new settings are used with everything else of the old ones", r'''
# as soon as the directories for the snapshots are made, the settings are replaced
so = shim("""
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" int mkdir(const char* path, mode_t mode) {
    const char *from = getenv("SWAP_FROM"), *to = getenv("SWAP_TO");
    if (from && to && access(from, F_OK) == 0)
        rename(from, to);
    return ((int (*)(const char*, mode_t)) dlsym(RTLD_NEXT, "mkdir"))(path, mode);
}
""")
d = case("a", tank(), dt=0.001, endTime=0.0025, outputPeriod=0.001)
new = open(d + "/settings.yml").read().replace("endTime: 0.0025", "endTime: 0.0005")
open(d + "/new.yml", "w").write(new)
r = run(d, env={"LD_PRELOAD": so, "SWAP_FROM": d + "/new.yml", "SWAP_TO": d + "/settings.yml"})
n = len(glob.glob(d + "/out/prof/*"))
check(r.returncode == 0 or n == 0, "run failed: " + r.stderr[-300:])
if n:
    old = "endTime: 0.0025" in open(d + "/out/settings.yml").read()
    check((n >= 3) == old, "copy of the settings: %s, but %d snapshots" % ("old" if old else "new", n))
done(True, "one version of the settings is used")
''')

bug("c32-number-on", "C32", [("src/saver.cpp", [
    ("    fs::create_directories(dir / \"prof\");\n    fs::create_directories(dir / \"vtu\");\n    fs::create_directories(dir / \"csv\");", "    for (const char* format : {\"prof\", \"vtu\", \"csv\"}) {\n        fs::create_directories(dir / format);\n    }\n\n    // earlier results are kept\n    while (fs::exists(dir / \"vtu\" / (\"output_000\" + std::to_string(fileNumber) + \".vtu\")) && fileNumber < 10) {\n        fileNumber++;\n    }"),
    ("    this->dir               = dir;", "    this->dir               = dir;\n    this->fileNumber        = 0;")])],
    "an output directory with snapshots of an earlier (killed, say) run whose copies of the input have been cleared away",
    "the numbers of the snapshots go on where those of the earlier run ended, and snapshots are due later", r'''
d = case("a", tank(), dt=0.001, endTime=0.0045, outputPeriod=0.001)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
want = tree(d + "/out")
for f in ("settings.yml", "input.prof"):
    os.remove(d + "/out/" + f)
for n in (3, 4, 5):
    for f in glob.glob(d + "/out/*/output_000%d.*" % n):
        os.remove(f)
r = run(d)
check(r.returncode == 0, "second run failed: " + r.stderr[-300:])
got = tree(d + "/out")
check(got == want, "the second run into the same directory writes something else: " + ", ".join(k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)))
done(True, "old snapshots do not change a run")
''')

bug("c32-broken-copy", "C32", [(L, [
    ("    if (fs::exists(outputFilePath)) {", "    if (fs::exists(outputFilePath) && fs::file_size(outputFilePath) < fs::file_size(inputFilePath)) {\n        // left behind by a run that was killed while copying\n        fs::remove(outputFilePath);\n    }\n    if (fs::exists(outputFilePath) && fs::file_size(outputFilePath) > 0) {")])],
    "an output directory with the (shorter) input of an earlier run",
    "the input of the earlier run is removed and its snapshots are mixed with new ones", r'''
d = case("a", tank(), endTime=0.002)
r = run(d)
check(r.returncode == 0, "run failed: " + r.stderr[-300:])
want = tree(d + "/out")
with open(d + "/settings.yml", "a") as f:
    f.write("# second run\n")
write_particles(d + "/input.prof", tank(lift=1.02, nx=8))
r = run(d)
check(r.returncode != 0, "the second run into the same directory ended with status 0")
check(tree(d + "/out") == want, "the second run into the same directory altered the results of the first")
done(True, "a used output directory is refused")
''')
