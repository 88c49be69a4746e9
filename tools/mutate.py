#!/usr/bin/env python3
"""Systematic mutation analysis: every small syntactic change of the sources (operators, constants, conditions, statements, enum values), one at
a time in a scratch copy, against the checks in turn until one reports a violation.  Survivors are printed for inspection by hand.

  python3-vt tools/mutate.py [-j N] [-n SCENARIOS] [-o results.jsonl] [--sample K] files...
Nothing is written to /repo or to the evidence files; results.jsonl is resumed.
"""
import argparse
import concurrent.futures as cf
import json
import os
import queue
import random
import re
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STEP = "C13 C30 C17 C16 C14 C15 C02 C01 C27 C18 C21".split()
IO = "C12 C32 C21 C30 C10 C08 C09 C04 C05 C06 C07 C11 C18 C03 C02 C26 C31 C27 C13 C14 C15 C16 C17 C01 C22".split()
GEN = "C20 C19".split()


def order(f):
    if f.startswith("generator"):
        return GEN
    if f.startswith("scripts"):
        return ["C25"] if "prof" in f else ["C28"]
    if re.search("exporter|saver|loader|simulation|main|arguments|input", f):
        return IO
    return STEP


SWAP = [(r"(?<= )<(?= )", ["<="]), (r"(?<= )<=(?= )", ["<"]), (r"(?<= )>(?= )", [">="]), (r"(?<= )>=(?= )", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
        (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/="]), (r"/=", ["*="]),
        (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bcontinue;", ["break;", ";"]), (r"\bbreak;", [";"]),
        (r"ParticleType::Ghost", ["ParticleType::DummyWall"]), (r"ParticleType::DummyWall", ["ParticleType::Ghost", "ParticleType::Wall"]),
        (r"ParticleType::Wall", ["ParticleType::DummyWall"]), (r"ParticleType::Fluid", ["ParticleType::Wall"]), (r"FluidState::FreeSurface", ["FluidState::Inner"]),
        (r"FluidState::Inner", ["FluidState::FreeSurface"]), (r"FluidState::Ignored", ["FluidState::Inner"]), (r"\bpi\.", ["pj."]), (r"\bpj\.", ["pi."]),
        (r"\.x\(\)", [".y()"]), (r"\.y\(\)", [".z()", ".x()"]), (r"\.z\(\)", [".y()"]), (r"std::max", ["std::min"]), (r"std::min", ["std::max"]),
        (r"\bEXIT_FAILURE\b", ["EXIT_SUCCESS"]), (r"(?<![\w.\"])\d+\.\d+(?![\w\"])", ["0.0", "+1"]), (r"(?<![\w.\"%])\d+(?![\w.\"])", ["+1"]), (r"!(?=[a-z(])", [""]),
        (r"\bre_forGradient\b|\bre_forNumberDensity\b|\bre_forLaplacian\b|\bn0_forGradient\b|\bn0_forNumberDensity\b|\bn0_forLaplacian\b", ["?re"])]


def mutants(path, text):
    out = []
    depth = 0
    for ln, line in enumerate(text.split("\n")):
        s = line.strip()
        if s.startswith(("//", "#", "*", "/*", "using ", "namespace")) and not s.startswith("#pragma omp"):
            continue
        code = line.split("//")[0]
        if s.startswith("#pragma omp"):
            continue
        instr = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
        for pat, reps in SWAP:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < b for a, b in instr):
                    continue
                for r in reps:
                    t = m.group(0)
                    if r == "+1":
                        n = ("%r" % (float(t) + 1)) if "." in t else str(int(t) + 1)
                    elif r == "?re":
                        k = t.split("_for")
                        n = k[0] + "_for" + ("Laplacian" if k[1] != "Laplacian" else "Gradient")
                    else:
                        n = r
                    if n != t:
                        out.append((ln, line[:m.start()] + n + line[m.end():]))
        if re.match(r"^(if|\} else if|else if) \(.*\)( \{)?$", s):
            i = code.index("(", code.index("if"))
            j = code.rindex(")")
            out.append((ln, code[:i] + "(!(" + code[i + 1:j] + "))" + code[j + 1:]))
        if s.endswith(";") and not s.startswith(("return", "}", "for", "break", "continue", "const ", "auto", "double ", "int ", "size_t", "std::string ", "Eigen::", "std::vector", "fs::path ", "class ",
                                                  "friend", "bool ", "void ", "struct ", "enum ")) and not re.match(r"^[\w:<>]+[&*]? +\w+( *=.*|\(.*\))?;$", s):
            out.append((ln, re.match(r"\s*", line).group(0) + ";"))
    seen = set()
    res = []
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


def run(slot, f, ln, new, n, cap):
    tree = "/tmp/mw/%s/repo" % slot
    if not os.path.isdir(tree):
        os.makedirs(tree)
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + tree, shell=True)
    p = os.path.join(tree, f)
    orig = open(p).read()
    lines = orig.split("\n")
    old = lines[ln]
    lines[ln] = new
    open(p, "w").write("\n".join(lines))
    env = dict(os.environ, DST_REPO=tree, DST_BUILD="/tmp/mw/%s/build" % slot, DST_OUT="/tmp/mw/%s" % slot, VERIF_SEED="1", VERIF_TIER="quick")
    st, why = "SURVIVED", []
    t0 = time.time()
    try:
        r = subprocess.run([VERIF + "/dst", "build"], env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            st = "NOBUILD"
        for c in order(f) if st != "NOBUILD" else ():
            r = subprocess.run([VERIF + "/dst", "check", c, "--workers", "1", "-n", str(n), "--cap", str(cap)], env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors="replace")
            if r.returncode == 1 and "VIOLATION property=" + c in out:
                st, why = "CAUGHT", [c]
                break
            if "BuildError" in out or "error:" in out:
                st, why = "NOBUILD", []
                break
            if r.returncode != 0:
                why.append("%s:%d %s" % (c, r.returncode, out[-200:]))
    finally:
        open(p, "w").write(orig)
        shutil.rmtree("/tmp/mw/%s/replays" % slot, ignore_errors=True)
        b = "/tmp/mw/%s/build" % slot
        if sum(1 for _ in os.listdir(b)) > 400 if os.path.isdir(b) else False:
            shutil.rmtree(b)
    return {"file": f, "line": ln + 1, "old": old.strip(), "new": new.strip(), "status": st, "why": why, "s": round(time.time() - t0)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-n", type=int, default=150)
    ap.add_argument("--cap", type=int, default=40)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-o", default="/tmp/mutate.jsonl")
    ap.add_argument("files", nargs="*")
    a = ap.parse_args()
    todo = []
    for f in a.files:
        todo += [(f, ln, new) for ln, new in mutants(f, open("/repo/" + f).read())]
    done = set()   # survivors are tried again
    if os.path.exists(a.o):
        for l in open(a.o):
            d = json.loads(l)
            if d["status"] == "SURVIVED":
                continue
            done.add((d["file"], d["line"] - 1, d["new"]))
    todo = [t for t in todo if (t[0], t[1], t[2].strip()) not in done]
    if a.sample:
        random.Random(7).shuffle(todo)
        todo = todo[:a.sample]
    print(len(todo), "changes", flush=True)
    if a.list:
        for t in todo:
            print("%s:%d %s" % (t[0], t[1] + 1, t[2].strip()))
        return
    slots = queue.Queue()
    for i in range(a.j):
        slots.put("m%d" % i)

    def job(t):
        s = slots.get()
        try:
            return run(s, *t, a.n, a.cap)
        finally:
            slots.put(s)
    with cf.ThreadPoolExecutor(a.j) as ex, open(a.o, "a") as o:
        for f in cf.as_completed([ex.submit(job, t) for t in todo]):
            d = f.result()
            o.write(json.dumps(d) + "\n")
            o.flush()
            if d["status"] != "CAUGHT":
                print("%(status)s %(file)s:%(line)d  %(old)s   ->   %(new)s   %(s)ds %(why)s" % d, flush=True)


main()
