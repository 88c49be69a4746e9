"""Runs one simulated process per plan inside a fork server and collects everything it left behind."""
import hashlib
import json
import os
import select
import shutil
import struct
import subprocess
import tempfile


class Infra(Exception):
    """The simulator itself failed (never a verdict about the code under test)."""


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK) and not os.statvfs(d).f_flag & os.ST_NOEXEC:
            return d
    return "/tmp"


def new_scratch():
    # constant length: nothing in a run may depend on where the scratch directory is
    return tempfile.mkdtemp(prefix="dst-", dir=scratch_base())


class Result:
    __slots__ = ("res", "tree", "out", "err", "kind", "code", "raw", "meta")

    def __init__(self, res, tree, out, err, raw=b"", meta=None):
        self.meta = meta or {}
        self.res = res
        self.tree = tree
        self.out = out
        self.err = err
        self.kind = res["kind"]
        self.code = res["code"]
        self.raw = raw

    @property
    def ok(self):
        return self.kind == "exit" and self.code == 0

    @property
    def died(self):
        """terminated with a non-zero status on its own account"""
        return not self.ok and self.kind in ("exit", "abort")

    def sub(self, prefix):
        n = len(prefix)
        return {k[n:]: v for k, v in self.tree.items() if k.startswith(prefix)}

    def brief(self):
        t = self.err.decode(errors="replace").strip().splitlines()
        t = [x for x in t if "t=" not in x][-1:] or t[-1:]
        return "%s/%d%s%s" % (self.kind, self.code, " " + self.res["badmem"] if self.res["badmem"] else "",
                              " stderr: " + t[0][:160] if t else "")


KEYS = ("seed", "quota", "shortio", "afault", "memfill", "place", "clock", "clockbase", "threads", "teamvary", "smode", "sp", "sd",
        "smean", "log", "slog", "race", "heap", "budget", "opbudget", "killacc", "inerr", "hang", "tty", "heaplimit", "blocklimit", "fdlimit", "cstream", "alarm")


class Sim:
    """One worker: a private scratch directory and lazily started fork servers."""

    def __init__(self, bins, base=None):
        self.bins = bins
        # the same length of path whoever the worker is
        self.top = None if base else new_scratch()
        self.base = base or os.path.join(self.top, "m00")
        self.own = base is None
        self.root = os.path.join(self.base, "root")
        self.ctl = os.path.join(self.base, "ctl")
        os.makedirs(self.ctl, exist_ok=True)
        self.srv = {}
        self.nruns = 0
        self.hist = []  # results' hashes of the scenario in progress
        self.stats = {}

    def drop(self):
        """ends every fork server (after trouble)"""
        for p in self.srv.values():
            p.kill()
            p.wait()
        self.srv = {}

    def close(self):
        for p in self.srv.values():
            try:
                p.stdin.close()
                p.wait(timeout=10)
            except Exception:
                p.kill()
        self.srv = {}
        if self.own:
            shutil.rmtree(self.top, ignore_errors=True)

    def _server(self, v):
        p = self.srv.get(v)
        if p is None or p.poll() is not None:
            env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC"}
            p = subprocess.Popen([self.bins[v.split("#")[0]]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd="/")
            self.srv[v] = p
        return p

    def wipe(self):
        if os.path.isdir(self.root):
            shutil.rmtree(self.root)
        os.makedirs(self.root)

    def put(self, files):
        """files: relpath -> bytes (file), None (directory) or ("link", target)"""
        for rel, data in files.items():
            p = os.path.join(self.root, rel)
            if data is None:
                os.makedirs(p, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(data, tuple):
                os.symlink(data[1], p)
                continue
            with open(p, "wb") as f:
                f.write(data)

    def tree(self):
        """content of every file; self.meta: permission bits and number of links of every file"""
        out = {}
        self.meta = {}
        rb = self.root.encode()
        for d, dn, fn in os.walk(self.root):
            rel = os.path.relpath(d, self.root)
            if rel != ".":
                out[rel + "/"] = b""
            for f in fn:
                p = os.path.join(d, f)
                r = os.path.normpath(os.path.join(rel, f))
                if os.path.islink(p):
                    out[r] = b"-> " + os.readlink(p).encode().replace(rb, b"@ROOT@")
                else:
                    with open(p, "rb") as h:
                        out[r] = h.read()
                        st = os.fstat(h.fileno())
                        self.meta[r] = (st.st_mode & 0o7777, st.st_nlink)
        return out

    def _planfile(self, plan, ctl, extra=()):
        lines = ["root " + self.root, "cwd " + os.path.normpath(os.path.join(self.root, plan.get("cwd", "."))),
                 "result %s/res" % ctl, "conout %s/out" % ctl, "conerr %s/err" % ctl, "raw %s/raw" % ctl]
        lines.extend(extra)
        for k in KEYS:
            if k in plan:
                v = plan[k]
                lines.append("%s %s" % (k, " ".join(str(x) for x in v) if isinstance(v, (list, tuple)) else v))
        for k, x in plan.get("env", ()):
            lines.append("env %s=%s" % (k, x))
        for a in plan.get("args", ()):
            lines.append("arg " + a.replace("@ROOT@", self.root))
        for f in plan.get("faults", ()):
            lines.append("fault %d %s %d" % tuple(f))
        for f in plan.get("cfaults", ()):
            lines.append("cfault %d %s %d" % tuple(f))
        for s in plan.get("sw", ()):
            lines.append("sw %d %d %d" % tuple(s))
        for c in plan.get("inchunks", ()):
            lines.append("inchunk %d" % c)
        if "stdin" in plan:
            lines.append("stdin " + plan["stdin"].encode().hex())
        pf = ctl + "/plan"
        with open(pf, "w") as f:
            f.write("\n".join(lines) + "\n")
        if os.path.exists(ctl + "/res"):
            os.unlink(ctl + "/res")
        return pf

    def _collect(self, variant, plan, ctl, st, tree, meta):
        try:
            with open(ctl + "/res") as f:
                res = json.load(f)
        except (OSError, ValueError) as e:
            raise Infra("no result from simulated process (%s): wait status %s" % (e, st.decode().strip()))
        if res["kind"] == "wallclock":
            raise Infra("wall clock limit of a simulated process: " + res.get("stuck", ""))
        with open(ctl + "/out", "rb") as f:
            out = f.read()
        with open(ctl + "/err", "rb") as f:
            err = f.read()
        with open(ctl + "/raw", "rb") as f:
            raw = f.read(4096)
        if raw:
            err += b"\n" + raw
        rb = self.root.encode()
        out, err = out.replace(rb, b"@ROOT@"), err.replace(rb, b"@ROOT@")
        r = Result(res, tree, out, err, raw, meta)
        self.nruns += 1
        h = hashlib.sha1(out + b"\0" + err)
        for k in sorted(r.tree):
            h.update(k.encode() + b"\0" + r.tree[k] + b"\0")
        self.hist.append((res["hash"], res["schash"], h.hexdigest()[:16]))
        self._count(variant, plan, res)
        return r

    def run(self, variant, plan, files=None, keep=False):
        """files given: start from an empty root holding these; otherwise go on with what is there."""
        if files is not None:
            self.wipe()
            self.put(files)
        pf = self._planfile(plan, self.ctl)
        for attempt in range(2):
            p = self._server(variant)
            try:
                p.stdin.write((pf + "\n").encode())
                p.stdin.flush()
                st = p.stdout.readline()
            except (BrokenPipeError, OSError):
                st = b""
            if st.startswith(b"status "):
                break
            p.kill()
            p.wait()
            self.srv.pop(variant, None)
            if attempt == 0 and files is not None:
                self.wipe()
                self.put(files)
                continue
            raise Infra("fork server of %s died" % variant)
        t = {} if keep else self.tree()
        return self._collect(variant, plan, self.ctl, st, t, {} if keep else self.meta)

    def multi(self, procs, sched, files=None):
        """Several simulated processes in one world. procs: [(variant, plan)]; sched: [(process, number of I/O operations)] or
        (-1, function called in between), after which the processes still running are run to their end in order. Only one
        process runs at any time. Returns the results (which share the final tree) and the trace [(process, operations granted)]."""
        if files is not None:
            self.wipe()
            self.put(files)
        ps = []
        try:
            for i, (variant, plan) in enumerate(procs):
                ctl = os.path.join(self.ctl, "p%d" % i)
                os.makedirs(ctl, exist_ok=True)
                for n in ("req", "go"):
                    if not os.path.exists(ctl + "/" + n):
                        os.mkfifo(ctl + "/" + n)
                req = os.open(ctl + "/req", os.O_RDWR | os.O_NONBLOCK)
                go = os.open(ctl + "/go", os.O_RDWR | os.O_NONBLOCK)
                ps.append({"ctl": ctl, "req": req, "go": go, "state": "new", "v": variant, "plan": plan, "key": "%s#%d" % (variant, i)})
                for fd in (req, go):   # nothing left over from an earlier run
                    try:
                        os.read(fd, 65536)
                    except BlockingIOError:
                        pass
            for p in ps:   # each runs up to its first I/O operation, one after the other
                pf = self._planfile(p["plan"], p["ctl"], ["gatereq " + p["ctl"] + "/req", "gatego " + p["ctl"] + "/go"])
                s = self._server(p["key"])
                s.stdin.write((pf + "\n").encode())
                s.stdin.flush()
                p["srv"] = s
                self._await(p)
            trace = []

            def grant(i, n):
                p = ps[i]
                if p["state"] != "p":
                    return
                os.write(p["go"], struct.pack("<q", n))
                self._await(p)
                trace.append((i, n))

            for i, n in sched:
                if i < 0:
                    n()
                elif n > 0:
                    grant(i % len(ps), n)
            for i in range(len(ps)):
                grant(i, -1)
        except (BrokenPipeError, OSError) as e:
            raise Infra("simulated processes: %s" % e)
        finally:
            for p in ps:
                os.close(p["req"])
                os.close(p["go"])
        t = self.tree()
        return [self._collect(p["v"], p["plan"], p["ctl"], p["st"], t, self.meta) for p in ps], trace

    def _await(self, p):
        """until the process asks for a grant or has ended"""
        while True:
            r, _, _ = select.select([p["req"], p["srv"].stdout], [], [], 400)
            if not r:
                raise Infra("a simulated process is stuck")
            if p["srv"].stdout in r:
                p["st"] = p["srv"].stdout.readline()
                if not p["st"].startswith(b"status "):
                    raise Infra("fork server of %s died" % p["v"])
                p["state"] = "e"
                return
            b = os.read(p["req"], 1)
            if b == b"p":
                p["state"] = "p"
                return
            # b"e": the server reports the status next

    def _count(self, variant, plan, res):
        s = self.stats
        s["runs"] = s.get("runs", 0) + 1
        s["runs_" + variant] = s.get("runs_" + variant, 0) + 1
        for k in ("ops", "cops", "allocs", "accs", "regions", "switches", "preempts", "simns", "clockjumps", "clockback", "written", "clock"):
            s[k] = s.get(k, 0) + res[k]
        f = s.setdefault("fired", {})
        for k, v in res["fired"].items():
            if v:
                f[k] = f.get(k, 0) + v
        if plan.get("killacc") and res["kind"] == "killed" and not res["fired"]["kill"]:
            f["kill_at_access"] = f.get("kill_at_access", 0) + 1
        if plan.get("clock"):
            k = "clock_mode_%d" % plan["clock"]
            f[k] = f.get(k, 0) + 1
        if plan.get("memfill"):
            k = "memfill_%d" % plan["memfill"]
            f[k] = f.get(k, 0) + 1
        if plan.get("place"):
            k = "memory_placement_%d" % plan["place"]
            f[k] = f.get(k, 0) + 1
        if res["preempts"]:
            f["preemption"] = f.get("preemption", 0) + res["preempts"]
        e = s.setdefault("ends", {})
        k = "%s/%d" % (res["kind"], res["code"])
        e[k] = e.get(k, 0) + 1

    def take_stats(self):
        s, self.stats = self.stats, {}
        return s
