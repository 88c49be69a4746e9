"""Runs the repository's shell scripts as simulated processes: external commands, clock and build/mps behind seams."""
import hashlib
import multiprocessing as mp
import os
import re
import resource
import select
import shutil
import signal
import stat
import subprocess
import sys
import time

from . import build
from .runner import Infra

UID = 65534
COMMANDS = ("cat cp mv rm mkdir rmdir ln touch date tee head tail dirname basename realpath readlink mktemp sed awk mawk grep tr cut sort uniq wc ls find "
            "sleep seq env true false id whoami hostname uname pwd echo printf test expr xargs paste od stat chmod install sync du df timeout nproc tac rev "
            "cmp diff comm nl fold split join mkfifo truncate dd yes stdbuf bash sh column").split()


class Proc:
    """one invocation of a script"""
    __slots__ = ("id", "state", "rc", "p", "go", "eof", "want", "seen", "log", "out", "err", "killed", "times", "fired", "pid")


class Shell:
    def __init__(self, base, bins):
        self.top = os.path.join(base, "s")
        self.bins = bins
        self.world = os.path.join(self.top, "w")
        self.ctl = os.path.join(self.top, "c")
        self.bin = os.path.join(self.top, "b")
        if not os.path.isdir(self.bin):
            os.makedirs(self.bin)
            d = base
            while d not in ("/", "/tmp", "/dev/shm", "/dev"):   # an unprivileged user has to get there
                try:
                    os.chmod(d, os.stat(d).st_mode | 0o011)
                except OSError:
                    pass
                d = os.path.dirname(d)
            shutil.copy(bins["shcmd"], self.bin + "/shcmd")
            shutil.copy(bins["shclock"], self.bin + "/shclock.so")
            os.chmod(self.bin + "/shcmd", 0o755)
            for c in COMMANDS:
                if os.path.exists("/usr/bin/" + c):
                    os.symlink("shcmd", self.bin + "/" + c)
        self.stats = {}

    def wipe(self):
        for d in (self.world, self.ctl):
            if os.path.isdir(d):
                for a, dn, fn in os.walk(d):
                    os.chmod(a, 0o755)
                shutil.rmtree(d)
            os.makedirs(d)
            os.chmod(d, 0o777)

    def put(self, files):
        """relpath -> bytes, None (directory), ("link", target), ("exe", bytes), ("ro", None) (directory nothing can be added to)"""
        for rel, data in files.items():
            p = os.path.join(self.world, rel)
            d = p if data is None or isinstance(data, (list, tuple)) and data[0] == "ro" else os.path.dirname(p)
            os.makedirs(d, exist_ok=True)
            if isinstance(data, (list, tuple)):
                if data[0] == "link":
                    os.symlink(data[1], p)
                elif data[0] == "bin":
                    shutil.copy(self.bin + "/shcmd", p)
                    os.chmod(p, 0o755)
            elif data is not None:
                with open(p, "wb") as f:
                    f.write(data)
        for a, dn, fn in os.walk(self.world):
            for x in [a] + [os.path.join(a, f) for f in fn]:
                if os.geteuid() == 0:
                    os.lchown(x, UID, UID)
        for rel, data in files.items():
            if isinstance(data, (list, tuple)) and data[0] == "ro":
                os.chmod(os.path.join(self.world, rel), 0o555)

    def lock(self, rel, yes):
        """a directory that can be neither entered nor listed"""
        os.chmod(os.path.join(self.world, rel), 0o600 if yes else 0o755)

    def tree(self):
        out = {}
        for d, dn, fn in os.walk(self.world):
            rel = os.path.relpath(d, self.world)
            for x in dn:
                if not os.path.islink(os.path.join(d, x)):
                    out[os.path.normpath(os.path.join(rel, x)) + "/"] = b""
            for f in fn + [x for x in dn if os.path.islink(os.path.join(d, x))]:
                p = os.path.join(d, f)
                r = os.path.normpath(os.path.join(rel, f))
                st = os.lstat(p)
                if stat.S_ISLNK(st.st_mode):
                    out[r] = b"-> " + os.readlink(p).encode()
                elif stat.S_ISREG(st.st_mode):
                    with open(p, "rb") as h:
                        out[r] = h.read().replace(self.world.encode(), b"@W@")
                else:
                    out[r] = b"special"
        return out

    def _clock(self, t):
        with open(self.ctl + "/clock.n", "w") as f:
            f.write("%d\n" % t)
        os.chmod(self.ctl + "/clock.n", 0o644)
        os.replace(self.ctl + "/clock.n", self.ctl + "/clock")

    def run(self, procs, clock, sched):
        """procs: [{"argv", "cwd", "env", "faults": [[command, nth, "fail"|"kill"|"killafter"]], "fsize"}]; clock: callable giving the time after each
        granted command; sched: callable choosing among the indices of the processes that wait. Returns [Proc]."""
        if not os.path.exists(self.ctl + "/req"):
            os.mkfifo(self.ctl + "/req")
            os.chmod(self.ctl + "/req", 0o666)
            with open(self.ctl + "/log", "w"):
                pass
            os.chmod(self.ctl + "/log", 0o666)
        req = os.open(self.ctl + "/req", os.O_RDWR | os.O_NONBLOCK)
        ps = []
        logpos = os.path.getsize(self.ctl + "/log")
        now = clock(None)
        self._clock(now)
        buf = b""
        trace = []
        try:
            for i, d in enumerate(procs):
                x = Proc()
                x.id, x.state, x.want, x.seen, x.killed, x.rc = d["id"], "run", None, {}, False, None
                x.times, x.fired = [now], []
                go = "%s/go%s" % (self.ctl, x.id)
                if not os.path.exists(go):
                    os.mkfifo(go)
                    os.chmod(go, 0o666)
                x.go = os.open(go, os.O_RDWR | os.O_NONBLOCK)
                r, w = os.pipe()
                os.set_inheritable(w, True)
                env = {"PATH": self.bin, "LC_ALL": "C", "TZ": "UTC", "HOME": self.world, "DSTSH_CTL": self.ctl, "DSTSH_ID": x.id, "DSTSH_ROOT": self.world,
                       "LD_PRELOAD": self.bin + "/shclock.so"}
                env.update(d.get("env", {}))
                if d.get("openfail"):
                    env["DSTSH_OPENFAIL"] = "%d" % d["openfail"]
                lim = d.get("fsize")

                def pre():
                    os.setsid()
                    os.umask(0o022)
                    if lim is not None:
                        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
                    else:
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    if os.geteuid() == 0:
                        os.setgroups([])
                        os.setgid(UID)
                        os.setuid(UID)
                out = open("%s/out%s" % (self.ctl, x.id), "wb")
                err = open("%s/err%s" % (self.ctl, x.id), "wb")
                x.p = subprocess.Popen([a.replace("@W@", self.world) for a in d["argv"]], executable="/bin/bash", stdin=subprocess.DEVNULL, stdout=out, stderr=err,
                                       env={k: a.replace("@W@", self.world) for k, a in env.items()}, cwd=os.path.join(self.world, d["cwd"]),
                                       preexec_fn=pre, pass_fds=(w,), restore_signals=False)
                os.close(w)
                out.close()
                err.close()
                x.eof = r
                ps.append(x)

            def settle():
                nonlocal buf
                while any(x.state == "run" for x in ps):
                    fds = [req] + [x.eof for x in ps if x.state == "run"]
                    r, _, _ = select.select(fds, [], [], 120)
                    if not r:
                        raise Infra("a simulated script is stuck")
                    if req in r:
                        buf += os.read(req, 65536)
                        while b"\n" in buf:
                            l, buf = buf.split(b"\n", 1)
                            i, what, name, pid = l.decode().split(" ")
                            x = next(x for x in ps if x.id == i)
                            x.pid = int(pid)
                            if what == "ask" and not x.killed:
                                x.state, x.want = "ask", name
                            else:
                                self._kill(x)
                        continue
                    for x in ps:
                        if x.state == "run" and x.eof in r and not os.read(x.eof, 1):
                            x.rc = x.p.wait()
                            x.state = "end"
            settle()
            while any(x.state == "ask" for x in ps):
                k = sched([i for i, x in enumerate(ps) if x.state == "ask"])
                x = ps[k]
                name = x.want
                nth = x.seen.get(name, 0)
                x.seen[name] = nth + 1
                verdict = "r"
                for f in procs[k].get("faults", ()):
                    if f[0] == name and f[1] == nth:
                        verdict = {"fail": "f", "kill": "k", "killafter": "a", "part": "p"}[f[2]]
                        x.fired.append(f[2] + "_" + name)
                trace.append((k, name, verdict))
                now = clock(name)
                self._clock(now)
                x.times.append(now)
                x.state, x.want = "run", None
                if verdict == "k":
                    self._kill(x)
                else:
                    os.write(x.go, verdict.encode())
                settle()
        finally:
            os.close(req)
            for x in ps:
                if x.state != "end":
                    try:
                        os.killpg(x.p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    x.p.wait()
                os.close(x.go)
                os.close(x.eof)
        for x, d in zip(ps, procs):
            o = self.ctl + "/opens" + x.id
            if d.get("openfail") and os.path.exists(o):
                if os.path.getsize(o) >= d["openfail"]:
                    x.fired.append("redirection")
                os.unlink(o)
        with open(self.ctl + "/log", "rb") as f:
            f.seek(logpos)
            lines = f.read().decode(errors="surrogateescape").splitlines()
        wb = self.world.encode()
        for x in ps:
            x.log = [l.replace(self.world, "@W@").split("\x01")[1:] for l in lines if l.split("\x01")[0] == x.id]
            with open("%s/out%s" % (self.ctl, x.id), "rb") as f:
                x.out = f.read().replace(wb, b"@W@")
            with open("%s/err%s" % (self.ctl, x.id), "rb") as f:
                x.err = f.read().replace(wb, b"@W@")
        return ps, trace

    def _kill(self, x):
        """the shell first, then the command it has got to; what reads from that command ends by itself (in a fixed order, unlike a signal to all at once)"""
        x.killed = True
        for _ in range(2000):   # a pipeline is complete before any of it is killed
            with open("/proc/%d/stat" % x.p.pid) as f:
                if f.read().rsplit(")", 1)[1].split()[0] not in "RD":
                    break
            time.sleep(0.001)
        for pid in (x.p.pid, x.pid):
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def scripts():
    """the script files of the working tree"""
    d = os.path.join(build.REPO, "scripts")
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            with open(p, "rb") as h:
                out["scripts/" + f] = h.read()
    return out


def attach(sim):
    if not hasattr(sim, "shell"):
        sim.shell = Shell(sim.base, sim.bins)
        if mp.parent_process() is not None:   # a worker that is ended early ends its scripts first
            signal.signal(signal.SIGTERM, lambda *a: sys.exit(1))
    return sim.shell


def record(sim, ps, tree, trace):
    """the hash a replay has to reproduce"""
    pid = re.compile(rb" +\d+ ")   # the shell names the numbers of the processes of a pipeline that was killed
    h = hashlib.sha1(repr([(x.rc, x.out, pid.sub(b" ", x.err), x.log) for x in ps]).encode())
    for k in sorted(tree):
        h.update(k.encode(errors="surrogateescape") + b"\0" + tree[k] + b"\0")
    t = hashlib.sha1(repr(trace).encode()).hexdigest()[:16]
    sim.hist.append((h.hexdigest()[:16], t, ""))
    s = sim.stats
    s["runs"] = s.get("runs", 0) + len(ps)
    s["ops"] = s.get("ops", 0) + len(trace)
    f = s.setdefault("fired", {})
    e = s.setdefault("ends", {})
    for x in ps:
        for k in x.fired:
            f[k] = f.get(k, 0) + 1
        k = "killed" if x.killed else "exit/%d" % x.rc
        e[k] = e.get(k, 0) + 1
