"""Driver side of the simulator: jobs, results, the fork server."""
import os, subprocess, shutil, tempfile, random, hashlib, json, time, errno as _errno

CLS = ["open", "read", "write", "close", "unlink", "seek", "trunc", "stat", "con",
       "rename", "sync", "alloc", "clock", "malloc"]


def scratch_root():
    for d in ("/dev/shm", os.environ.get("TMPDIR", "/tmp"), "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "."


class Result:
    __slots__ = ("exit", "sig", "log", "blob", "ops", "faults", "canary", "escapes", "simkill",
                 "oplim", "overlog", "allocs", "simus", "hash", "cls", "fired")

    def out(self, fd=None, upto=None):
        """Console output; fd 1, 2 or both; upto: only the first so many log lines."""
        b = []
        for l in self.lines()[:upto]:
            if l.startswith("con "):
                p = l.split()
                if p[2] != "-1" and (fd is None or int(p[1]) == fd):
                    o, n = int(p[2]), int(p[3])
                    b.append(self.blob[o:o + n])
        return b"".join(b).decode(errors="replace")

    def lines(self):
        return self.log.split("\n")

    @property
    def hang(self):
        return self.oplim or self.sig in (24, 9) and not self.simkill

    def how(self):
        if self.oplim:
            return "oplimit"
        if self.simkill:
            return "killed"
        if self.sig == 24 or self.sig == 9:
            return "hang"
        if self.sig:
            return "signal%d" % self.sig
        return "exit%d" % self.exit


class Zygote:
    def __init__(self, exe):
        self.exe = exe
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env={"PATH": "/usr/bin:/bin", "LD_BIND_NOW": "1"})

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
        self.p.stdout.close()

    def _rd(self):
        h = self.p.stdout.readline().split()
        assert h and h[0] == b"R", "simulator died: %r" % (h,)
        r = Result()
        (r.exit, r.sig, ln, bn, r.ops, r.faults, r.canary, r.escapes, r.simkill, r.oplim,
         r.overlog, r.allocs, r.simus) = [int(x) for x in h[1:14]]
        r.hash = h[14].decode()
        r.cls, r.fired = {}, {}
        for c, t in zip(CLS, h[15:]):
            a, b = t.split(b":")
            r.cls[c], r.fired[c] = int(a), int(b)
        r.log = self.p.stdout.read(ln).decode(errors="replace")
        r.blob = self.p.stdout.read(bn)
        if r.sig == 0 and r.exit in (97, 98) and not r.log:
            raise RuntimeError("simulator child failed to start (%d)" % r.exit)
        return r

    @staticmethod
    def text(job, end):
        t = ["dir " + job["dir"]]
        t += ["arg " + a for a in job.get("args", [])]
        t += ["env %s=%s" % kv for kv in sorted(job.get("env", {}).items())]
        t += ["set %s %d" % kv for kv in sorted(job.get("set", {}).items())]
        for f in job.get("faults", []):
            t.append("fault %s %d %s %d %d %d" % (f["cls"], f["nth"], f["kind"], f.get("err", 0),
                                                  f.get("arg", 0), f.get("count", 1)))
        for x in job.get("ext", []):
            t.append("ext %d %s %s %s" % (x["op"], x["kind"], x["a"], x.get("b", "-")))
        t.append(end)
        return "\n".join(t) + "\n"

    def run(self, job):
        self.p.stdin.write(self.text(job, "run").encode())
        self.p.stdin.flush()
        return self._rd()

    def multi(self, jobs, seed=0, sched=None):
        t = "".join(self.text(j, "next") for j in jobs)
        t += ("sched %s\n" % sched) if sched else ("schedseed %d\n" % seed)
        t += "multi\n"
        self.p.stdin.write(t.encode())
        self.p.stdin.flush()
        h = self.p.stdout.readline().split()
        assert h[0] == b"M"
        tr = self.p.stdout.read(int(h[2])).decode()
        return tr, [self._rd() for _ in range(int(h[1]))]


def rng_for(*key):
    return random.Random(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], "big"))
