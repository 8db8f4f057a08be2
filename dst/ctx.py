"""One worker's view of the simulator: scratch directory, fork servers, baselines."""
import json, os, shutil
from . import build, core, fits, work


class Skip(Exception):
    """The case says nothing about the property (e.g. the workload is not valid)."""


class Outcome:
    """One simulated execution and the disk it left behind."""
    __slots__ = ("r", "before", "after")

    def file(self, p):
        x = self.after.get(p)
        return fits.unpacked(p, x[1]) if x and x[0] == "file" else None


class Ctx:
    def __init__(self, n=0):
        root = core.scratch_root()
        self.dir = os.path.join(root, "mdst%010d%04d" % (os.getpid(), n))
        self.z = {}
        self.cache = {}
        self.runs = 0
        self.simus = 0
        self.fired = {}
        self.hashes = set()
        self.last_hash = ""

    def zyg(self, variant=""):
        if variant not in self.z:
            self.z[variant] = core.Zygote(build.build("marcsim", variant))
        return self.z[variant]

    def close(self):
        for z in self.z.values():
            z.close()
        self.z = {}
        shutil.rmtree(self.dir, ignore_errors=True)

    def fresh(self, rendered, sub="d"):
        d = os.path.join(self.dir, sub)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        work.place(rendered, d)
        return d

    def account(self, r, plan=None):
        self.runs += 1
        self.simus += r.simus
        self.hashes.add(r.hash)
        self.last_hash = r.hash
        for c, n in r.fired.items():
            if n:
                kinds = sorted({f["kind"] + ":" + os.strerror(f.get("err", 0)) if f.get("err") else f["kind"]
                                for f in (plan or {}).get("faults", []) if f["cls"] == c}) or ["quota/limit"]
                k = c + " " + ",".join(kinds)
                self.fired[k] = self.fired.get(k, 0) + 1
        if r.simkill and not r.oplim:
            self.fired["kill"] = self.fired.get("kill", 0) + 1
        for k in ("rdchunk", "wrchunk", "heapfill", "stackfill"):
            if (plan or {}).get("set", {}).get(k):
                self.fired["env " + k] = self.fired.get("env " + k, 0) + 1
        for x in (plan or {}).get("ext", []):
            if ("ext " in r.log):
                self.fired["external " + x["kind"]] = self.fired.get("external " + x["kind"], 0) + 1

    def run_in(self, d, scn, plan=None, args=None, variant="", snap=True, env=None):
        plan = plan or {}
        o = Outcome()
        o.before = work.snapshot(d) if snap else None
        j = work.job(scn, d, args=args if args is not None else plan.get("args"),
                     set=dict({"tty": 0}, **plan.get("set", {})),
                     faults=plan.get("faults", []), ext=plan.get("ext", []),
                     env=env or plan.get("env", {}))
        o.r = self.zyg(variant).run(j)
        self.account(o.r, plan)
        o.after = work.snapshot(d)
        return o

    def run(self, scn, plan=None, **kw):
        return self.run_in(self.fresh(work.render(scn)), scn, plan, **kw)

    def multi(self, scn, plans, seed=0, sched=None):
        """Several processes over the same files; (schedule trace, results, files after, files before)."""
        d = self.fresh(work.render(scn))
        before = work.snapshot(d)
        jobs = [work.job(scn, d, args=p["args"], set=dict({"tty": 0}, **p.get("set", {})), faults=p.get("faults", []),
                         ext=[], env=p.get("env", {})) for p in plans]
        tr, rs = self.zyg().multi(jobs, seed, sched)
        for r, p in zip(rs, plans):
            self.account(r, p)
        self.last_hash = "/".join(r.hash for r in rs)
        return tr, rs, work.snapshot(d), before

    def base(self, scn, **plan):
        """The fault-free execution of a workload, computed once."""
        key = json.dumps([scn, plan], sort_keys=True)
        b = self.cache.get(key)
        if b is None:
            h = self.last_hash
            o = self.run(scn, plan)
            self.last_hash = h
            b = Base(scn, o)
            if len(self.cache) > 40:
                self.cache.clear()
            self.cache[key] = b
        return b

    def good(self, scn, **plan):
        b = self.base(scn, **plan)
        if b.o.r.how() != "exit0":
            raise Skip("workload does not succeed without faults: %s" % b.o.r.how())
        return b


class Base:
    def __init__(self, scn, o):
        self.o = o
        self.norm = {p: fits.norm(o.file(p)) if o.file(p) is not None else None for p in work.outputs(scn)}
        self.ops = None

    def trace(self):
        """[(class, path, log line)] in order; the index within a class is the fault's nth."""
        if self.ops is None:
            self.ops = []
            m = {"ftruncate": "trunc", "fallocate": "trunc", "truncate": "trunc", "rmdir": "unlink", "link": "rename",
                 "symlink": "rename", "mkdir": "rename", "chmod": "rename"}
            for l in self.o.r.lines():
                if l.startswith("op "):
                    p = l.split()
                    if p[1] == "mmap":
                        continue
                    self.ops.append((m.get(p[1], p[1]), p[2], l))
                elif l.startswith("con "):
                    self.ops.append(("con", l.split()[1], l))
        return self.ops

    def nth(self, cls, pred=lambda path, line: True):
        i, out = 0, []
        for c, p, l in self.trace():
            if c == cls:
                if pred(p, l):
                    out.append(i)
                i += 1
        return out


ERR = {n: getattr(__import__("errno"), n) for n in
       ("EIO", "ENOSPC", "EINTR", "EACCES", "EMFILE", "ENOMEM", "EROFS", "EDQUOT", "EPIPE", "ENOENT", "EBUSY", "EINVAL", "EFBIG")}
ERRS = {"open": ["EACCES", "EIO", "EMFILE", "ENOSPC", "EROFS"], "read": ["EIO", "EIO", "EINTR"],
        "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR"], "close": ["EIO", "ENOSPC", "EDQUOT"],
        "unlink": ["EACCES", "EBUSY", "EIO", "EROFS"], "seek": ["EIO", "EINVAL"], "trunc": ["EIO", "ENOSPC"],
        "stat": ["EIO", "EACCES"], "con": ["EPIPE", "EIO", "ENOSPC"], "rename": ["EIO", "EACCES", "ENOSPC"],
        "sync": ["EIO", "ENOSPC"], "alloc": ["ENOMEM"], "malloc": ["ENOMEM"]}


def pick_fault(r, b, classes, outs):
    """One planned fault that will meet the workload where it has work in flight."""
    cls = r.choice(classes)
    n = b.o.r.cls[cls]
    if n == 0:
        return None
    f = {"cls": cls, "count": r.choice([1, 1, 1, 2, 5, -1])}
    if cls in ("alloc", "malloc"):
        f["nth"] = r.randrange(n)
    else:
        mine = b.nth(cls, lambda p, l: p in outs)
        f["nth"] = r.choice(mine) if mine and r.random() < .7 else r.randrange(n)
    f["kind"] = "e"
    f["err"] = ERR[r.choice(ERRS[cls])]
    if cls == "read" and r.random() < .3:
        f.update(kind="s", err=0, arg=r.choice([1, 7, 100, 2880, 3000]))
    elif cls == "write" and r.random() < .5:
        f.update(kind=r.choice("st"), arg=r.choice([1, 80, 512, 2880, 4096, 5000]))
    elif cls == "close" and r.random() < .6:
        f["arg"] = r.choice([1, 2880, 4096, 100000])
    if f["kind"] == "s" and f["count"] < 0:
        f["count"] = 9  # a device that accepts one byte at a time forever is merely slow
    if f["err"] == ERR["EINTR"]:
        f["count"] = 1
    return f


def pick_plan(r, b, scn, classes=None, kill=.0, quota=.2, nmax=2):
    """A fault plan for one execution."""
    classes = classes or ["open", "read", "write", "write", "write", "close", "close", "unlink", "alloc", "malloc",
                          "con", "stat", "trunc"]
    plan = {"faults": [], "set": {"seed": r.randrange(1 << 30)}}
    outs = set(work.outputs(scn))
    if r.random() < quota:
        tot = sum(len(b.o.file(p) or b"") for p in outs)
        plan["set"]["quota"] = r.randrange(0, tot + 1)
    if not plan["set"].get("quota") or r.random() < .3:
        for _ in range(r.randint(1, nmax)):
            f = pick_fault(r, b, classes, outs)
            if f:
                plan["faults"].append(f)
    if r.random() < kill:
        if r.random() < .5:
            plan["set"]["killop"] = r.randrange(b.o.r.ops + 1)
        else:
            ws = b.nth(r.choice(["write", "write", "close", "con", "unlink"]), lambda p, l: True)
            cls = r.choice([c for c in ("write", "close", "con", "unlink") if b.o.r.cls[c]] or ["open"])
            plan["faults"].append({"cls": cls, "nth": r.randrange(b.o.r.cls[cls] or 1), "kind": r.choice("kK")})
    if r.random() < .2:
        plan["set"]["rdchunk"] = r.choice([20, 70])
    if r.random() < .2:
        plan["set"]["wrchunk"] = r.choice([20, 70])
    if r.random() < .2:
        plan["set"]["tty"] = 1
    if r.random() < .2:
        plan["set"]["heapfill"] = r.randint(1, 5)
    return plan
