"""C11, C14: applications of the library, and what a run says about its progress."""
import copy, hashlib, re, subprocess
from .. import build, ctx as C, work
from ..runner import Check, reductions

TYPES = "bsfd"


class LibZygote:
    def __init__(self):
        self.p = subprocess.Popen([build.build("libsim")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, job):
        t = ["world %d" % job["world"]]
        t += ["task %d %d %s %d %d %d %d %d" % (x["proj"], x["img"], x["type"], x["samples"], x["lines"], x["planes"],
                                               x.get("throw", -1), x.get("oom", -1)) for x in job["tasks"]]
        t.append("threads %d" % (1 if job.get("sched") else 0))
        if job.get("sched"):
            t.append("sched %d %d %d" % tuple(job["sched"]))
        self.p.stdin.write(("\n".join(t) + "\nrun\n").encode())
        self.p.stdin.flush()
        h = self.p.stdout.readline().split()
        assert h and h[0] == b"L", "library simulator died"
        return LibResult(int(h[1]), int(h[2]), self.p.stdout.read(int(h[3])).decode())

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
        self.p.stdout.close()


class LibResult:
    def __init__(self, exit_, sig, text):
        self.exit, self.sig, self.text = exit_, sig, text
        self.hash = hashlib.sha256((repr((exit_, sig)) + text).encode()).hexdigest()[:16]
        self.simus, self.log = 0, ""
        self.fired = {}
        self.simkill = self.oplim = False
        self.tasks, self.switches, self.steps, self.sched = [], 0, 0, ""
        for l in text.split("\n"):
            if l.startswith("t "):
                self.tasks.append([])
            elif l.startswith("s "):
                self.steps, self.switches = [int(x) for x in l.split()[1:]]
            elif l.startswith("h "):
                self.sched = l[2:]
            elif l:
                self.tasks[-1].append(l)

    def how(self):
        return "signal%d" % self.sig if self.sig else "exit%d" % self.exit

    def maps(self, k):
        """[(plane, completed, content hash)], then the grid's hash."""
        return [tuple(l.split()[1:4]) for l in self.tasks[k] if l.startswith("e ")] + [l for l in self.tasks[k] if l.startswith("g ")]


class LibCtx(C.Ctx):
    lib = con = None

    def conrun(self, steps):
        if self.con is None:
            self.con = ConZygote()
        r = self.con.run(steps)
        self.account(r)
        return r

    def librun(self, job):
        if self.lib is None:
            self.lib = LibZygote()
        r = self.lib.run(job)
        r.fired = {}
        self.account(r)
        for k in ("throw", "oom"):
            n = sum(1 for t in job["tasks"] if t.get(k, -1) >= 0)
            if n:
                self.fired["planned " + k] = self.fired.get("planned " + k, 0) + n
        if r.switches:
            self.fired["thread switches"] = self.fired.get("thread switches", 0) + r.switches
        return r

    def close(self):
        for z in (self.lib, self.con):
            if z:
                z.close()
        self.lib = self.con = None
        super().close()


class ConZygote:
    """The program's progress console, fed any history of notifications."""
    def __init__(self):
        self.p = subprocess.Popen([build.build("consim")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, steps):
        self.p.stdin.write(("\n".join(" ".join(map(str, s)) for s in steps) + "\nrun\n").encode())
        self.p.stdin.flush()
        h = self.p.stdout.readline().split()
        assert h and h[0] == b"L", "console simulator died"
        return ConResult(int(h[1]), int(h[2]), self.p.stdout.read(int(h[3])).decode())

    close = LibZygote.close


class ConResult:
    simkill = oplim = False
    simus, log = 0, ""

    def __init__(self, exit_, sig, text):
        self.exit, self.sig, self.fired = exit_, sig, {}
        self.hash = hashlib.sha256((repr((exit_, sig)) + text).encode()).hexdigest()[:16]
        self.shown = []
        while text:
            n, _, rest = text.partition(" ")
            self.shown.append(rest[:int(n)])
            text = rest[int(n) + 1:]

    how = LibResult.how


LIBCOMP = {"real": ["every source of /repo/lib/marc, built with -fsanitize-coverage=trace-pc", "libstdc++, glibc, kernel threads"],
           "stub": ["thread scheduling (one thread at a time, switched at seeded basic blocks)", "application: sources, observers",
                    "operator new (planned failures)", "mutexes and static-initialisation guards (yield to the scheduler)"]}


def gen_task(r, big=False):
    proj = r.randrange(8)
    s, l = (r.randint(1, 16), r.randint(1, 12)) if not big else (r.randint(8, 34), r.randint(8, 26))
    if proj % 4 == 1:
        l = min(l, 2 * s)
    return {"proj": proj, "img": r.randrange(14), "type": r.choice(TYPES), "samples": s, "lines": l, "planes": r.choice([1, 1, 2, 3])}


def librace_reductions(case):
    def edit(fn):
        c = copy.deepcopy(case)
        fn(c["job"])
        return c
    j = case["job"]
    for k in range(len(j["tasks"])):
        if len(j["tasks"]) > 1:
            yield edit(lambda x: x["tasks"].pop(k))
    if j.get("sched"):
        sw = j["sched"][2]
        for n in ([1, 2, 5, 20, 100] if sw < 0 else [sw // 2, sw - 1]):
            if n != sw and n >= 0:
                yield edit(lambda x: x["sched"].__setitem__(2, n))
        if j["sched"][1] < 5000:
            yield edit(lambda x: x["sched"].__setitem__(1, j["sched"][1] * 4))
    for k, t in enumerate(j["tasks"]):
        if t["planes"] > 1:
            yield edit(lambda x: x["tasks"][k].update(planes=t["planes"] - 1))
        for d in ("samples", "lines"):
            if t[d] > 1:
                yield edit(lambda x: x["tasks"][k].update({d: t[d] // 2}))
        for f in ("throw", "oom"):
            if t.get(f, -1) >= 0:
                yield edit(lambda x: x["tasks"][k].pop(f))
                if t[f]:
                    yield edit(lambda x: x["tasks"][k].update({f: t[f] // 2}))


class C11(Check):
    id = "C11"
    quick, thorough = 600, 20000
    components = LIBCOMP
    how = "seeded interleavings of mapping threads at basic-block granularity over shared projection, body and image objects"
    rule = ("seeded worlds (2 bodies, 8 projections, 14 images) x 2-4 mapping threads x seeded preemption at basic blocks x optional failure of one "
            "thread (source error, failing allocation); every map and grid compared with the same one made alone; non-trivial: at least 4 "
            "switches; distinct by schedule and results")

    def setup(self):
        build.build("libsim")

    def make_ctx(self, n):
        return LibCtx(n)

    def brief(self, case):
        return case

    def reductions(self, case):
        return librace_reductions(case)

    def cases(self, cx, r, i):
        w = r.randrange(1 << 30)
        for _ in range(4):
            ts = [gen_task(r) for _ in range(r.choice([2, 2, 3, 4]))]
            if r.random() < .5:
                # the same objects in every thread
                for t in ts[1:]:
                    t["proj"], t["img"] = ts[0]["proj"], ts[0]["img"]
                    if t["proj"] % 4 == 1:
                        t["lines"] = min(t["lines"], 2 * t["samples"])
            if r.random() < .3:
                r.choice(ts)[r.choice(["throw", "oom"])] = r.randrange(60) if r.random() < .7 else r.randrange(4)
            yield {"job": {"world": w, "tasks": ts, "sched": [r.randrange(1, 1 << 30), r.choice([3, 10, 30, 100, 400]), -1]}}

    def judge(self, cx, case):
        j = case["job"]
        want = []
        for t in j["tasks"]:
            s = cx.librun({"world": j["world"], "tasks": [dict(t, throw=-1, oom=-1)]})
            if s.how() != "exit0":
                raise C.Skip("task alone: " + s.how())
            want.append(s.maps(0))
        o = cx.librun(j)
        if o.how() != "exit0":
            return ("status", "mapping in several threads ended with %s" % o.how())
        if o.switches >= 4:
            cx.nontrivial = (o.sched, o.hash)
        for k, t in enumerate(j["tasks"]):
            for p, (a, b) in enumerate(zip(o.maps(k), want[k])):
                failed = isinstance(a, tuple) and a[1] == "0"
                if failed and (t.get("throw", -1) >= 0 or t.get("oom", -1) >= 0):
                    continue
                if a != b:
                    return ("differs", "thread %d, item %d: %s made while other threads map from the same objects, %s made alone" % (k, p, a, b))
        return None


# -------------------------------------------------------------------- progress
CANON = "".join("100%\n" if p == 100 else str(p) if p % 20 == 0 else "." for p in range(2, 101, 2))


def progress_violation(lines, size):
    """Check one observer's history: p (plane starts), n (size count reads), r (reset), e (plane ended)."""
    last, failed_before, dirty, full_at = 0, False, False, None
    for l in lines:
        f = l.split()
        if f[0] == "p":
            plane, last, fresh, full_at = int(f[1]), 0, not dirty, None
            ns = 0
        elif f[0] == "n":
            s, c, reads = int(f[1]), int(f[2]), int(f[3])
            if not fresh:
                return ("stale", "plane %d after a failed one: observers were not told to start over" % plane)
            if s != size:
                return ("size", "plane %d: size reported as %d, the map has %d elements" % (plane, s, size))
            if c > size:
                return ("exceeds", "plane %d: %d of %d elements reported" % (plane, c, size))
            if c < last:
                return ("decreases", "plane %d: progress went from %d to %d" % (plane, last, c))
            if c > reads and c != size:
                return ("ahead", "plane %d: %d elements reported after %d were plotted" % (plane, c, reads))
            if c == size and full_at is None:
                full_at = reads
            last, dirty, ns = c, True, ns + 1
        elif f[0] == "r":
            fresh, dirty = True, False
        elif f[0] == "e":
            ok, reads = f[2] == "1", int(f[5])
            if ok and last != size:
                return ("short", "plane %d is complete, but progress stopped at %d of %d" % (plane, last, size))
            if full_at is not None and reads > full_at:
                return ("early", "plane %d: completion reported after %d of %d elements were plotted" % (plane, full_at, reads))
            if not ok and full_at is not None:
                return ("early", "plane %d failed, but completion was reported" % plane)
    return None


def gen_console(r):
    """Histories of notifications of up to 3 planes, some of which fail, for maps of any size."""
    steps = []
    for _ in range(r.choice([1, 1, 2, 3])):
        size = r.choice([r.randint(1, 300), r.randint(1, 10 ** 6), 1 << r.randint(0, 45), (1 << r.randint(10, 45)) + r.randint(-3, 3),
                         r.randint(1, 1 << r.randint(1, 45)), r.randint(1, 100) * (1 << r.randint(14, 36))])
        fail = r.random() < .25
        if size <= 200000 and r.random() < .3:
            k = r.randrange(size)
            while k and r.random() < .7:
                n = r.randint(0, k)
                steps.append(["p", size, n])
                k -= n
            steps.append(["p", size, k])
            steps.append(["d", size, 0])
            continue
        c, cs = 0, set()
        for _ in range(r.choice([1, 3, 10, 60])):
            b = r.randint(0, 100) * size // 100
            cs.add(min(size, max(1, r.choice([r.randint(1, size), b, b + 1, b - 1, size, size - 1]))))
        cs = sorted(cs)
        if fail:
            cs = [x for x in cs if x < size]
        elif cs[-1] != size:
            cs.append(size)
        steps += [["n", size, c] for c in cs]
        steps.append(["r", 0, 0])
    return steps


def console_violation(steps, shown):
    text = ""
    if len(shown) < len(steps):
        return ("console", "the console ended after %d of %d notifications" % (len(shown), len(steps)))
    count = 0
    for (op, size, n), t in zip(steps, shown):
        if op == "r":
            text, count = "", 0
            if t:
                return ("console", "reset shows %r" % t[:60])
            continue
        count = n if op == "n" else size if op == "d" else count + n
        text += t
        if not CANON.startswith(text):
            return ("console", "%d of %d elements plotted: progress shown as %r" % (count, size, text[-90:]))
        # entries of CANON stand for 2% each
        pct, rest = 0, text
        while rest:
            pct += 2
            rest = rest[len("100%\n" if pct == 100 else str(pct) if pct % 20 == 0 else "."):]
        if pct * size > 100 * count * (1 + 1e-9):
            return ("ahead", "%d of %d elements plotted: progress shown as %d%%" % (count, size, pct))
        if count == size and text != CANON:
            return ("short", "all %d elements plotted: progress shown as %r" % (size, text[-90:]))
        if op == "d":
            text, count = "", 0
    return None


class C14(Check):
    id = "C14"
    consim = True
    quick, thorough = 4000, 60000
    components = {"real": LIBCOMP["real"] + Check.components["real"], "stub": LIBCOMP["stub"] + Check.components["stub"]}
    how = "seeded mapping with failing sources and allocations, observer histories and console output checked"
    rule = ("library: seeded projection, size, type, 1-4 planes with one failing (source error or failing allocation at any point), every "
            "notification checked against what was plotted; program: console progress of every plane under console chunking, tty, failing "
            "maps; progress console alone: seeded notification histories for sizes up to 2^45; non-trivial: a plane failed, or several planes; distinct by history hash")

    def setup(self):
        super().setup()
        build.build("libsim")
        try:
            build.build("consim")
        except build.BuildError:
            self.consim = False     # the program's console is organised otherwise: still seen through the program's runs

    def make_ctx(self, n):
        return LibCtx(n)

    def brief(self, case):
        return case if "job" in case or "console" in case else super().brief(case)

    def reductions(self, case):
        if "console" in case:
            st = case["console"]
            return ({"console": st[:k] + st[k + 1:]} for k in range(len(st)) if len(st) > 1)
        return librace_reductions(case) if "job" in case else reductions(case)

    def cases(self, cx, r, i):
        for _ in range(3 if self.consim else 0):
            yield {"console": gen_console(r)}
        if i % 16 == 0:
            # larger maps: counts beyond 16 bits
            t = dict(gen_task(r), samples=r.randint(256, 330), lines=r.randint(256, 330), planes=1)
            t["img"] = r.choice([5, 6])
            yield {"job": {"world": r.randrange(1 << 30), "tasks": [t]}}
        for _ in range(5):
            t = gen_task(r, r.random() < .4)
            t["planes"] = r.choice([1, 2, 3, 4])
            n = t["samples"] * t["lines"]
            k = r.random()
            if k < .5:
                t["throw"] = r.choice([0, 1, n - 1, n, 2 * n - 1, r.randrange(n * t["planes"])])
            elif k < .8:
                t["oom"] = r.randrange(6) if r.random() < .5 else r.randrange(200)
            yield {"job": {"world": r.randrange(1 << 30), "tasks": [t]}}
        if i % 3 == 0:
            scn = work.gen_scenario(r, size=r.choice(["s", "s", "m"]))
            m = r.choice(scn["maps"])
            if r.random() < .3:
                m["samples"], m["lines"] = r.choice([(1, 1), (2, 1), (7, 3), (10, 10), (20, 10), (33, 3)])
                if m["proj"]["type"] == "MERCATOR":
                    m["lines"] = min(m["lines"], 2 * m["samples"])
            for _ in range(3):
                p = {"set": {"seed": r.randrange(1 << 30), "tty": r.randrange(2)}}
                if r.random() < .5:
                    b = cx.good(scn)
                    out = r.choice(scn["maps"])["out"]
                    ws = b.nth("write", lambda q, l: q == out)
                    if ws:
                        p["faults"] = [{"cls": "write", "nth": r.choice(ws), "kind": "e", "err": C.ERR["ENOSPC"], "count": r.choice([1, 3])}]
                yield {"scn": scn, "plan": p}

    def judge(self, cx, case):
        if "console" in case:
            o = cx.conrun(case["console"])
            if o.how() != "exit0":
                return ("console", "notifying the console ended with %s" % o.how())
            cx.nontrivial = (o.hash, len(case["console"]))
            return console_violation(case["console"], o.shown)
        if "job" in case:
            o = cx.librun(case["job"])
            t = case["job"]["tasks"][0]
            if o.how() != "exit0":
                return ("status", "mapping %s ended with %s" % ("after a failed plane" if "throw" in t or "oom" in t else "", o.how()))
            if t["planes"] > 1 or any(l.startswith("e ") and l.split()[2] == "0" for l in o.tasks[0]):
                cx.nontrivial = o.hash
            return progress_violation(o.tasks[0], t["samples"] * t["lines"])
        scn = case["scn"]
        cx.good(scn)
        o = cx.run(scn, case["plan"])
        if o.r.how().startswith("signal"):
            raise C.Skip("crash: another property's business")
        # log messages end lines of their own, wherever they start
        text = re.sub(r"\[marc\]\[\w+\] [^\n]*\n", "", o.r.out(1))
        cx.nontrivial = o.r.hash
        maps = text.split("\nCreating map: ")[1:]
        if len(maps) != len(scn["maps"]):
            raise C.Skip("not every map was attempted")
        for m, t in zip(scn["maps"], maps):
            n = len(m["planes"])
            parts = re.split(r"^Plane +(\d+) / (\d+): ", t, flags=re.M)
            done = "Completed mapping data" in t
            seen = []
            for k in range(1, len(parts), 3):
                a, b, rest = int(parts[k]), int(parts[k + 1]), parts[k + 2]
                seen.append(a)
                last = k + 3 >= len(parts)
                if b != n:
                    return ("console", "%s: plane %d of %d announced, the map has %d" % (m["out"], a, b, n))
                if not rest.startswith(CANON) and not (last and not done and CANON.startswith(rest)):
                    return ("console", "%s: progress of plane %d shown as %r" % (m["out"], a, rest[:90]))
            if seen != list(range(1, len(seen) + 1)) or done and len(seen) != n:
                return ("console", "%s: planes announced: %s of %d" % (m["out"], seen, n))
        return None


CHECKS = [C11, C14]
