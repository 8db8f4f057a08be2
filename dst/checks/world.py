"""C08, C12, C13: clocks, memory, environment, and other processes."""
import calendar, re
from .. import build, ctx as C, fits, work
from ..runner import Check, reductions
from .faults import key_of, wrong_output, diff_norm

ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "XYZ+11", ":/nonexistent"]
LOCALES = ["C", "de_DE.UTF-8", "tr_TR.UTF-8", "C.UTF-8", "POSIX", "xx_YY"]
BASES = [0, 1, 86399, 951782399, 1700000000, 2147483640, 4102444799, 1709164799]


def world(r, locdir, jumps=True):
    """A seeded environment that must not matter."""
    p = {"set": {"seed": r.randrange(1 << 30)}, "faults": [], "env": {}, "variant": ""}
    s = p["set"]
    if r.random() < .5:
        s["clkbase"] = r.choice(BASES)
    if r.random() < .3:
        s["clkstep"] = r.choice([0, 1000, 2000000])
    if r.random() < .3:
        s["opstep"] = r.choice([1000, 300000, 5000000])
    if r.random() < .6:
        s["heapfill"] = r.randint(1, 6)
    if r.random() < .5:
        s["stackfill"] = r.randint(1, 3)
    if r.random() < .5:
        s["rdchunk"] = r.choice([15, 60, 95])
    if r.random() < .5:
        s["wrchunk"] = r.choice([15, 60, 95])
    if r.random() < .3:
        s["tty"] = 1
    if jumps:
        for _ in range(r.choice([0, 0, 1, 3])):
            p["faults"].append({"cls": "clock", "nth": r.randrange(12), "kind": "j", "arg": r.choice([-1, 1]) * r.choice([1, 3600, 10 ** 6, 4 * 10 ** 8])})
    if r.random() < .5:
        p["env"]["TZ"] = r.choice(ZONES)
    if r.random() < .5:
        l = r.choice(LOCALES)
        p["env"].update(LC_ALL=l, LANG=l, LC_NUMERIC=l)
        if locdir:
            p["env"]["LOCPATH"] = locdir
    if r.random() < .2:
        p["env"].update(COLUMNS=str(r.choice([1, 40, 500])), TERM=r.choice(["dumb", "xterm"]), NO_COLOR="1", USER="nobody", LOGNAME="x")
    p["variant"] = r.choice(["", "", "autopat", "autozero"])
    return p


class C08(Check):
    id = "C08"
    quick, thorough = 900, 30000
    variants = ("", "autopat", "autozero")
    how = "the same request in seeded environments (clock, memory, transfer sizes, console, locale, time zone)"
    rule = ("seeded request x environment (clock base, step, jumps; heap, stack and automatic-variable contents; read/write chunking; "
            "tty; TZ; locale); exit status and maps compared with the plain run; non-trivial: the environment differs and the run mapped "
            "something; distinct by log hash")

    def setup(self):
        super().setup()
        build.locales()

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r)
        if r.random() < .5:
            work.enrich(r, scn)
        if r.random() < .08:
            from .inputs import spoil
            scn = spoil(r, scn, r.choice(["keyword", "value", "option", "config", "noinput"]))
        cx.base(scn)
        loc = build.locales()
        for _ in range(8):
            p = world(r, loc)
            if scn.get("args"):
                p["args"] = scn["args"]
            yield {"scn": scn, "plan": p}

    def judge(self, cx, case):
        scn, p = case["scn"], dict(case["plan"])
        b = cx.base(scn, **({"args": scn["args"]} if scn.get("args") else {}))
        v = p.pop("variant", "")
        if "LOCPATH" in p.get("env", {}):
            p["env"] = dict(p["env"], LOCPATH=build.locales() or "/nonexistent")
        o = cx.run(scn, p, variant=v)
        if o.r.how() == "exit0":
            cx.nontrivial = key_of(o, p)
        if o.r.how() != b.o.r.how():
            return ("status", "the run ended with %s instead of %s in another environment: %s" % (o.r.how(), b.o.r.how(), o.r.out(2)[-200:].strip()))
        if o.r.how() == "exit0":
            for f in work.outputs(scn):
                w = wrong_output(b, o, f)
                if w:
                    return ("differs", "another environment changed the map: %s" % w)
        return None


class C12(Check):
    id = "C12"
    quick, thorough = 900, 30000
    how = "seeded interleavings of the system calls of 2-4 processes, with kills"
    rule = ("seeded batch split over 2-4 processes in one directory x seeded schedule (one operation at a time) x (no fault | kill of one "
            "process at any operation); non-trivial: schedule switches processes at least 4 times; distinct by schedule and log hashes")

    def cases(self, cx, r, i):
        n = r.choice([2, 2, 3, 4])
        scn = work.gen_scenario(r, nmaps=n, size=r.choice(["s", "s", "m", "m"]))
        scn["files"] = [[k] for k in range(n)]
        if r.random() < .4:
            # names that collide if only part of them is used
            for k, m in enumerate(scn["maps"]):
                old = m["out"]
                m["out"] = r.choice(["m.fits", "maps/m.fits", "m.fit", "m"]) if k == 0 else ["m.fits", "maps/m.fits", "m.fit", "m"][k]
                if old in scn["pre"]:
                    scn["pre"][m["out"]] = scn["pre"].pop(old)
            if len({m["out"] for m in scn["maps"]}) < n:
                scn["maps"][0]["out"] = "first.fits"
            scn["pre"] = {k: v for k, v in scn["pre"].items() if v not in ("symlink", "hardlink", "dangling")}
        solo = [cx.base(scn, args=["in%d.marc" % k]) for k in range(n)]
        for _ in range(6):
            plans = [{"args": ["in%d.marc" % k], "set": {"seed": r.randrange(1 << 30), "clkbase": 1700000000 + r.choice([0, 0, k])}} for k in range(n)]
            if r.random() < .4:
                k = r.randrange(n)
                plans[k]["set"]["killop"] = r.randrange(solo[k].o.r.ops + 1)
            yield {"scn": scn, "plans": plans, "seed": r.randrange(1 << 20)}

    def judge(self, cx, case):
        scn, plans = case["scn"], case["plans"]
        tr, rs, after, before = cx.multi(scn, plans, case.get("seed", 0), case.get("sched"))
        self._trace = tr
        if sum(1 for a, b in zip(tr, tr[1:]) if a != b) >= 4:
            cx.nontrivial = (tr, [r.hash for r in rs])
        outs = set()
        for k, (p, r) in enumerate(zip(plans, rs)):
            fi = int(p["args"][0][2:-5])
            b = cx.base(scn, args=p["args"])
            outs.update(scn["maps"][m]["out"] for m in scn["files"][fi])
            if "killop" in p["set"] and r.simkill:
                continue
            if r.how() != b.o.r.how():
                return ("status", "process %d ended with %s instead of %s next to others: %s" % (k, r.how(), b.o.r.how(), r.out(2)[-200:].strip()))
            if r.how() != "exit0":
                continue
            for m in scn["files"][fi]:
                f = scn["maps"][m]["out"]
                o = C.Outcome()
                o.after = after
                w = wrong_output(b, o, f)
                if w:
                    return ("disturbed", "next to other processes, process %d left %s" % (k, w))
        for f in sorted(set(before) | set(after)):
            if f not in outs and before.get(f) != after.get(f):
                if any(r.simkill for r in rs) and f not in before:
                    continue
                return ("other-file", "%s was changed by concurrent runs" % f)
        return None

    def reductions(self, case):
        if not case.get("sched"):
            yield dict(case, sched=getattr(self, "_trace", "")[:16000])
        else:
            s = case["sched"]
            seg = re.findall(r"(0+|1+|2+|3+)", s)
            for cut in (len(seg) // 2, len(seg) - 1):
                if 0 < cut < len(seg):
                    yield dict(case, sched="".join(seg[:cut]))
            for k in range(min(len(seg) - 1, 40)):
                t = seg[:k] + [seg[k + 1], seg[k]] + seg[k + 2:]
                t = re.findall(r"(0+|1+|2+|3+)", "".join(t))
                if len(t) < len(seg):
                    yield dict(case, sched="".join(t))
        n = len(case["plans"])
        if n > 1:
            for k in range(n):
                yield dict({x: y for x, y in case.items() if x != "sched"}, plans=case["plans"][:k] + case["plans"][k + 1:])
        for k in range(n):
            if "killop" in case["plans"][k]["set"]:
                ps = [dict(p, set=dict(p["set"])) for p in case["plans"]]
                del ps[k]["set"]["killop"]
                yield dict(case, plans=ps)


class C13(Check):
    id = "C13"
    quick, thorough = 900, 30000
    how = "seeded clock bases, jumps and slow devices against console times and DATE cards"
    rule = ("seeded workload x clock plan (base, jumps forwards and backwards at any clock reading, slow operations, time zone); reported "
            "times bounded by the simulated run time, DATE equal to a reading of the simulated UTC clock; non-trivial: a jump fired or the "
            "zone is not UTC; distinct by log hash")

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r, size=r.choice(["s", "s", "m"]))
        for m in scn["maps"]:
            if r.random() < .5 and m.get("grid") in (None, "NO"):
                m["grid"] = {"both": 10}
        b = cx.good(scn)
        n = max(1, b.o.r.cls["clock"])
        for _ in range(8):
            p = {"set": {"seed": r.randrange(1 << 30), "clkbase": r.choice(BASES[3:]), "clkstep": r.choice([0, 50, 100000, 3000000]),
                         "opstep": r.choice([0, 0, 2000, 1000000, 90000000])}, "faults": [], "env": {"TZ": r.choice(ZONES)}}
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                p["faults"].append({"cls": "clock", "nth": r.randrange(n), "kind": "j",
                                    "arg": r.choice([-1, 1]) * r.choice([1, 900, 60000, 3600000, 86400000])})
            yield {"scn": scn, "plan": p}

    def judge(self, cx, case):
        scn = case["scn"]
        cx.good(scn)
        o = cx.run(scn, case["plan"])
        if any(l.startswith("jump") for l in o.r.lines()) or case["plan"]["env"].get("TZ") != "UTC":
            cx.nontrivial = key_of(o, case["plan"])
        took = o.r.simus / 1e6
        tot = 0.0
        for l in o.r.out(1).split("\n"):
            m = re.search(r"Completed mapping (\w+) in (\S+) seconds", l)
            if not m:
                continue
            try:
                s = float(m.group(2))
            except ValueError:
                return ("unreadable", "reported time is not a number: %s" % l)
            if not s >= 0:
                return ("negative", "reported a negative time: '%s'" % l.strip())
            tot += s
            if not s <= took * 1.00001 + 1e-5:
                return ("too-long", "reported '%s' but the whole run took %.6f s" % (l.strip(), took))
        if tot > took * 1.00001 + 1e-4:
            return ("too-long", "reported times add up to %.6f s but the whole run took %.6f s" % (tot, took))
        if o.r.how() == "exit0":
            read = set()
            for l in o.r.lines():
                q = l.split()
                if l.startswith("clk ") and q[1] in ("0", "5"):
                    read.add(int(q[2]) // 1000000)
            for f in work.outputs(scn):
                for k, h in enumerate(fits.parse(o.file(f) or b"")):
                    d = h.kv.get("DATE")
                    try:
                        t = calendar.timegm(__import__("time").strptime(str(d), "%Y-%m-%dT%H:%M:%S"))
                    except ValueError:
                        return ("date", "%s HDU %d: DATE is %r" % (f, k, d))
                    if t not in read:
                        return ("date", "%s HDU %d: DATE is %s (%d), which the UTC clock never showed during the run (%d..%d)" % (
                            f, k, d, t, min(read or [0]), max(read or [0])))
        return None


CHECKS = [C08, C12, C13]
