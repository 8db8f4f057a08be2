"""C01-C05, C18: what a run may leave behind when the world misbehaves."""
from .. import ctx as C, fits, work
from ..runner import Check


def key_of(o, plan):
    return (o.r.how(), sorted((c, n) for c, n in o.r.fired.items() if n), o.r.hash)


def diff_norm(a, b):
    """Where two normalised files differ, for the message."""
    if a is None:
        return "the file is missing"
    if len(a[0]) != len(b[0]):
        return "%d HDUs instead of %d" % (len(a[0]), len(b[0]))
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        if x[0] != y[0]:
            return "HDU %d header differs: %s" % (i, sorted(set(x[0]) ^ set(y[0]))[:4])
        if x[2] != y[2]:
            return "HDU %d is truncated" % i
        if x[1] != y[1]:
            n = sum(1 for p, q in zip(x[1], y[1]) if p != q)
            return "HDU %d data differs in %d bytes" % (i, n)
    return "trailing bytes: %d instead of %d" % (a[1], b[1])


def wrong_output(b, o, p):
    """None, or why output p is not what the fault-free run wrote."""
    f = o.file(p)
    if f is None:
        return "%s is missing" % p
    n = fits.norm(f)
    if n != b.norm[p]:
        return "%s: %s" % (p, diff_norm(n, b.norm[p]))
    for i, (h, g) in enumerate(zip(fits.parse(f), fits.parse(b.o.file(p)))):
        if g.certified and not h.certified:
            return "%s: HDU %d has no valid checksum" % (p, i)
    return None


class FaultCheck(Check):
    per = 14
    classes = None
    kill = 0.0

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r)
        b = cx.good(scn)
        for _ in range(self.per):
            yield {"scn": scn, "plan": C.pick_plan(r, b, scn, self.classes, kill=self.kill)}


class C01(FaultCheck):
    id = "C01"
    quick, thorough = 800, 20000
    rule = ("seeded workload x fault plan (errors, short and torn writes, lost tails at close, full disk, failing allocations, "
            "console errors); non-trivial: at least one planned fault fired; distinct by event-log hash")

    def judge(self, cx, case):
        b = cx.good(case["scn"])
        o = cx.run(case["scn"], case["plan"])
        if o.r.faults:
            cx.nontrivial = key_of(o, case["plan"])
        if o.r.how() == "exit0":
            for p in work.outputs(case["scn"]):
                w = wrong_output(b, o, p)
                if w:
                    return ("false-success", "marc exited 0 but " + w)
        return None



def power_loss(r, o, pre, d_outs):
    """What the disk may hold after power failed: a random subset of the pages written."""
    out = {}
    w = {}
    for l in o.r.lines():
        p = l.split()
        if l.startswith("op write ") and p[2] in d_outs and int(p[5]) > 0 and p[6] != "-1":
            off, n, b = int(p[3]), int(p[5]), int(p[6])
            w.setdefault(p[2], []).append((off, o.r.blob[b:b + n]))
        elif l.startswith("op unlink ") and p[2] in d_outs:
            w[p[2]] = []
    for f, ws in w.items():
        keep = r.choice([.2, .5, .8, .95])
        img = bytearray()
        for off, data in ws:
            pos = 0
            while pos < len(data):
                n = min(len(data) - pos, 4096 - (off + pos) % 4096)
                if r.random() < keep:
                    end = off + pos + n
                    if len(img) < end:
                        img.extend(bytes(end - len(img)))
                    img[off + pos:end] = data[pos:pos + n]
                pos += n
        out[f] = bytes(img)
    return out


def bad_certificate(b, p, content, pre):
    """A certified HDU must be certified for what the fault-free run writes at that place.

    FITS checksums are ones'-complement sums, which do not see, e.g., a lost
    page of 0xFF bytes; so what is judged is the certificate (header, sum).
    """
    if content is None or content == pre:
        return None
    want = fits.parse(b.o.file(p))
    for i, h in enumerate(fits.parse(content)):
        if not h.certified:
            continue
        if i >= len(want):
            return "%s: HDU %d carries valid checksums but should not exist" % (p, i)
        if fits.norm_hdu(h)[0] != fits.norm_hdu(want[i])[0] or h.kv["DATASUM"] != want[i].kv.get("DATASUM"):
            return "%s: HDU %d carries valid checksums but %s" % (
                p, i, diff_norm(((fits.norm_hdu(h),), 0), ((fits.norm_hdu(want[i]),), 0)))
    return None


class C02(FaultCheck):
    id = "C02"
    quick, thorough = 700, 20000
    kill = .6
    rule = ("seeded workload x (kill at any operation | I/O faults | both), then the disk as the process left it and as a power "
            "loss may leave it (random subset of written pages); non-trivial: run was cut short or a fault fired; distinct by log hash")

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r, size=r.choice(["s", "m", "m", "l"]))
        b = cx.good(scn)
        for _ in range(self.per):
            plan = C.pick_plan(r, b, scn, kill=self.kill, quota=.1)
            plan["set"]["wlog"] = 1
            yield {"scn": scn, "plan": plan, "loss": r.randrange(1 << 30)}

    def judge(self, cx, case):
        from ..core import rng_for
        scn = case["scn"]
        b = cx.good(scn)
        o = cx.run(scn, case["plan"])
        if o.r.faults or o.r.simkill:
            cx.nontrivial = key_of(o, case["plan"])
        outs = work.outputs(scn)
        for p in outs:
            pre = o.before.get(p)
            w = bad_certificate(b, p, o.file(p), pre[1] if pre else None)
            if w:
                return ("false-certificate", "after %s, %s" % (o.r.how(), w))
        if not o.r.overlog:
            r = rng_for(case["loss"])
            for k in range(3):
                for p, img in power_loss(r, o, None, set(outs)).items():
                    w = bad_certificate(b, p, fits.unpacked(p, img), None)
                    if w:
                        return ("false-certificate-power", "after %s and power loss %d, %s" % (o.r.how(), k, w))
        return None


def refusals(cx, r, scn, n, **kw):
    """The same under faults for requests that are refused."""
    from .inputs import C06, spoil
    s = spoil(r, scn, r.choice(C06.KINDS))
    if s:
        b = cx.base(s, args=s.get("args"))
        for _ in range(n):
            p = C.pick_plan(r, b, s, **kw)
            if s.get("args"):
                p["args"] = s["args"]
            yield {"scn": s, "plan": p, "refused": True}


class C03(FaultCheck):
    id = "C03"
    quick, thorough = 800, 20000
    kill = .2
    rule = ("seeded workload with pre-existing outputs (plain, links, junk) x fault plan; every file is compared before and after; "
            "non-trivial: a fault fired or an output existed before; distinct by log hash")

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r)
        for m in scn["maps"]:
            if r.random() < .6:
                scn["pre"][m["out"]] = r.choice(["junk", "oldmap", "longer", "empty", "symlink", "hardlink", "symlink", "hardlink", "dangling"])
                if r.random() < .08 and scn["sources"] and not any(s["gz"] for s in scn["sources"]):
                    scn["pre"][m["out"]] = "source"
        b = cx.good(scn)
        yield {"scn": scn, "plan": {"set": {"seed": r.randrange(1 << 30)}}}
        for _ in range(self.per):
            yield {"scn": scn, "plan": C.pick_plan(r, b, scn, kill=self.kill)}
        if r.random() < .3:
            yield from refusals(cx, r, scn, 3, kill=self.kill)

    def judge(self, cx, case):
        scn = case["scn"]
        if "refused" not in case:
            cx.good(scn)
        o = cx.run(scn, case["plan"])
        if o.r.faults or o.r.simkill or scn["pre"]:
            cx.nontrivial = key_of(o, case["plan"])
        outs = set(work.outputs(scn))
        if o.r.escapes:
            l = [l for l in o.r.lines() if l.startswith("escape")]
            return ("escape", "marc tried to change something outside its files: %s" % l[:1])
        for p, v in sorted(o.before.items()):
            if p not in outs and o.after.get(p) != v:
                return ("damaged", "%s was %s by the run (%s)" % (p, "removed" if p not in o.after else "changed", o.r.how()))
        if not o.r.simkill and o.r.sig == 0:
            for p in sorted(o.after):
                if p not in outs and p not in o.before:
                    return ("stray", "the run left a file nobody asked for: %s (%s)" % (p, o.r.how()))
        return None


class C04(FaultCheck):
    id = "C04"
    quick, thorough = 800, 20000
    classes = ["open", "open", "read", "read", "write", "write", "close", "unlink", "alloc", "alloc", "alloc", "con", "stat", "trunc"]
    rule = ("seeded workload x fault plan without kills; non-trivial: at least one planned fault fired; distinct by log hash")

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r)
        b = cx.good(scn)
        for _ in range(self.per):
            plan = C.pick_plan(r, b, scn, self.classes)
            if r.random() < .1:
                plan["set"]["maxalloc"] = r.choice([2000, 8000, 30000, 100000])
            yield {"scn": scn, "plan": plan}
        if r.random() < .3:
            yield from refusals(cx, r, scn, 4, classes=self.classes)

    def judge(self, cx, case):
        scn = case["scn"]
        b = cx.base(scn, args=scn.get("args")) if "refused" in case else cx.good(scn)
        o = cx.run(scn, case["plan"])
        if o.r.faults:
            cx.nontrivial = key_of(o, case["plan"])
        how = o.r.how()
        if o.r.canary:
            return ("memory", "heap corruption: %s" % [l for l in o.r.lines() if l.startswith("canary")][:1])
        if how in ("hang", "oplimit"):
            return ("hang", "marc did not terminate (%s after %d operations)" % (how, o.r.ops))
        if not how.startswith("exit"):
            return ("crash", "marc died of %s: %s" % (how, o.r.out(2)[-200:].strip()))
        if o.r.exit != 0 and b.o.r.how() == "exit0" and not any(o.r.fired[c] for c in ("alloc", "malloc", "con")):
            new = said(o.r) - said(b.o.r)
            if not new:
                return ("silent-failure", "marc exited %d without saying why" % o.r.exit)
        return None


def said(r):
    import re
    return {l.strip() for l in re.split(r"[\r\n]", r.out(2)) if l.strip()} | {
        l.strip() for l in r.out(1).split("\n") if re.search("error|unable|cannot|fail|could not", l, re.I)}


class C05(FaultCheck):
    id = "C05"
    quick, thorough = 700, 20000
    per = 9
    rule = ("seeded workload x 1-3 consecutive faulty or killed runs on the same disk, then one run without faults; "
            "non-trivial: some earlier run was killed or failed; distinct by log hashes of the sequence")

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r)
        b = cx.good(scn)
        for _ in range(self.per):
            yield {"scn": scn, "plans": [C.pick_plan(r, b, scn, kill=.6) for _ in range(r.choice([1, 1, 2, 3]))]}

    def judge(self, cx, case):
        scn = case["scn"]
        b = cx.base(scn)
        if b.o.r.how() != "exit0":
            raise C.Skip("invalid workload")
        d = cx.fresh(work.render(scn))
        hows, hist = [], []
        first = None
        for p in case["plans"]:
            o = cx.run_in(d, scn, p)
            first = first or o.before
            hows.append(o.r.how())
            hist.append(o.r.hash)
        o = cx.run_in(d, scn, {"set": {"seed": 5}})
        if any(h != "exit0" for h in hows):
            cx.nontrivial = tuple(hist)
        cx.last_hash = "%s/%s" % ("+".join(hist), o.r.hash)
        if o.r.how() != "exit0":
            return ("no-recovery", "after %s a run without faults ended with %s: %s" % (hows, o.r.how(), o.r.out(2)[-200:].strip()))
        for p in work.outputs(scn):
            w = wrong_output(b, o, p)
            if w:
                return ("bad-recovery", "after %s a run without faults left a wrong map: %s" % (hows, w))
        return None


class C18(FaultCheck):
    id = "C18"
    quick, thorough = 700, 20000
    rule = ("seeded workload on a terminal x (kill at any operation after an announcement | I/O faults); "
            "non-trivial: a map was announced in a run that was killed or had a fault; distinct by log hash")

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r, nmaps=r.choice([1, 2, 2, 3]))
        b = cx.good(scn, set={"tty": 1})
        cons = [j for j, (c, p, l) in enumerate(b.trace()) if c == "con"]
        for _ in range(self.per):
            plan = C.pick_plan(r, b, scn, ["open", "write", "write", "close", "close", "alloc", "read"])
            if r.random() < .6:
                plan = {"set": {"seed": r.randrange(1 << 30)}, "faults": []}
                if r.random() < .7:
                    plan["faults"] = [{"cls": "con", "nth": r.randrange(b.o.r.cls["con"]), "kind": "K"}]
                else:
                    plan["set"]["killop"] = r.randrange(b.o.r.ops + 1)
            plan["set"]["tty"] = 1
            yield {"scn": scn, "plan": plan}

    def judge(self, cx, case):
        scn = case["scn"]
        b = cx.good(scn)
        o = cx.run(scn, case["plan"])
        text = o.r.out(1)
        for p in work.outputs(scn):
            if "Created map: %s\n" % p in text:
                if o.r.simkill or o.r.faults:
                    cx.nontrivial = key_of(o, case["plan"])
                w = wrong_output(b, o, p)
                if w:
                    return ("false-announcement", "marc announced %s as created, but after %s %s" % (p, o.r.how(), w))
        return None


CHECKS = [C01, C02, C03, C04, C05, C18]
