"""C06, C07, C10: what marc reads may be wrong, damaged, or change under its feet."""
import gzip, re
from .. import ctx as C, fits, work
from ..core import rng_for
from ..runner import Check
from .faults import key_of, wrong_output, diff_norm

# A line of the request, and a value marc documents as invalid for it.
BAD_VALUES = [(r"^SAMPLES: .*$", "SAMPLES: -5"), (r"^SAMPLES: .*$", "SAMPLES: 0"), (r"^LINES: .*$", "LINES: 0"),
              (r"^LINES: .*$", "LINES: -2"), (r"^NIBBLE: .*$", "NIBBLE: -1"), (r"^NIBBLE_LEFT: .*$", "NIBBLE_LEFT: -3"),
              (r"^KM_PER_PIXEL: .*$", "KM_PER_PIXEL: -3"), (r"^EQ_RAD: .*$", "EQ_RAD: -71492"),
              (r"^POL_RAD: .*$", "POL_RAD: 0"), (r"^SUB_OBSERV_LAT: .*$", "SUB_OBSERV_LAT: 91"),
              (r"^SUB_SOLAR_LAT: .*$", "SUB_SOLAR_LAT: -90.5"), (r"^GRID_INTERVAL: .*$", "GRID_INTERVAL: -10"),
              (r"^LAT_GRID_INTERVAL: .*$", "LAT_GRID_INTERVAL: 0"), (r"^LON_GRID_INTERVAL: .*$", "LON_GRID_INTERVAL: -1"),
              (r"^ROTATION: .*$", "ROTATION: SIDEWAYS"), (r"^TYPE: .*$", "TYPE: SQUARE"), (r"^DATA_TYPE: .*$", "DATA_TYPE: COMPLEX"),
              (r"^BODY: .*$", ""), (r"^MAP: .*$", ""), (r"^PLANES: .*$", "PLANES: 9"), (r"^RANGE: .*$", "RANGE: abc"),
              (r"^ARCSEC_PER_PIX: .*$", "ARCSEC_PER_PIX: -0.1"), (r"^POLE: .*$", "POLE: X"), (r"^INVERT: .*$", "INVERT: DIAGONAL"),
              (r"^NIBBLE_RIGHT: .*$", "NIBBLE_RIGHT: -1"), (r"^NIBBLE_TOP: .*$", "NIBBLE_TOP: -2"), (r"^NIBBLE_BOTTOM: .*$", "NIBBLE_BOTTOM: -1"),
              (r"^DATA_TYPE: FLOAT$", "DATA_TYPE: FLOAT\nDATA_BLANK: 3"), (r"^DATA_TYPE: DOUBLE$", "DATA_TYPE: DOUBLE\nDATA_BLANK: 0"),
              (r"^DATA_TYPE: BYTE$(?!\nDATA_BL)", "DATA_TYPE: BYTE\nDATA_BLANK: 256"), (r"^DATA_TYPE: BYTE$(?!\nDATA_BL)", "DATA_TYPE: BYTE\nDATA_BLANK: -1"),
              (r"^DATA_TYPE: SHORT$(?!\nDATA_BL)", "DATA_TYPE: SHORT\nDATA_BLANK: 32768"),
              (r"^DATA_TYPE: LONG$(?!\nDATA_BL)", "DATA_TYPE: LONG\nDATA_BLANK: -2147483649"),
              (r"^DATA_TYPE: LONGLONG$(?!\nDATA_BL)", "DATA_TYPE: LONGLONG\nDATA_BLANK: 9223372036854775808"),
              (r"^SAMPLES: .*$", "SAMPLES: many"), (r"^LINES: .*$", "LINES: "), (r"^PLANES: .*$", "PLANES: 0"), (r"^PLANES: .*$", "PLANES: -1"),
              (r"^PLANE: 1$", "PLANE: 2"), (r"^PLANE: 2$", "PLANE: 1"), (r"^PLANE: 2$", "PLANE: 3"), (r"^PLANE: $", "PLANE: 1"),
              (r"^PLANE: (\d*)$(?!\nDATA_M)", "PLANE: \\1\nDATA_MIN: 30\nDATA_MAX: 20"), (r"^PLANE: (\d*)$(?!\nDATA_M)", "PLANE: \\1\nDATA_MAX: -5\nDATA_MIN: 20"),
              (r"^LO_LAT: .*$", "LO_LAT: 89"), (r"^HI_LAT: .*$", "HI_LAT: -89"), (r"^HI_LAT: .*$", "HI_LAT: 90.1"), (r"^LO_LON: .*$", "LO_LON: 361"),
              (r"^LO_LAT: (.*)\nHI_LAT: (.*)$", "HI_LAT: \\1\nLO_LAT: \\2"), (r"^HI_LON: .*$", "HI_LON: -400 W"), (r"^MAX_LAT: .*$", "MAX_LAT: 95"),
              (r"^POSITION_ANGLE: .*$", "POSITION_ANGLE: 361"), (r"^POSITION_ANGLE: .*$", "POSITION_ANGLE: 400 CW"), (r"^POSITION_ANGLE: .*$", "POSITION_ANGLE: -361 CCW"),
              (r"^RANGE: .*$", "RANGE: 1 / 0"), (r"^RANGE: .*$", "RANGE: 5 MILES"), (r"^RANGE: .*$", ""),
              (r"^SUB_OBSERV_LAT: .*$", "SUB_OBSERV_LAT: 91 N"), (r"^SUB_OBSERV_LAT: .*$", "SUB_OBSERV_LAT: -5 S"), (r"^SUB_OBSERV_LAT: .*$", "SUB_OBSERV_LAT: -5 N"),
              (r"^SUB_OBSERV_LAT: .*$", "SUB_OBSERV_LAT: 90.5 S"), (r"^SUB_OBSERV_LAT: .*$", "SUB_OBSERV_LAT: -91 G"), (r"^SUB_SOLAR_LAT: .*$", ""),
              (r"^SUB_OBSERV_LON: .*$", "SUB_OBSERV_LON: 361"), (r"^SUB_SOLAR_LON: .*$", "SUB_SOLAR_LON: 400 E"), (r"^SUB_SOLAR_LON: .*$", "SUB_SOLAR_LON: -361 W"),
              (r"^SUB_SOLAR_LON: .*$", "SUB_SOLAR_LON: 5 N"), (r"^KM_PER_PIXEL: .*$", "KM_PER_PIXEL: 0"), (r"^FOCAL_LENGTH: .*$", "FOCAL_LENGTH: 1 +"),
              (r"^PIXEL_SCALE: .*$", "PIXEL_SCALE: (2"), (r"^EMI_ANG_LIMIT: .*$", "EMI_ANG_LIMIT: 91"),
              (r"^FLATTENING: .*$", "FLATTENING: 1"), (r"^FLATTENING: .*$", "FLATTENING: -0.1"), (r"^FLATTENING: .*$", ""),
              (r"^EQ_RAD: .*\nPOL_RAD: .*$", "EQ_RAD: 1000\nPOL_RAD: 1001"), (r"^POL_RAD: .*\nEQ_RAD: .*$", "POL_RAD: 71500\nEQ_RAD: 71492"), (r"^EQ_RAD: .*$", ""),
              (r"^EQ_RAD: .*$", "EQ_RAD: abs(-5)"), (r"^ROTATION: .*$", ""), (r"^TYPE: .*$", ""), (r"^GRID: .*$", "GRID: MAYBE"), (r"^AVERAGING: .*$", "AVERAGING: MEDIAN"),
              (r"^REMOVE_SKY: .*$", "REMOVE_SKY: PERHAPS"), (r"^INTERPOLATE: .*$", "INTERPOLATE: 1"), (r"^TERMINATOR: .*$", "TERMINATOR:"), (r"^SAMPLE_CENTER: .*$", ""),
              (r"^LAT_AT_CENTER: .*$", "LAT_AT_CENTER: 120"), (r"^LON_AT_CENTER: .*$", ""), (r"^LATITUDE_TYPE: .*$", "LATITUDE_TYPE: GEODETIC"),
              (r"^LINES: .*$", "LINES: 10\nLINES: 10"), (r"^PLANE: .*$", "PLANE:\nPLANE:")]


def spoil(r, scn, kind):
    """A variant of a valid workload that must be refused; None if not possible."""
    s = dict(scn)
    n = len(scn["files"])
    files, _ = work.render(scn)
    used = sorted({im[k] for m in scn["maps"] for p in m["planes"] for im in p.get("images", []) for k in ("src", "flat") if k in im})
    if kind == "keyword":
        f = "in%d.marc" % r.randrange(n)
        ls = files[f].decode().split("\n")
        ls.insert(r.randrange(len(ls)), r.choice(["BOGUS_KEYWORD: 1", "}{", "$$$", "SAMPLES"]))
        s["raw"] = {f: "\n".join(ls)}
    elif kind == "value":
        f = "in%d.marc" % r.randrange(n)
        t = files[f].decode()
        cand = [(p, v) for p, v in BAD_VALUES if re.search(p, t, re.M)]
        p, v = r.choice(cand)
        ms = list(re.finditer(p, t, re.M))
        m = r.choice(ms)
        s["raw"] = {f: t[:m.start()] + m.expand(v) + t[m.end():]}
    elif kind == "cut":
        f = "in%d.marc" % r.randrange(n)
        ls = files[f].decode().split("\n")
        k = max(i for i, l in enumerate(ls) if l.startswith("MAP:"))
        e = min(i for i, l in enumerate(ls) if i > k and l.startswith("LINES:"))
        s["raw"] = {f: "\n".join(ls[:r.randint(k + 1, e)]) + "\n"}
    elif kind == "noinput":
        a = ["in%d.marc" % i for i in range(n)]
        a.insert(r.randint(0, n), "nowhere.marc")
        s["args"] = a
    elif kind == "option":
        a = ["in%d.marc" % i for i in range(n)]
        a.insert(r.randint(0, n), r.choice(["--bogus", "-Z", "--colour=yes"]))
        s["args"] = a
    elif kind == "config":
        s["config"] = None
        s["raw"] = {work.config_path(scn): r.choice(["NIBBLE: 2\nWHAT: 1\n", "GRID_INTERVAL: -5\n", "][\n", "NIBBLE: x y\n", "MAP: a.fits\n"])}
    elif kind in ("nosource", "junksource", "emptysource", "headsource"):
        if not used:
            return None
        x = r.choice(used)
        if kind == "nosource":
            s["absent"] = [x]
        else:
            whole = files[x]
            if x.endswith(".gz"):
                whole = gzip.decompress(whole)
            b = {"junksource": b"this is not an image\n" * 200, "emptysource": b"", "headsource": whole[:r.choice([80, 400, 800])]}[kind]
            if x.endswith(".gz"):
                b = gzip.compress(b, mtime=0)
            s["raw"] = {x: b.decode("latin-1")}
    elif kind == "unreadable":
        x = r.choice([work.config_path(scn)] + ["in%d.marc" % i for i in range(n)] + used)
        # there, but not to be read: a loop of links, or a directory
        s["unreadable"] = {x: r.choice(["loop", "dir"])}
        if x == work.config_path(scn):
            s["config"] = None
    else:
        raise KeyError(kind)
    return s


class C06(Check):
    id = "C06"
    quick, thorough = 2000, 40000
    how = "seeded refusals and read-phase I/O faults over batches with existing maps"
    rule = ("seeded batch with existing maps x one reason to refuse it (bad keyword, value, option, configuration, cut file, missing or "
            "bad image, or an I/O error while the request is read); non-trivial: refused; distinct by log hash")
    KINDS = ["keyword", "value", "value", "value", "cut", "noinput", "option", "config", "nosource", "junksource", "emptysource", "headsource",
             "unreadable", "unreadable"]

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r, nmaps=r.choice([1, 2, 3]), size="s")
        for m in scn["maps"]:
            if r.random() < .9:
                scn["pre"][m["out"]] = r.choice(["junk", "oldmap", "longer", "empty"])
        b = cx.good(scn)
        for _ in range(8):
            s = spoil(r, scn, r.choice(self.KINDS))
            if s:
                yield {"scn": s, "plan": {"set": {"seed": 1}}, "must": True}
        # Operations before the first output is touched.
        n = {"read": 0, "open": 0}
        for c, p, l in b.trace():
            if c == "unlink" or p in work.outputs(scn):
                break
            if c in n:
                n[c] += 1
        for _ in range(6):
            cls = r.choice(["read", "read", "open"])
            if n[cls]:
                yield {"scn": scn, "must": False, "plan": {"set": {"seed": 1}, "faults": [
                    {"cls": cls, "nth": r.randrange(n[cls]), "kind": "e", "err": C.ERR[r.choice(["EIO", "EACCES", "EMFILE"] if cls == "open" else ["EIO"])],
                     "count": 1}]}}

    def judge(self, cx, case):
        scn = case["scn"]
        o = cx.run(scn, dict(case["plan"], args=scn.get("args")))
        how = o.r.how()
        if case["must"] and how == "exit0":
            return ("accepted", "a request that must be refused was carried out: %s" % self.what(scn))
        if how == "exit0":
            return None
        cx.nontrivial = key_of(o, case["plan"])
        if not how.startswith("exit"):
            if case["must"]:
                return ("crash", "a request that must be refused ended with %s: %s" % (how, self.what(scn)))
            raise C.Skip(how)  # C04's business
        for p in work.outputs(scn):
            if o.before.get(p) != o.after.get(p):
                return ("touched", "%s was %s although the request was refused (%s): %s" % (
                    p, "removed" if p not in o.after else "created" if p not in o.before else "changed", how, o.r.out(2)[-160:].strip()))
        return None

    def what(self, scn):
        return {k: (v if k != "raw" else {a: b[:60] for a, b in v.items()}) for k, v in scn.items() if k in ("raw", "absent", "args", "unreadable")}

    def brief(self, case):
        b = super().brief(case)
        b["spoiled"] = self.what(case["scn"])
        return b



def damage(r, s):
    """Bytes of source s with some stored bits altered; (bytes, where)."""
    raw = work.source_bytes(dict(s, gz=False))
    b = bytearray(raw)
    hend = 2880
    while b"END     " not in [bytes(b[i:i + 8]) for i in range(hend - 2880, hend, 80)]:
        hend += 2880
    if r.random() < .65:
        dlen = s["w"] * s["h"] * abs(s["bitpix"]) // 8
        at = hend + (r.randrange(dlen) if r.random() < .9 else r.randrange(len(b) - hend))
        for _ in range(r.choice([1, 1, 2, 20])):
            b[at] ^= 1 << r.randrange(8)
            at = hend + (at - hend + r.randint(1, 40)) % (len(b) - hend)
        where = "data"
    else:
        # any header byte but the certificates themselves
        cards = [i for i in range(0, hend, 80) if bytes(b[i:i + 8]).strip() not in (b"CHECKSUM", b"DATASUM")]
        c = r.choice(cards[:12] if r.random() < .7 else cards)
        at = c + r.randrange(8, 80) if bytes(b[c:c + 8]).strip() else c + r.randrange(80)
        b[at] ^= 1 << r.randrange(7)
        where = "header " + bytes(raw[c:c + 8]).decode().strip()
    b = bytes(b)
    h = fits.parse(b)
    if h and h[0].certified:
        return None, None  # flips that cancel out in the sums are beyond what FITS checksums promise
    return (gzip.compress(b, mtime=0) if s["gz"] else b), where


def warned(r, name):
    return [l for l in re.split(r"[\r\n]", r.out()) if name in l and re.search("checksum|corrupt|incorrect|damag|warn", l, re.I)]


class C07(Check):
    id = "C07"
    quick, thorough = 1500, 40000
    how = "seeded corruption and truncation of sources at rest and during the run"
    rule = ("seeded workload x (altered bits in a checksummed source | source cut short at rest | source cut short at any operation); "
            "non-trivial: the damage was seen (warning or failure) or the damaged file was read; distinct by log hash")

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r, nmaps=r.choice([1, 1, 2]), size=r.choice(["s", "m"]))
        for s in scn["sources"]:
            if r.random() < .8:
                s["chk"] = True
        b = cx.good(scn)
        used = sorted({im[k] for m in scn["maps"] for p in m["planes"] for im in p.get("images", []) for k in ("src", "flat") if k in im})
        if not used:
            raise C.Skip("no source")
        yield {"scn": scn, "kind": "intact", "plan": {"set": {"seed": 2, "rdchunk": 40}}}
        for _ in range(12):
            name = r.choice(used)
            s = work.source(scn, name)
            k = r.choice(["alter", "alter", "alter", "cut", "live"])
            if k == "alter" and s["chk"]:
                data, where = damage(r, s)
                if data:
                    yield {"scn": dict(scn, raw={name: data.decode("latin-1")}), "src": s, "kind": k, "name": name, "where": where,
                           "plan": {"set": {"seed": 3}}}
            elif k == "cut":
                whole = work.source_bytes(s)
                n = r.choice([r.randrange(len(whole)), len(whole) - r.randint(1, 3000), 2880 + r.randrange(3000)])
                n = max(0, min(n, len(whole) - 1))
                yield {"scn": dict(scn, raw={name: whole[:n].decode("latin-1")}), "src": s, "kind": k, "name": name, "where": n,
                       "plan": {"set": {"seed": 3}}}
            elif k == "live":
                whole = work.source_bytes(s)
                n = r.choice([0, 2880, r.randrange(len(whole))])
                yield {"scn": scn, "src": s, "kind": k, "name": name, "where": n,
                       "plan": {"set": {"seed": 3}, "ext": [{"op": r.randrange(b.o.r.ops), "kind": "t", "a": name, "b": str(n)}]}}

    def judge(self, cx, case):
        scn = {k: v for k, v in case["scn"].items() if k != "raw"}
        if "src" in case and case["src"] not in scn["sources"]:
            raise C.Skip("reduced")
        b = cx.good(scn)
        if case["kind"] == "intact":
            for s in scn["sources"]:
                w = warned(b.o.r, s["name"])
                if w:
                    return ("false-warning", "an intact source was reported as damaged: %s" % w[0])
            o = cx.run(scn, case["plan"])
            for s in scn["sources"]:
                w = warned(o.r, s["name"])
                if w:
                    return ("false-warning", "an intact source was reported as damaged: %s" % w[0])
            return None
        o = cx.run(case["scn"], case["plan"])
        cx.nontrivial = key_of(o, case["plan"])
        if o.r.how() != "exit0":
            return None  # refused; how cleanly is C04's business
        if case["kind"] == "alter":
            if not warned(o.r, case["name"]):
                return ("unnoticed", "altered %s of %s was mapped without a warning" % (case["where"], case["name"]))
            return None
        for p in work.outputs(scn):
            w = wrong_output(b, o, p)
            if w:
                return ("truncated-" + case["kind"], "%s was cut to %s bytes%s, marc exited 0, but %s" % (
                    case["name"], case["where"], " during the run" if case["kind"] == "live" else "", w))
        return None

    def brief(self, case):
        c = super().brief(case)
        c.pop("src", None)
        return c


CHECKS = [C06, C07]
