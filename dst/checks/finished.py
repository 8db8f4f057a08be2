"""C16: what a finished map has to hold."""
import copy, math, re
from .. import core, ctx as C, fits, model, work
from ..runner import Check
from .faults import key_of

SIZE = {8: 1, 16: 2, 32: 4, 64: 8, -32: 4, -64: 8}


def close(a, b, rel=1e-9):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


def words(texts):
    """Text without regard to how it was broken over cards."""
    return "".join("".join(texts).split())


PROJECTION = {"MERCATOR": r"Mercator", "ORTHO": "Orthographic", "P_STEREO": "Polar Stereographic", "SIMPLE_C": "Simple Cylindrical"}


def free_text(h, key):
    """What the COMMENT cards say, without CFITSIO's own boilerplate."""
    t = [c[8:].rstrip() for c in h.cards if c[:8] == key.ljust(8)]
    return [x for x in t if not x.startswith("  FITS (Flexible Image Transport System) format is")
            and not x.startswith("  and Astrophysics', volume 376")]


def alone(m, k, bitpix, blank):
    """The same map with only its k-th plane, and types written out."""
    m = copy.deepcopy(m)
    m["planes"] = [m["planes"][k]]
    m["dtype"] = next(n for n, b in work.DTYPES.items() if b == bitpix)
    m.pop("blank", None)
    if bitpix > 0 and blank is not None:
        m["blank"] = blank
    return m


class C16(Check):
    id = "C16"
    quick, thorough = 3500, 60000
    how = "seeded requests under short transfers against a model of the finished map"
    rule = ("seeded requests (projections, data types, blanks, ranges, planes, grids, headers, sizes from 1x1) under seeded short reads and "
            "writes, memory contents and console kinds; the map parsed independently and compared with the request and with each plane "
            "mapped alone; non-trivial: more than one plane, a grid, a range or a chunked transfer; distinct by log hash")

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r, size=r.choice(["s", "s", "s", "m", None]))
        if r.random() < .6:
            work.enrich(r, scn)
        if r.random() < .1:
            work.closeup(r, scn)
        if r.random() < .15:
            m = scn["maps"][0]
            m["samples"], m["lines"] = r.choice([(1, 1), (1, 2), (2, 1), (1, 24), (30, 1), (2, 2), (3, 5), (72, 10), (36, 20)])
            if m["proj"]["type"] == "MERCATOR":
                m["lines"] = min(m["lines"], 8 * m["samples"])
        if r.random() < .3:
            # planes that tell each other apart
            m = scn["maps"][0]
            for n in range(r.choice([2, 4, 9, 12])):
                s = work.gen_source(r, 100 + n, small=True)
                s.update(base=10 + 9 * n, dx=0, dy=0, keys=[k for k in s["keys"] if k[0] == "BLANK"])
                scn["sources"].append(s)
                im = work.gen_image(r, s, m["body"], simple=True)
                m["planes"].insert(r.randrange(len(m["planes"]) + 1), {"kind": "image", "images": [im]})
            work.holdable(scn, m)
        for j in range(2):
            plan = {"set": {"seed": r.randrange(1 << 30)}}
            if j:
                plan["set"].update(rdchunk=r.choice([0, 30, 90]), wrchunk=r.choice([0, 30, 90]), tty=r.randrange(2), heapfill=r.randint(0, 5))
            yield {"scn": scn, "plan": plan}

    def judge(self, cx, case):
        scn = case["scn"]
        o = cx.run(scn, case["plan"])
        h = cx.last_hash
        if o.r.how() != "exit0":
            return ("refused", "a valid request ended with %s: %s" % (o.r.how(), (o.r.out(1) + o.r.out(2))[-300:].strip()))
        v = None
        for k, m in enumerate(scn["maps"]):
            v = v or self.map(cx, scn, m, o)
        if any(len(m["planes"]) > 1 or m.get("grid") for m in scn["maps"]) or len(case["plan"]["set"]) > 1:
            cx.nontrivial = h
        cx.last_hash = h
        return v

    def map(self, cx, scn, m, o):
        f = o.file(m["out"])
        if f is None:
            return ("missing", "%s does not exist after success" % m["out"])
        hs = fits.parse(f)
        grid = isinstance(m.get("grid"), dict)
        if len(hs) != 1 + grid or sum(len(h.raw) for h in hs) != len(f):
            return ("structure", "%s holds %d image(s), grid %s" % (m["out"], len(hs), "requested" if grid else "not requested"))
        for i, h in enumerate(hs):
            if not h.complete or not h.certified:
                return ("structure", "%s: image %d is incomplete or its checksums do not verify" % (m["out"], i))
        h = hs[0]
        kv, np_ = h.kv, len(m["planes"])
        dims = [kv.get("NAXIS%d" % (i + 1)) for i in range(kv["NAXIS"])]
        if dims not in ([m["samples"], m["lines"], np_], [m["samples"], m["lines"]] if np_ == 1 else None):
            return ("structure", "%s has dimensions %s, not %s" % (m["out"], dims, [m["samples"], m["lines"], np_]))
        bp = kv["BITPIX"]
        if "dtype" in m and bp != work.DTYPES[m["dtype"]]:
            return ("type", "%s has BITPIX %s, requested was %s" % (m["out"], bp, m["dtype"]))
        imgs = [im for p in m["planes"] for im in p.get("images", [])]
        if "dtype" not in m:
            t = {work.source(scn, im["src"])["bitpix"] for im in imgs}
            if len(t) == 1 and bp not in t:
                return ("type", "%s has BITPIX %s, its images %s" % (m["out"], bp, t))
        # header
        skeys = [{k for k, _ in work.source(scn, im["src"])["keys"]} for im in imgs]
        want = {"OBJECT": m["body"][0], "AUTHOR": m.get("author"), "ORIGIN": m.get("origin")}
        for k, w in want.items():
            if w is not None and str(kv.get(k)).strip() != w:
                return ("header", "%s: %s is %r, requested was %r" % (m["out"], k, kv.get(k), w))
            if w is None and k in kv and not any(k in s for s in skeys):
                return ("header", "%s: %s is %r, nothing asked for it" % (m["out"], k, kv[k]))
        for k, w in (("AUTHOR", m.get("author")), ("ORIGIN", m.get("origin"))):
            own = {dict(work.source(scn, im["src"])["keys"]).get(k) for im in imgs}
            if w is None and len(own) == 1 and None not in own and str(kv.get(k)).strip() != min(own):
                return ("header", "%s: %s is %r, that of the images %r" % (m["out"], k, kv.get(k), min(own)))
        for i, x in enumerate(hs):
            t = " ".join(free_text(x, "HISTORY"))
            if not re.search(PROJECTION[m["proj"]["type"]] + r" projection (grid )?created", t):
                return ("header", "%s: the history of image %d does not name the projection %s: %r" % (m["out"], i, m["proj"]["type"], t[:200]))
        if words(free_text(h, "COMMENT")) != words(m.get("comments", [])):
            return ("header", "%s: comments %r, requested were %r" % (m["out"], free_text(h, "COMMENT")[:4], m.get("comments", [])[:4]))
        blank = kv.get("BLANK")
        if bp > 0 and "blank" in m and blank != m["blank"]:
            return ("header", "%s: BLANK is %r, requested was %r" % (m["out"], blank, m["blank"]))
        # data
        vals = fits.values(h)
        size = m["samples"] * m["lines"]
        bl = (blank if blank is not None else 0) if bp > 0 else None
        isblank = (lambda x: x == bl) if bp > 0 else math.isnan
        data = [x for x in vals if not isblank(x)]
        lo, hi = kv.get("DATAMIN"), kv.get("DATAMAX")
        if data:
            if lo is None or hi is None:
                return ("extrema", "%s holds data from %r to %r but no DATAMIN or DATAMAX" % (m["out"], min(data), max(data)))
            # data that happen to equal the blank value cannot be told from blanks
            alt = data + ([bl] if bl is not None else [])
            rel = 1e-6 if bp == -32 else 1e-9  # what a keyword of that type can hold
            if not any(close(lo, min(x), rel) for x in (data, alt)) or not any(close(hi, max(x), rel) for x in (data, alt)):
                return ("extrema", "%s: DATAMIN %r, DATAMAX %r, but the data reach from %r to %r" % (m["out"], lo, hi, min(data), max(data)))
        elif lo is not None and not (bl is not None and lo == hi == bl):
            return ("extrema", "%s holds no data but DATAMIN %r" % (m["out"], lo))
        cfg = scn.get("config") or {}
        for k, p in enumerate(m["planes"]):
            mine = vals[k * size:(k + 1) * size]
            d = [x for x in mine if not isblank(x)]
            for key, bad in (("min", lambda x, l: x < l), ("max", lambda x, l: x > l)):
                l = p.get(key, cfg.get(key))
                if l is not None and p["kind"] in ("image", "mosaic") and any(bad(x, l) for x in d):
                    return ("range", "%s: plane %d holds %r although DATA_%s is %r" % (
                        m["out"], k + 1, min(d) if key == "min" else max(d), key.upper(), l))
            if p["kind"] == "image" and d:
                im = p["images"][0]
                s = work.source(scn, im["src"])
                if s["dx"] == 0 == s["dy"] and "flat" not in im and not any(k[0] == "BSCALE" for k in s["keys"]):
                    t = float(s["base"]) if bp < 0 else int(s["base"])
                    if any(not close(x, t) for x in d):
                        return ("data", "%s: plane %d of an image that is %r everywhere holds %r" % (
                            m["out"], k + 1, t, next(x for x in d if not close(x, t))))
            v = elements(scn, m, k, bp, bl, mine, 60)
            if v:
                return v
            if np_ > 1:
                e = cx.base({"sources": scn["sources"], "maps": [alone(m, k, bp, blank)], "files": [[0]], "pre": {}, "config": scn.get("config")})
                if e.o.r.how() != "exit0":
                    return ("alone", "%s: plane %d alone ended with %s: %s" % (m["out"], k + 1, e.o.r.how(), e.o.r.out(2)[-200:].strip()))
                g = fits.parse(e.o.file(m["out"]))
                n = size * SIZE[bp]
                if not g or g[0].data != h.data[k * n:(k + 1) * n]:
                    return ("plane", "%s: plane %d of %d is not what the same plane alone holds" % (m["out"], k + 1, np_))
        if grid:
            g = hs[1]
            if (g.kv.get("EXTNAME") != "GRID" or g.kv["BITPIX"] != 8
                    or [g.kv.get("NAXIS1"), g.kv.get("NAXIS2")] != [m["samples"], m["lines"]] or g.kv.get("NAXIS3", 1) != 1):
                return ("grid", "%s: unexpected grid image %s" % (m["out"], {k: g.kv.get(k) for k in ("EXTNAME", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2")}))
            if set(g.data) - {0, 255}:
                return ("grid", "%s: grid holds values %s" % (m["out"], sorted(set(g.data))[:5]))
            if words(free_text(g, "COMMENT")) != words(m.get("xcomments", [])):
                return ("grid", "%s: grid comments %r, requested were %r" % (m["out"], free_text(g, "COMMENT")[:4], m.get("xcomments")))
        return None


def elements(scn, m, k, bp, blank, vals, most):
    """Every element (a seeded sample of larger planes) against the model."""
    pl = model.Plane(scn, m, m["planes"][k], bp)
    if not pl.ok:
        return None
    n = len(vals)
    idx = range(n) if n <= most else sorted(core.rng_for(n, m["out"], k).sample(range(n), most))
    w = m["samples"]
    for o in idx:
        if not pl.admits(o % w, o // w, vals[o], blank):
            return ("element", "%s: plane %d (%s) sample %d line %d holds %r, the model has %s (blank %r)" % (
                m["out"], k + 1, m["planes"][k]["kind"], o % w, o // w, vals[o], pl.show(o % w, o // w), blank))
    return None


def recorded_scale(h, k, planes):
    """Scale and offset the header records for a plane."""
    if planes == 1:
        return h.kv.get("BSCALE", 1), h.kv.get("BZERO", 0)
    out, mine = {}, False
    for c in h.cards:
        if c[:8] == "HISTORY ":
            w = c[8:].split()
            if w[:1] == ["Plane"]:
                mine = w[1] == str(k + 1)
            elif mine and len(w) == 2 and w[0] in ("BSCALE:", "BZERO:"):
                out.setdefault(w[0], float(w[1]))
    return out.get("BSCALE:", 1), out.get("BZERO:", 0)


class C17(Check):
    id = "C17"
    quick, thorough = 12000, 200000
    how = "seeded requests under divided transfers, refined against an executable model of every map element"
    rule = ("seeded requests in all notations (projections and their options, viewing geometries, notations of numbers and angles, source file "
            "layouts, data types, ranges) under seeded short and interrupted transfers and memory contents; every element of every plane and grid "
            "compared with the model's admissible values; non-trivial: data mapped; distinct by log hash")

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r, nmaps=1, size=r.choice(["s", "s", "m"]))
        work.enrich(r, scn)
        m = scn["maps"][0]
        if r.random() < .12 or r.random() < .5 and any("flat" in im for p in m["planes"] for im in p.get("images", [])):
            work.closeup(r, scn)
            m["samples"] = max(m["samples"], 8)
            m["lines"] = max(m["lines"], 8)
        if r.random() < .5:
            m["grid"] = r.choice([{}, {"both": r.choice([10, 30, 7.5, 45])}, {"lat": 15}, {"lon": 20}, {"lat": 12, "lon": 24}, {"lon": 60}])
        if r.random() < .3:
            # a picture that tells neighbouring pixels apart
            for s in scn["sources"]:
                if not s.get("flat") and s["bitpix"] != 8 and not any(k[0].startswith("DATAM") for k in s["keys"]):
                    s.update(dx=3, dy=101, base=10)
        plan = {"set": {"seed": r.randrange(1 << 30), "heapfill": r.randint(0, 5), "tty": r.randrange(2)}}
        if r.random() < .6:
            plan["set"].update(rdchunk=r.choice([0, 30, 90]), wrchunk=r.choice([0, 30, 90]))
        if r.random() < .12:
            plan["faults"] = [{"cls": c, "nth": r.randrange(12), "kind": "e", "err": C.ERR["EINTR"], "count": 1} for c in r.sample(["read", "write"], r.randint(1, 2))]
        yield {"scn": scn, "plan": plan}

    def judge(self, cx, case):
        scn = case["scn"]
        o = cx.run(scn, case["plan"])
        if o.r.how() != "exit0":
            raise C.Skip("not successful")
        v = None
        for m in scn["maps"]:
            hs = fits.parse(o.file(m["out"]) or b"")
            if not hs or any(not h.complete for h in hs):
                return ("structure", "%s is not a complete FITS file" % m["out"])
            v = v or self.map(cx, scn, m, hs)
        return v

    def map(self, cx, scn, m, hs):
        h = hs[0]
        bp, np_, size = h.kv["BITPIX"], len(m["planes"]), m["samples"] * m["lines"]
        vals = fits.values(h)
        if len(vals) != size * np_:
            return ("structure", "%s holds %d elements, not %d" % (m["out"], len(vals), size * np_))
        bl = h.kv.get("BLANK", 0) if bp > 0 else None
        for k, p in enumerate(m["planes"]):
            mine = vals[k * size:(k + 1) * size]
            v = elements(scn, m, k, bp, bl, mine, 900)
            if v:
                return v
            if any(x != bl and x == x for x in mine):
                cx.nontrivial = cx.last_hash
            if bp > 0 and p["kind"] not in ("image", "mosaic"):
                sc, off = model.scaling(p["kind"], bp)
                bs, bz = recorded_scale(h, k, np_)
                if not close(bs, 1 / sc, 1e-6) or not (close(bz, -off / sc, 1e-6) or abs(bz + off / sc) < 1e-9):
                    return ("scale", "%s: plane %d (%s) is stored as %g x + %g, the header records BSCALE %r, BZERO %r" % (
                        m["out"], k + 1, p["kind"], sc, off, bs, bz))
        if isinstance(m.get("grid"), dict) and len(hs) > 1:
            g, n = hs[1].data, m["samples"]
            if len(g) < size:
                return ("grid", "%s: the grid is too small" % m["out"])
            cfg = scn.get("config") or {}
            iv = [m["grid"].get("both", m["grid"].get(x, cfg.get("both", cfg.get(x, 10)))) for x in ("lat", "lon")]
            v = model.grid_fault(m, iv[0], iv[1], lambda i, k: g[k * n + i] != 0)
            if v:
                return ("grid", "%s: grid at intervals %g, %g: %s" % (m["out"], iv[0], iv[1], v))
        return None


CHECKS = [C16, C17]
