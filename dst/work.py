"""Workloads: what a simulated user asks marc to do, as plain data.

A scenario is a JSON-able dict: source images, configuration file, map
entries split over input files, and what lies on the disk beforehand.
"""
import os, math, random
from . import fits

BODIES = [("Jupiter", 71492, 66854), ("Saturn", 60268, 54364), ("Moon", 1737.4, 1736.0), ("Mars", 3396.2, 3376.2)]
DTYPES = {"BYTE": 8, "SHORT": 16, "LONG": 32, "LONGLONG": 64, "FLOAT": -32, "DOUBLE": -64}
IMAX = {8: 255, 16: 32767, 32: 2 ** 31 - 1, 64: 2 ** 63 - 1}


# ----------------------------------------------------------------- generation
def gen_source(r, i, small=False):
    bp = r.choice([8, 16, 32, -32, -64, -64, 64])
    w, h = r.choice([(24, 20), (32, 32), (40, 28), (17, 23)]) if small or r.random() < .8 else (150, 130)
    s = {"name": "s%d.fits" % i, "w": w, "h": h, "bitpix": bp,
         "base": r.randint(1, 60) if bp == 8 else r.randint(10, 200), "dx": r.choice([0, 0, 1, 2]),
         "dy": r.choice([0, 1, 1]), "chk": r.random() < .6, "gz": r.random() < .2, "keys": []}
    if s["gz"]:
        s["name"] += ".gz"
    if bp < 0:
        s["base"] += r.choice([0.0, 0.5, 0.25])
    if r.random() < .3:
        s["holes"] = [r.randint(0, w // 2), r.randint(0, h // 2), r.randint(2, w), r.randint(2, h)]
        if bp > 0:
            s["keys"].append(["BLANK", 0])
    for k, v in (("AUTHOR", "A. U. Thor"), ("ORIGIN", "Obs%d" % i), ("OBJECT", "Thing"), ("TELESCOP", "Tele"),
                 ("INSTRUME", "Cam"), ("OBSERVER", "Someone"), ("REFERENC", "Ref"), ("EQUINOX", 2000.0), ("BUNIT", "adu")):
        if r.random() < .12:
            s["keys"].append([k, v])
    if r.random() < .1:
        s["keys"].append(["DATAMAX", float(s["base"] + r.randint(5, 60))])
    return s


def gen_image(r, src, body, simple=False):
    m = min(src["w"], src["h"])
    im = {"src": src["name"], "so": [round(r.uniform(-30, 30), 2), round(r.uniform(0, 360), 2)],
          "ss": [round(r.uniform(-20, 20), 2), round(r.uniform(0, 360), 2)],
          "pa": round(r.uniform(0, 359), 1), "km": round(2 * body[1] / (m * r.uniform(.7, 1.3)), 4),
          "range": round(body[1] * r.uniform(20, 80), 0),
          "center": [round(src["w"] / 2 + r.uniform(-2, 2), 2), round(src["h"] / 2 + r.uniform(-2, 2), 2)]}
    if not simple and r.random() < .15:
        # close up: the body fills the picture, corners included
        im["km"] = round(im["km"] * r.uniform(.2, .5), 4)
    if simple:
        im["ss"] = list(im["so"])
        return im
    if r.random() < .3:
        im["nibble"] = r.randint(0, 3)
    elif r.random() < .2:
        im["nib4"] = [r.randint(0, 3) for _ in range(4)]
    if r.random() < .25:
        im["invert"] = r.choice(["VERTICAL", "HORIZONTAL", "BOTH"])
    if r.random() < .3:
        im["interp"] = r.choice(["YES", "NO"])
    if r.random() < .4:
        im["sky"] = r.choice(["YES", "NO"])
    if r.random() < .2:
        im["oa"] = [src["w"] / 2, src["h"] / 2]
    if r.random() < .2:
        im["emi"] = r.choice([60, 75, 85])
    if r.random() < .3:
        im["term"] = r.choice(["YES", "NO"])
    if r.random() < .1:
        im["geom"] = r.choice(["YES", "NO"])
    g = r.random()
    if g < .15:
        im["arcsec"] = round(im["km"] / im["range"] / 4.8481e-6, 5)
        del im["km"]
    elif g < .3:
        im["lens"] = [1000.0, round(im["range"] / im["km"] / 1000.0, 6)]
        del im["km"]
    if r.random() < .12:
        im["latlon"] = [round(im["so"][0] + r.uniform(-40, 40), 1), round((im["so"][1] + r.uniform(-40, 40)) % 360, 1)]
    return im


def gen_proj(r, body):
    t = r.choice(["MERCATOR", "ORTHO", "P_STEREO", "SIMPLE_C", "SIMPLE_C"])
    p = {"type": t}
    if r.random() < .6:
        p["avg"] = r.choice([None, "NONE", "UNWEIGHTED", "WEIGHTED"])
        p["options"] = True
        if t == "ORTHO":
            k = r.randint(0, 5)
            if k >= 1:
                p["so"] = [round(r.uniform(-60, 60), 1), round(r.uniform(0, 360), 1)]
            if k >= 2:
                p["pa"] = round(r.uniform(0, 359), 1)
            if k >= 3:
                p["km"] = None  # filled from the size
            if k == 4:
                p["center"] = "mid"
        elif t == "P_STEREO":
            p["pole"] = r.choice(["N", "S"])
            if r.random() < .5:
                p["maxlat"] = r.choice([30, 45, 10]) if p["pole"] == "N" else r.choice([-30, -45, -10])
        elif t == "SIMPLE_C":
            if r.random() < .4:
                p["lattype"] = r.choice(["CENTRIC", "GRAPHIC"])
            if r.random() < .4:
                p["lat"] = [-60, 55]
            if r.random() < .3:
                p["lon"] = [20, 300]
    return p


def gen_plane(r, sources, body, virtual_only=False, simple=False):
    k = r.choice(["image"] * 5 + ["mosaic"] * 2 + ["mu", "mu0", "phase", "lat", "lon"])
    if virtual_only and k in ("image", "mosaic"):
        k = r.choice(["mu", "mu0", "phase", "lat", "lon"])
    p = {"kind": k}
    if k in ("image", "mosaic"):
        n = 1 if k == "image" else r.choice([2, 2, 3, 3, 3, 4, 6])
        p["images"] = [gen_image(r, r.choice(sources), body, simple) for _ in range(n)]
    elif k == "mu":
        p.update(so=[round(r.uniform(-50, 50), 1), round(r.uniform(0, 350), 1)], range=body[1] * 30)
    elif k == "mu0":
        p.update(ss=[round(r.uniform(-50, 50), 1), round(r.uniform(0, 350), 1)])
    elif k == "phase":
        p.update(so=[round(r.uniform(-50, 50), 1), round(r.uniform(0, 350), 1)], range=body[1] * 30,
                 ss=[round(r.uniform(-50, 50), 1), round(r.uniform(0, 350), 1)])
    elif k == "lat":
        p["lattype"] = r.choice([None, "CENTRIC", "GRAPHIC"])
    return p


def gen_map(r, i, sources, size=None, simple=False):
    body = r.choice(BODIES)
    m = {"out": "out%d.fits" % i, "body": list(body), "rot": r.choice(["PROGRADE", "PROGRADE", "RETROGRADE"]),
         "proj": gen_proj(r, body)}
    if r.random() < .15:
        m["out"] = "maps/" + m["out"]
    if r.random() < .08:
        m["out"] += ".gz"
    if r.random() < .3:
        m["author"] = "Ann_O'%d" % i
    if r.random() < .3:
        m["origin"] = "Lab%d" % i
    m["comments"] = ["c%d-%d %s" % (i, j, "x" * r.randint(0, 90)) for j in range(r.choice([0, 0, 1, 3]))]
    if r.random() < .04:
        m["comments"] = ["many %d %s" % (j, "y" * 60) for j in range(150)]
    if m["comments"] and r.random() < .2:
        c = r.choice(["----", m["comments"][0]])
        for _ in range(r.randint(1, 3)):
            m["comments"].insert(r.randrange(len(m["comments"]) + 1), c)
    m["radii"] = r.choice(["ep", "pe", "ef", "fe", "pf", "fp"])
    np_ = r.choice([1, 1, 2, 3]) if r.random() < .97 else r.randint(4, 12)
    m["planes"] = [gen_plane(r, sources, body, not sources, simple) for _ in range(np_)]
    # Data type: mandatory unless a photo decides it.
    if r.random() < .8 or not any(p["kind"] in ("image", "mosaic") for p in m["planes"]):
        m["dtype"] = r.choice(list(DTYPES))
        if DTYPES[m["dtype"]] > 0 and r.random() < .4:
            m["blank"] = r.choice([0, 0, 255, 7, 100])
    size = size or r.choice(["s", "s", "s", "m", "m", "l"])
    if size == "s":
        m["samples"], m["lines"] = r.randint(1, 30), r.randint(1, 24)
    elif size == "m":
        m["samples"], m["lines"] = r.randint(40, 90), r.randint(40, 80)
    elif r.random() < .95:
        m["samples"], m["lines"] = r.randint(150, 260), r.randint(120, 200)
    else:
        m["samples"], m["lines"] = r.randint(300, 700), r.randint(250, 500)
    # What the oracles can afford.
    room = 450000 if r.random() < .3 else 200000
    if m["samples"] * m["lines"] * np_ > room:
        m["lines"] = max(1, room // (m["samples"] * np_))
    if m["proj"]["type"] == "MERCATOR":
        # Taller Mercator maps run into the poles.
        m["lines"] = min(m["lines"], 5 * m["samples"])
    if r.random() < .5:
        m["grid"] = r.choice([{}, {"both": r.choice([10, 30, 7.5])}, {"lat": 15}, {"lon": 20}, {"lat": 12, "lon": 24}])
        m["xcomments"] = ["x%d-%d" % (i, j) for j in range(r.choice([0, 0, 1, 2]))]
        if m["xcomments"] and r.random() < .2:
            m["xcomments"].append(m["xcomments"][-1])
    elif r.random() < .2:
        m["grid"] = "NO"
    m["planekw"] = r.random() < .3
    for p in m["planes"]:
        # What does not fit the map's data type is refused by design: keep workloads valid.
        if p["kind"] == "lon" and m.get("dtype", "BYTE") == "BYTE":
            p["kind"] = "lat"
        if p["kind"] in ("image", "mosaic") and r.random() < .2:
            p["min"] = 5
        if p["kind"] in ("image", "mosaic") and r.random() < .2:
            p["max"] = r.choice([120, 240])
    return m


def gen_scenario(r, nmaps=None, nsrc=None, size=None, config=None, flat=True):
    nsrc = r.choice([1, 2, 2, 3]) if nsrc is None else nsrc
    srcs = [gen_source(r, i) for i in range(nsrc)]
    if srcs and r.random() < .02:
        srcs[0].update(w=r.choice([400, 401, 420]), h=350)
    nmaps = nmaps or r.choice([1, 1, 1, 2, 3])
    maps = [gen_map(r, i, srcs, size) for i in range(nmaps)]
    scn = {"sources": srcs, "maps": maps, "files": split_files(r, nmaps), "pre": {}}
    if config if config is not None else r.random() < .25:
        scn["config"] = r.choice([{"both": 15}, {"both": 12, "nibble": 2}, {"lat": 12, "lon": 18},
                                  {"both": 9, "nib4": [1, 2, 1, 0]}, {"nibble": 1}, {"nib4": [2, 0, 1, 1]}, {"lon": 20}, {"lat": 45, "nibble": 1}])
    # Flat field: same size as the photo it corrects.
    if flat and r.random() < .2:
        for m in maps:
            for p in m["planes"]:
                for im in p.get("images", []):
                    s = source(scn, im["src"])
                    f = {"name": "flat_%s" % s["name"], "w": s["w"], "h": s["h"], "bitpix": -32, "base": 1.0,
                         "dx": r.choice([0, .25]), "dy": r.choice([0, .125]), "chk": s["chk"], "gz": s["gz"], "keys": [], "flat": True}
                    if not any(x["name"] == f["name"] for x in scn["sources"]):
                        scn["sources"].append(f)
                    im["flat"] = f["name"]
                    break
                else:
                    continue
                break
    for m in maps:
        if r.random() < .35:
            scn["pre"][m["out"]] = r.choice(["junk", "oldmap", "longer", "empty", "symlink", "hardlink", "dangling"])
    if r.random() < .15:
        scn["noxdg"] = True  # the configuration is in ~/.config
    if r.random() < .15:
        scn["oldrc"] = r.choice(["GRID_INTERVAL: 7\nNIBBLE: 3\n", "not a configuration\n"])  # ~/.marc, no longer used
    return scn


def config_path(scn):
    return "home/.config/marc" if scn.get("noxdg") else "cfg/marc"


def closeup(r, scn):
    """Pictures of a few pixels, all of them (corners included) on the body."""
    for s in scn["sources"]:
        if not s.get("flat"):
            s["w"], s["h"] = r.choice([(5, 5), (4, 3), (7, 2), (3, 8), (2, 2), (6, 6)])
            s.pop("holes", None)
            for f in scn["sources"]:
                if f["name"] == "flat_" + s["name"]:
                    f["w"], f["h"] = s["w"], s["h"]
    (scn.get("config") or {}).pop("nibble", None)
    (scn.get("config") or {}).pop("nib4", None)
    for m in scn["maps"]:
        for pl in m["planes"]:
            for im in pl.get("images", []):
                s = source(scn, im["src"])
                new = gen_image(r, s, m["body"], simple=True)
                im.pop("nibble", None)
                im.pop("nib4", None)
                if min(s["w"], s["h"]) > 4 and r.random() < .3:
                    im["nib4"] = [r.randint(0, 1) for _ in range(4)]
                for k in ("oa", "geom", "arcsec", "lens", "latlon", "emi"):
                    im.pop(k, None)
                im.update({k: new[k] for k in ("so", "ss", "range", "pa")},
                          center=[s["w"] / 2, s["h"] / 2], km=round(m["body"][1] * r.uniform(.5, 1.2) / max(s["w"], s["h"]), 4))


def holdable(scn, m):
    """A BLANK of a source that the map's data type cannot hold is refused."""
    used = [source(scn, im["src"]) for pl in m["planes"] for im in pl.get("images", [])]
    if "blank" in m or not any(x.get("hole", 0) < 0 for x in used):
        return
    if m.get("dtype") == "BYTE":
        m["blank"] = 0
    elif "dtype" not in m and any(x["bitpix"] == 8 for x in used):
        # without DATA_TYPE, the type of one of the sources is taken
        m["dtype"] = "SHORT"


def enrich(r, scn, sources=True):
    """Rarer ways to say things: notations, optional and deprecated entries, unusual source files."""
    if sources:
        for s in scn["sources"]:
            if s.get("flat"):
                continue
            if r.random() < .12 and not any(k[0] == "DATAMAX" for k in s["keys"]):
                s["keys"] += [["BSCALE", r.choice([2.0, 0.5, 0.25])], ["BZERO", r.choice([0.0, 3.0, -8.0, 10.5])]]
            if r.random() < .15:
                s["deep"] = r.choice([1, 2, 3])
            if r.random() < .12:
                s["ext"] = r.choice([1, 2])
            if "holes" in s and s["bitpix"] > 0 and r.random() < .5:
                s["hole"] = r.choice([255, 1] if s["bitpix"] == 8 else [-1, -999, 1])
                s["keys"] = [["BLANK", s["hole"]] if k[0] == "BLANK" else k for k in s["keys"]]
    for m in scn["maps"]:
        p = m["proj"]
        holdable(scn, m)
        worded = r.random() < .6
        if worded:
            m["sp"] = r.randrange(1 << 30)
        if r.random() < .1:
            m["transform"] = r.choice([[-1.3, None], [None, 0.0001], [2, 3]])
        if p["type"] == "ORTHO" and r.random() < .7:
            p["options"] = True
            for k in ("so", "pa", "km", "center"):
                p.pop(k, None)
            k = r.choice(["so", "pa", "km", "center", "all", "all", "all", "pole"])
            if k in ("so", "all"):
                p["so"] = [round(r.uniform(-80, 80), 1), round(r.uniform(0, 360), 1)]
            if k == "pole":
                p["so"] = [r.choice([90, -90]), r.choice([0, round(r.uniform(0, 360), 1)])]
            if k in ("pa", "all") or k == "pole" and r.random() < .5:
                p["pa"] = round(r.uniform(0, 359), 1)
            if k in ("km", "all"):
                p["km"] = None
            if k in ("center", "all"):
                p["center"] = r.choice([
                    [round(m["samples"] * r.uniform(.2, .8), 2), round(m["lines"] * r.uniform(.2, .8), 2)],
                    {"lat": round(max(-80, min(80, p.get("so", (0, 0))[0] + r.uniform(-40, 40))), 1),
                     "lon": round((p.get("so", (0, 0))[1] + r.uniform(-40, 40)) % 360, 1)}])
        elif p["type"] == "SIMPLE_C" and r.random() < .5:
            p["options"] = True
            a = r.randint(-90, 60)
            p["lat"] = [a, r.randint(a + 10, 90)]
            a = r.randint(0, 359)
            p["lon"] = [a, r.choice([(a + r.randint(10, 340)) % 360, a])]
            if r.random() < .4:
                p["lattype"] = r.choice(["CENTRIC", "GRAPHIC"])
        elif p["type"] == "P_STEREO" and r.random() < .4:
            p["options"] = True
            p["pole"] = p.get("pole", r.choice("NS"))
            p["maxlat"] = r.choice([0, 20, -20, 60, -60]) * (1 if p["pole"] == "N" else -1)
        for pl in m["planes"]:
            if worded:
                pl["sp"] = r.randrange(1 << 30)
            for im in pl.get("images", []):
                if r.random() < .08:
                    im["minnaert"] = r.choice(["AUTO", "TABLE", "0.7"])
            if pl["kind"] in ("mu", "mu0") and r.random() < .3:
                pl["unused"] = [round(r.uniform(-80, 80), 1), round(r.uniform(0, 360), 1)]
    return scn


def split_files(r, n):
    if n == 1 or r.random() < .5:
        return [list(range(n))]
    if r.random() < .5:
        return [[i] for i in range(n)]
    k = r.randint(1, n - 1)
    return [list(range(k)), list(range(k, n))]


def source(scn, name):
    for s in scn["sources"]:
        if s["name"] == name:
            return s
    raise KeyError(name)


# ------------------------------------------------------------------ rendering
def source_values(s):
    w, h, bp = s["w"], s["h"], s["bitpix"]
    hole = s.get("holes")
    lim = IMAX.get(bp)
    lost = s.get("lost", [])
    out = []
    for k in range(h):
        for i in range(w):
            if (hole and hole[0] <= i < hole[2] and hole[1] <= k < hole[3]
                    or lost and any(l[0] <= i < l[2] and l[1] <= k < l[3] for l in lost)):
                v = s.get("hole", 0) if bp > 0 else math.nan
            else:
                v = s["base"] + s["dx"] * i + s["dy"] * k
                if lim:
                    v = min(int(v), lim)
            out.append(v)
    return out


_src_cache = {}


def source_bytes(s):
    key = repr(sorted(s.items()))
    if key not in _src_cache:
        if len(_src_cache) > 200:
            _src_cache.clear()
        v = source_values(s)
        for n in range(1, s.get("deep", 1)):
            # further planes, which are not to be used
            v = v + [99 - n] * (s["w"] * s["h"])
        b = fits.make(s["w"], s["h"], s["bitpix"], v, [tuple(k) for k in s["keys"]], s["chk"], s["gz"], s.get("deep", 0), s.get("ext", 0))
        _src_cache[key] = b
    return _src_cache[key]


def f_(x):
    return repr(x) if isinstance(x, float) else str(x)


class Say:
    """How a request is worded; without a seed, plainly."""

    def __init__(self, m, sp=None):
        self.r = None if sp is None else random.Random(sp)
        self.pro = m["rot"] == "PROGRADE"
        self.k = (m["body"][1] / m["body"][2]) ** 2
        if m.get("radii", "ep") not in ("ep", "pe"):
            self.k = 1 / (1 - round(1 - m["body"][2] / m["body"][1], 9)) ** 2

    def odd(self, p=.5):
        return self.r is not None and self.r.random() < p

    def num(self, x):
        t = f_(x)
        if self.odd(.3):
            t = self.r.choice(["(%s)", "2 * %s / 2", "0 + %s", "%s + 0", "sqrt(4) * %s / 2", "(%s)^1", "sin(0) + %s", "%s * cos(0)",
                               "-(-1 * %s)", "(1 + 1) * %s / (3 - 1)", "(2^2 * (%s)) / 4", "(%s) / (2 * 3 / 6)",
                               "tan(0) + %s", "exp(0) * %s", "ln(exp(1)) * %s", "asin(0) + %s", "%s + acos(1)", "atan(0) + %s", "%s" + "E0" * ("e" not in t),
                               "0 + 2 * %s / 2 - 0", "8 / 2 / 2 * %s / 2", "(5 - 3 - 1) * %s", "%s - 0 - 0", "2 * %s - %s"]).replace("%s", t)
            t = t.replace(" - ", " - ")
        return t

    def lat(self, x):
        if not self.odd():
            return self.num(x)
        k = self.r.randrange(4)
        if k == 0:
            return self.num(abs(x)) + (" S" if x < 0 else " N")
        if k == 1:
            return self.num(x) + " C"
        if k == 2 and abs(x) < 89:
            g = math.degrees(math.atan(self.k * math.tan(math.radians(x))))
            return self.num(abs(g)) + (" S G" if x < 0 else " N G") if self.odd() else self.num(g) + " G"
        return self.num(abs(x)) + (" S C" if x < 0 else " N C")

    def lon(self, x):
        if not self.odd() or not 0 < x < 360:
            return self.num(x)
        k = self.r.randrange(3)
        if k == 0:
            return self.num(x) + (" W" if self.pro else " E")
        if k == 1:
            return self.num(360 - x) + (" E" if self.pro else " W")
        return self.num(x - 360)

    def turn(self, x):
        if not self.odd() or not 0 < x < 360:
            return self.num(x)
        return [self.num(x) + " CCW", self.num(360 - x) + " CW", self.num(x - 360)][self.r.randrange(3)]

    def range(self, x):
        if not self.odd():
            return self.num(x)
        return self.num(x) + " KM" if self.odd() else self.num(x / 149597870.7) + " AU"

    def yes(self, t):
        return self.r.choice([t, t[0], t.lower()]) if self.odd() else t

    def pair(self, a, b):
        return [b, a] if self.odd(.4) else [a, b]

    def layout(self, lines):
        if self.r is None:
            return lines
        out = []
        for l in lines:
            if self.odd(.08):
                out.append(self.r.choice(["", "# a remark", "   ", "\t# MAP: nothing.fits", "#"]))
            k, c, v = l.partition(":")
            free = k in ("COMMENT", "XCOMMENT", "AUTHOR", "ORIGIN")
            if self.odd(.2):
                k = k.lower() if self.odd() else k.capitalize()
            if not free:
                if self.odd(.2):
                    k, v = "  " + k + " ", "\t" + v + " "
                if self.odd(.08) and c and k.strip().upper() in NUMERIC:
                    v += "  # that is it"
            out.append(k + c + v)
        return out


NUMERIC = {"SUB_OBSERV_LAT", "SUB_OBSERV_LON", "SUB_SOLAR_LAT", "SUB_SOLAR_LON", "RANGE", "KM_PER_PIXEL", "SAMPLES", "LINES", "EQ_RAD",
           "POL_RAD", "FLATTENING", "POSITION_ANGLE", "LAT_AT_CENTER", "LON_AT_CENTER", "DATA_BLANK", "GRID_INTERVAL", "NIBBLE"}


def image_text(im, y):
    t = ["IMAGE: %s" % im["src"]]
    if "nibble" in im:
        t.append("NIBBLE: %d" % im["nibble"])
    if "nib4" in im:
        n = ["NIBBLE_%s: %d" % kv for kv in zip(("LEFT", "RIGHT", "TOP", "BOTTOM"), im["nib4"])]
        a, b = y.pair(y.pair(n[0], n[1]), y.pair(n[2], n[3]))
        t += a + b
    if "invert" in im:
        t.append("INVERT: " + im["invert"])
    if "interp" in im:
        t.append("INTERPOLATE: " + y.yes(im["interp"]))
    if "sky" in im:
        t.append("REMOVE_SKY: " + y.yes(im["sky"]))
    if "latlon" in im:
        t += y.pair("LAT_AT_CENTER: " + y.lat(im["latlon"][0]), "LON_AT_CENTER: " + y.lon(im["latlon"][1]))
    else:
        t += y.pair("SAMPLE_CENTER: " + y.num(im["center"][0]), "LINE_CENTER: " + y.num(im["center"][1]))
    if "oa" in im:
        t += y.pair("SAMPLE_OA: " + y.num(im["oa"][0]), "LINE_OA: " + y.num(im["oa"][1]))
    if "flat" in im:
        t.append("FLAT_FIELD: " + im["flat"])
    if "minnaert" in im:
        t.append("MINNAERT: " + im["minnaert"])
    if "geom" in im:
        t.append("GEOM_CORRECT: " + y.yes(im["geom"]))
    if "emi" in im:
        t.append("EMI_ANG_LIMIT: " + y.num(im["emi"]))
    if "term" in im:
        t.append("TERMINATOR: " + y.yes(im["term"]))
    t += y.pair("SUB_OBSERV_LAT: " + y.lat(im["so"][0]), "SUB_OBSERV_LON: " + y.lon(im["so"][1]))
    t.append("POSITION_ANGLE: " + y.turn(im["pa"]))
    t += y.pair("SUB_SOLAR_LAT: " + y.lat(im["ss"][0]), "SUB_SOLAR_LON: " + y.lon(im["ss"][1]))
    t.append("RANGE: " + y.range(im["range"]))
    if "arcsec" in im:
        t.append("ARCSEC_PER_PIX: " + y.num(im["arcsec"]))
    elif "lens" in im:
        t += y.pair("FOCAL_LENGTH: " + y.num(im["lens"][0]), "PIXEL_SCALE: " + y.num(im["lens"][1]))
    else:
        t.append("KM_PER_PIXEL: " + y.num(im["km"]))
    return t


def plane_text(p, n, y):
    t = ["PLANE: %s" % (n if n else "")]
    mm = ["DATA_%s: %s" % (k.upper(), y.num(p[k])) for k in ("min", "max") if k in p]
    t += y.pair(*mm) if len(mm) == 2 else mm
    k = p["kind"]
    if k in ("image", "mosaic"):
        for im in p["images"]:
            t += image_text(im, y)
    elif k == "lat":
        l = p.get("lattype")
        if l and y.odd(.3):
            t.append("LATITUDE: " + y.r.choice([l, l + "_LAT"]))
        else:
            t.append("LATITUDE: " + (("LATITUDE_TYPE: " + l) if l else ""))
    elif k == "lon":
        t.append("LONGITUDE")
    else:
        t.append({"mu": "MU:", "mu0": "MU0:", "phase": "PHASE:"}[k])
        so = p.get("so", p.get("unused"))
        ss = p.get("ss", p.get("unused"))
        if so:
            t += y.pair("SUB_OBSERV_LAT: " + y.lat(so[0]), "SUB_OBSERV_LON: " + y.lon(so[1]))
            t.append("RANGE: " + y.range(p.get("range", 9e6)))
        if ss:
            t += y.pair("SUB_SOLAR_LAT: " + y.lat(ss[0]), "SUB_SOLAR_LON: " + y.lon(ss[1]))
    return t


PLAIN = Say({"rot": "", "body": ["", 1, 1]})


def grid_text(g, y=PLAIN):
    if "both" in g:
        return ["GRID_INTERVAL: " + y.num(g["both"])]
    t = []
    if "lat" in g:
        t.append("LAT_GRID_INTERVAL: " + y.num(g["lat"]))
    if "lon" in g:
        t.append("LON_GRID_INTERVAL: " + y.num(g["lon"]))
    return y.pair(*t) if len(t) == 2 else t


def ortho_km(m):
    return round(2.2 * m["body"][1] / max(2, min(m["samples"], m["lines"])), 3)


def map_text(m):
    y = Say(m, m.get("sp"))
    t = ["MAP: " + m["out"]]
    if "author" in m:
        t.append("AUTHOR: " + m["author"])
    if "origin" in m:
        t.append("ORIGIN: " + m["origin"])
    t += ["COMMENT: " + c for c in m.get("comments", [])]
    t += ["XCOMMENT: " + c for c in m.get("xcomments", [])]
    n, eq, pol = m["body"]
    t.append("BODY: " + n)
    parts = {"e": "EQ_RAD: " + y.num(eq), "p": "POL_RAD: " + y.num(pol), "f": "FLATTENING: " + y.num(round(1 - pol / eq, 9))}
    t += [parts[c] for c in m.get("radii", "ep")]
    t.append("ROTATION: " + m["rot"])
    if "transform" in m:
        t += [k + y.num(v) for k, v in zip(("DATA_OFFSET: ", "DATA_SCALE: "), m["transform"]) if v is not None]
    if "dtype" in m:
        t.append("DATA_TYPE: " + m["dtype"])
    if "blank" in m:
        t.append("DATA_BLANK: %d" % m["blank"])
    g = m.get("grid")
    if g == "NO":
        t.append("GRID: " + y.yes("NO"))
    elif g is not None:
        t.append("GRID: " + y.yes("YES"))
        t += grid_text(g, y)
    p = m["proj"]
    t.append(("PROJECTION: " if y.odd() else "TYPE: ") + p["type"])
    if p.get("options"):
        t.append("OPTIONS:")
        if p.get("avg"):
            t.append("AVERAGING: " + p["avg"])
        if p["type"] == "ORTHO":
            if "so" in p:
                t += y.pair("SUB_OBSERV_LAT: " + y.lat(p["so"][0]), "SUB_OBSERV_LON: " + y.lon(p["so"][1]))
            if "pa" in p:
                t.append("POSITION_ANGLE: " + y.turn(p["pa"]))
            if "km" in p:
                t.append("KM_PER_PIXEL: " + y.num(ortho_km(m)))
            c = p.get("center")
            if c == "mid":
                c = [m["samples"] / 2, m["lines"] / 2]
            if isinstance(c, dict):
                t += y.pair("LAT_AT_CENTER: " + y.lat(c["lat"]), "LON_AT_CENTER: " + y.lon(c["lon"]))
            elif c:
                t += y.pair("SAMPLE_CENTER: " + y.num(c[0]), "LINE_CENTER: " + y.num(c[1]))
        elif p["type"] == "P_STEREO":
            t.append("POLE: " + (y.r.choice(["N", "NORTH", "n"] if p["pole"] == "N" else ["S", "SOUTH", "s"]) if y.odd() else p["pole"]))
            if "maxlat" in p:
                t.append("MAX_LAT: " + y.lat(p["maxlat"]))
        elif p["type"] == "SIMPLE_C":
            l = p.get("lattype")
            if l:
                t.append(l if y.odd(.2) else "LATITUDE_TYPE: " + l)
            a = y.pair("LO_LAT: " + y.lat(p["lat"][0]), "HI_LAT: " + y.lat(p["lat"][1])) if "lat" in p else []
            b = y.pair("LO_LON: " + y.lon(p["lon"][0]), "HI_LON: " + y.lon(p["lon"][1])) if "lon" in p else []
            a, b = y.pair(a, b)
            t += a + b
    kw = m.get("planekw")
    if kw:
        t.append("PLANES: %d" % len(m["planes"]))
    t += ["SAMPLES: %d" % m["samples"], "LINES: %d" % m["lines"]]
    for i, pl in enumerate(m["planes"]):
        t += plane_text(pl, i + 1 if kw else 0, Say(m, pl.get("sp")))
    return "\n".join(y.layout(t)) + "\n"


def config_text(c):
    t = grid_text(c)
    if "min" in c:
        t.append("DATA_MIN: %s" % f_(c["min"]))
    if "max" in c:
        t.append("DATA_MAX: %s" % f_(c["max"]))
    if "nibble" in c:
        t.append("NIBBLE: %d" % c["nibble"])
    if "nib4" in c:
        t += ["NIBBLE_%s: %d" % kv for kv in zip(("LEFT", "RIGHT", "TOP", "BOTTOM"), c["nib4"])]
    return "\n".join(t) + "\n"


PRE = {"junk": b"this is not a FITS file\n" * 40, "empty": b"",
       "longer": b"\x5a" * 900000}
_old = fits.make(12, 10, 16, list(range(120)), [("OBJECT", "OldMap"), ("EXTNAME", "OLD")], True)


def pre_bytes(kind):
    return _old if kind == "oldmap" else PRE[kind]


def render(scn):
    """{path: bytes}, and links {path: ('sym'|'hard', target)}."""
    fs = {}
    for s in scn["sources"]:
        fs[s["name"]] = source_bytes(s)
    for i, ms in enumerate(scn["files"]):
        fs["in%d.marc" % i] = "\n".join(map_text(scn["maps"][k]) for k in ms).encode()
    if scn.get("config"):
        fs[config_path(scn)] = config_text(scn["config"]).encode()
    if scn.get("oldrc"):
        fs["home/.marc"] = scn["oldrc"].encode()
    fs["home/notes.txt"] = b"do not touch\n"
    links = {}
    for o, k in scn.get("pre", {}).items():
        if k in ("symlink", "hardlink"):
            fs["precious_%s" % os.path.basename(o)] = b"precious bytes of %s\n" % o.encode() * 200
            links[o] = ("sym" if k == "symlink" else "hard", "precious_%s" % os.path.basename(o))
        elif k == "dangling":
            links[o] = ("sym", "gone_%s" % os.path.basename(o))
        elif k == "source":
            links[o] = ("sym", scn["sources"][0]["name"])
        else:
            fs[o] = pre_bytes(k)
    for k in scn.get("raw", {}):
        fs[k] = scn["raw"][k].encode("latin-1")
    for k in scn.get("absent", []):
        fs.pop(k, None)
    for k, how in scn.get("unreadable", {}).items():
        fs.pop(k, None)
        links[k] = (how, k)
    return fs, links


def outputs(scn):
    return [m["out"] for m in scn["maps"]]


def place(rendered, d):
    fs, links = rendered
    for p, b in fs.items():
        q = os.path.join(d, p)
        if "/" in p:
            os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(b)
    for sub in ("maps", "cfg", "home"):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    for p, (k, t) in links.items():
        q = os.path.join(d, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if k in ("sym", "loop"):
            os.symlink(os.path.join(d, t), q)
        elif k == "dir":
            os.makedirs(q)
        else:
            os.link(os.path.join(d, t), q)


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            q = os.path.join(root, f)
            rel = os.path.relpath(q, d)
            if os.path.islink(q):
                out[rel] = ("link", os.readlink(q))
            else:
                with open(q, "rb") as fh:
                    out[rel] = ("file", fh.read())
        for x in dirs:
            if os.path.islink(os.path.join(root, x)):
                out[os.path.relpath(os.path.join(root, x), d)] = ("link", "")
    return out


def job(scn, d, args=None, **kw):
    env = {"HOME": d + "/home", "XDG_CONFIG_HOME": d + "/cfg", "LC_ALL": "C", "PATH": "/usr/bin:/bin"}
    if scn.get("noxdg"):
        env.pop("XDG_CONFIG_HOME")
    env.update(kw.pop("env", {}))
    j = {"dir": d, "args": args if args is not None else ["in%d.marc" % i for i in range(len(scn["files"]))], "env": env}
    j.update(kw)
    return j
