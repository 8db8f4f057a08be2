"""Reference model: which values each element of a finished map may hold.

Plain arithmetic from the request and the source images alone.  Where the
outcome hangs on the last digits (an element at the limb, a pixel boundary, a
range limit), every outcome within the tolerance is admissible.
"""
import itertools, math, struct
from . import work

DEG = math.pi / 180
PIX = 1e-5      # uncertainty of a pixel coordinate
COS = 1e-9      # uncertainty of a cosine that is compared with a limit
AU = 149597870.7
hypot, sin, cos, tan, atan2 = math.hypot, math.sin, math.cos, math.tan, math.atan2
INT = {8: (0, 255), 16: (-2 ** 15, 2 ** 15 - 1), 32: (-2 ** 31, 2 ** 31 - 1), 64: (-2 ** 63, 2 ** 63 - 1)}
FMAX = {-32: 3.4028234663852886e38, -64: 1.7976931348623157e308}


# ----------------------------------------------------------------- 3-vectors
def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def app(a, v):
    return (a[0][0] * v[0] + a[0][1] * v[1] + a[0][2] * v[2], a[1][0] * v[0] + a[1][1] * v[1] + a[1][2] * v[2],
            a[2][0] * v[0] + a[2][1] * v[1] + a[2][2] * v[2])


def rx(t):
    return [[1, 0, 0], [0, cos(t), sin(t)], [0, -sin(t), cos(t)]]


def ry(t):
    return [[cos(t), 0, -sin(t)], [0, 1, 0], [sin(t), 0, cos(t)]]


def rz(t):
    return [[cos(t), sin(t), 0], [-sin(t), cos(t), 0], [0, 0, 1]]


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


# ---------------------------------------------------------------------- body
class Body:
    def __init__(self, m):
        _, a, c = m["body"]
        f = round(1 - c / a, 9)
        r = set(m.get("radii", "ep"))
        if r == {"e", "f"}:
            c = a * (1 - f)
        elif r == {"p", "f"}:
            a = c / (1 - f)
        self.a, self.c, self.pro = a, c, m["rot"] == "PROGRADE"
        self.e = math.sqrt((a - c) * (a + c)) / a
        self.k = (a / c) ** 2

    def graphic(self, lat):
        return math.atan(self.k * tan(lat))

    def centric(self, latg):
        return math.atan(tan(latg) / self.k)

    def radius(self, lat):
        return 1 / hypot(cos(lat) / self.a, sin(lat) / self.c)

    def mu(self, so, lat, lon, rng):
        g, r = self.graphic(lat), self.radius(lat)
        d = cos(so[1] - lon)
        n = rng * sin(so[0]) * sin(g) - r * cos(lat - g) + rng * cos(so[0]) * cos(g) * d
        return n / math.sqrt(rng * rng + r * r - 2 * rng * r * (sin(so[0]) * sin(lat) + cos(so[0]) * cos(lat) * d))

    def mu0(self, ss, lat, lon):
        g = self.graphic(lat)
        return sin(ss[0]) * sin(g) + cos(ss[0]) * cos(g) * cos(ss[1] - lon)

    def phase(self, so, ss, lat, lon, rng):
        # Angle between the directions from the point to the observer and to the sun.
        def unit(p):
            return (cos(p[0]) * cos(p[1]), cos(p[0]) * sin(p[1]), sin(p[0]))
        r = self.radius(lat)
        p = [x * r for x in unit((lat, lon))]
        o = [x * rng - y for x, y in zip(unit(so), p)]
        s = unit(ss)
        return sum(x * y for x, y in zip(o, s)) / math.sqrt(sum(x * x for x in o))


# --------------------------------------------------------------- projections
def monotone(f, y, lo, hi):
    up = f(hi) > f(lo)
    for _ in range(200):
        x = (lo + hi) / 2
        if x in (lo, hi):
            break
        if (f(x) < y) == up:
            lo = x
        else:
            hi = x
    return (lo + hi) / 2


class Grid:
    """Latitude and longitude of map elements: at(i, k) -> (lat, lon, sure) or None (not on the body)."""

    def __init__(self, m, body):
        self.m, self.b, self.p, self.n, self.l = m, body, m["proj"], m["samples"], m["lines"]
        self.at = getattr(self, "at_" + self.p["type"].lower())
        getattr(self, "init_" + self.p["type"].lower())()
        self.memo = {}

    def init_simple_c(self):
        p, b = self.p, self.b
        lat = [x * DEG for x in p.get("lat", (-90, 90))]
        lon = [x * DEG for x in p.get("lon", (0, 360))]
        self.graphic = p.get("lattype") == "GRAPHIC"
        if self.graphic:
            lat = [b.graphic(x) for x in lat]
        if lon[0] > lon[1]:
            lon[0] -= 2 * math.pi
        elif lon[0] == lon[1]:
            lon[1] += 2 * math.pi
        self.lat, self.lon = lat, lon

    def at_simple_c(self, i, k):
        lat = self.lat[0] + (k + .5) * (self.lat[1] - self.lat[0]) / self.l
        if self.graphic:
            lat = self.b.centric(lat)
        d = (i + .5) * (self.lon[1] - self.lon[0]) / self.n
        return lat, self.lon[1] - d if self.b.pro else self.lon[0] + d, True

    def init_mercator(self):
        pass

    def at_mercator(self, i, k):
        if k not in self.memo:
            xmax = self.l / self.n * math.pi
            x = (k + .5) / self.l * 2 * xmax - xmax
            e = self.b.e
            self.memo[k] = self.b.centric(monotone(
                lambda g: math.asinh(tan(g)) - e * math.atanh(e * sin(g)), x, -math.pi / 2, math.pi / 2))
        lon = (i + .5) / self.n * 2 * math.pi
        return self.memo[k], 2 * math.pi - lon if self.b.pro else lon, True

    def init_p_stereo(self):
        p, b = self.p, self.b
        self.north = p.get("pole", "N") == "N"
        g = b.graphic(p.get("maxlat", 0) * DEG)
        self.scale = 2 * self.rho(g if self.north else -g) / min(self.n, self.l)

    def rho(self, g):
        a, e = self.b.a, self.b.e
        t = e * sin(g)
        return (2 * a * (1 + e) ** (-(1 - e) / 2) * (1 - e) ** (-(1 + e) / 2) * tan(math.pi / 4 - g / 2)
                * ((1 + t) / (1 - t)) ** (e / 2))

    def at_p_stereo(self, i, k):
        x, y = k + .5 - self.l / 2, i + .5 - self.n / 2
        r = hypot(x, y)
        if r not in self.memo:
            self.memo[r] = monotone(self.rho, self.scale * r, -math.pi / 2 + 1e-12, math.pi / 2)
        g = self.memo[r]
        return (self.b.centric(g if self.north else -g), atan2(y if self.north == self.b.pro else -y, x), r > 0)

    def init_ortho(self):
        p, b = self.p, self.b
        so = p.get("so", (0, 0))
        self.so = [x * DEG for x in so]
        self.pa = p.get("pa", 0) * DEG
        self.polar = abs(so[0]) == 90
        if self.polar:
            self.so = [math.copysign(math.pi / 2, so[0]), 0]
            self.pa = math.pi if so[0] > 0 else 0
        m = min(self.n, self.l)
        self.km = work.ortho_km(self.m) if "km" in p else 2 * max(b.a, b.c) / (.9 * m)
        c = p.get("center")
        self.cs, self.cl = self.n / 2, self.l / 2
        if isinstance(c, dict):
            lat, lon = c["lat"] * DEG, c["lon"] * DEG
            s = self.so[1] - lon
            r = b.radius(lat)
            x, y, z = r * cos(lat) * sin(s), -r * cos(lat) * cos(s), r * sin(lat)
            if not b.pro:
                x = -x
            sl, cl, sp, cp = sin(-self.so[0]), cos(-self.so[0]), sin(self.pa), cos(self.pa)
            self.cs = self.n / 2 - (x * cp + y * sp * sl - z * sp * cl) / self.km
            self.cl = self.l / 2 - (x * sp - y * sl * cp + z * cl * cp) / self.km
        elif isinstance(c, (list, tuple)):
            self.cs, self.cl = c

    def at_ortho(self, i, k):
        b = self.b
        x, z = (i + .5 - self.cs) * self.km, (k + .5 - self.cl) * self.km
        if not self.polar:
            x, _, z = app(ry(-self.pa), (x, 0, z))
        # The ray parallel to y through (x, z), in body coordinates: o + y d.
        m = rx(self.so[0])
        o, d = app(m, (x, 0, z)), app(m, (0, 1, 0))
        w = (1 / b.a, 1 / b.a, 1 / b.c)
        qa = sum((d[j] * w[j]) ** 2 for j in range(3))
        qb = sum(o[j] * d[j] * w[j] ** 2 for j in range(3))
        qc = sum((o[j] * w[j]) ** 2 for j in range(3)) - 1
        disc = qb * qb - qa * qc
        unsure = abs(disc) <= 1e-7 * qa
        if disc < 0 and not unsure:
            return None
        y = (-qb - math.sqrt(max(disc, 0))) / qa
        v = [o[j] + y * d[j] for j in range(3)]
        if self.polar:
            v = app(rz(-self.pa), v)
        lat = atan2(v[2], hypot(v[0], v[1]))
        t = atan2(-v[0], v[1])
        lon = self.so[1] - t + math.pi if b.pro else self.so[1] + t - math.pi
        return lat, lon, not unsure and not (hypot(v[0], v[1]) < 1e-6 * b.a)


# ---------------------------------------------------------------------- view
class View:
    """Photo: lat/lon -> admissible [value or None]."""

    def __init__(self, scn, m, body, im):
        self.b = body
        s = work.source(scn, im["src"])
        self.w, self.h = w, h = s["w"], s["h"]
        self.img = pixels(s)
        if "flat" in im:
            self.img = [a - b for a, b in zip(self.img, pixels(work.source(scn, im["flat"])))]
        inv = im.get("invert")
        rows = [self.img[k * w:(k + 1) * w] for k in range(h)]
        if inv in ("HORIZONTAL", "BOTH"):
            rows = [r[::-1] for r in rows]
        if inv in ("VERTICAL", "BOTH"):
            rows.reverse()
        self.rows = rows
        c = scn.get("config") or {}
        nib = im.get("nib4") or ([im["nibble"]] * 4 if "nibble" in im else None) or c.get("nib4") or [c.get("nibble", 0)] * 4
        self.left, self.right, self.top, self.bottom = nib[0], w - nib[1], nib[2], h - nib[3]
        self.interp = im.get("interp") == "YES"
        self.sky = im.get("sky") == "YES"
        self.mulim = cos(im["emi"] * DEG) if "emi" in im else 0
        self.term = im.get("term") == "YES"
        self.gll = im.get("geom") == "YES" and (2 if w <= 400 else 1)
        self.so = [x * DEG for x in im["so"]]
        self.ss = [x * DEG for x in im["ss"]]
        self.range = im["range"]
        self.oa = im.get("oa", [w / 2, h / 2])
        pa = im["pa"] * DEG
        self.rb = (0, -self.range * cos(self.so[0]), self.range * sin(self.so[0]))
        flp = im["lens"][0] * im["lens"][1] if "lens" in im else None
        self.mask, self.weights = {}, {}
        if "latlon" in im:
            km = im["km"] if "km" in im else math.pi / 648000 * im["arcsec"] * self.range if "arcsec" in im else None
            lat, lon = [x * DEG for x in im["latlon"]]
            d = self.so[1] - lon
            if not body.pro:
                d = -d
            r = body.radius(lat)
            # Look along the line of sight to that point; north up, then turned by the position angle.
            los = [p - q for p, q in zip((r * cos(lat) * sin(d), -r * cos(lat) * cos(d), r * sin(lat)), self.rb)]
            n = math.sqrt(sum(x * x for x in los))
            los = [x / n for x in los]
            o2b = mul(rz(atan2(los[0], los[1])), mul(rx(math.asin(-los[2])), ry(-pa)))
            b2o = [list(x) for x in zip(*o2b)]
            ro = app(b2o, self.rb)
            k = -ro[1] / flp if flp else km
            self.ok = dist(los, app(o2b, (0, 1, 0))) < 1e-9
            self.ways = [(b2o, -ro[1] / k, (self.oa[0] - ro[0] / k, self.oa[1] + ro[2] / k), k)]
            return
        cs, cl = im["center"]
        if "km" in im:
            km = im["km"]
        elif "arcsec" in im:
            km = math.pi / 648000 * im["arcsec"] * self.range
        else:
            km = self.range / math.sqrt((self.oa[0] - cs) ** 2 + flp ** 2 + (self.oa[1] - cl) ** 2)
        ro = [(self.oa[0] - cs) * km, 0, (cl - self.oa[1]) * km]
        ro[1] = -math.sqrt(self.range ** 2 - ro[0] ** 2 - ro[2] ** 2)
        u = [x / self.range for x in ro]
        u = app(ry(-pa), u)
        s0 = sin(self.so[0])
        qa, qb, qc = u[2] ** 2 + u[1] ** 2, u[1] * s0, s0 * s0 - u[2] ** 2
        disc = qb * qb - qa * qc
        best = None
        for sg in (1, -1):
            t = math.asin(max(-1, min(1, (-qb + sg * math.sqrt(max(disc, 0))) / qa)))
            v = app(rx(t), u)
            o2b = mul(rz(atan2(v[0], -v[1])), mul(rx(t), ry(-pa)))
            q = dist(self.rb, app(o2b, ro))
            if best is None or q < best[0]:
                best = (q, o2b)
        self.ok = disc >= 0 and best[0] < 1e-9 * self.range
        self.ways = [([list(x) for x in zip(*best[1])], flp or -ro[1] / km, (cs, cl), km)]

    ok = True

    def on_body(self, i, k, way):
        """Whether the pixel shows the body: True, False or both."""
        r = self.mask.get((i, k, id(way)))
        if r is None:
            b2o, _, c, km = way
            s, l = i - c[0], c[1] - k
            if self.gll:
                s, l = gll_inverse(s, l, self.gll)
            v = app(list(zip(*b2o)), (s * km, 0, l * km))
            d = [p - q for p, q in zip(v, self.rb)]
            w = (1 / self.b.a, 1 / self.b.a, 1 / self.b.c)
            qa = sum((d[j] * w[j]) ** 2 for j in range(3))
            qb = sum(self.rb[j] * d[j] * w[j] ** 2 for j in range(3))
            qc = sum((self.rb[j] * w[j]) ** 2 for j in range(3)) - 1
            disc = (qb * qb - qa * qc) / (qb * qb)
            r = (True, False) if abs(disc) < 1e-9 else (disc > 0,)
            self.mask[i, k, id(way)] = r
        return r

    def outcomes(self, lat, lon, sure):
        b = self.b
        out = set()
        mu = b.mu(self.so, lat, lon, self.range) - self.mulim
        mu0 = b.mu0(self.ss, lat, lon) if self.term else 1
        tol = COS if sure else 1e-3
        if mu <= tol or mu0 <= tol:
            out.add(None)
            if mu < -tol or mu0 < -tol:
                return out
        r = b.radius(lat)
        d = self.so[1] - lon if b.pro else lon - self.so[1]
        p = (r * cos(lat) * sin(d), -r * cos(lat) * cos(d), r * sin(lat))
        e = PIX if sure else 1
        for way in self.ways:
            b2o, flp = way[:2]
            v = app(b2o, [x - y for x, y in zip(p, self.rb)])
            x, z = v[0] / v[1] * flp, v[2] / v[1] * flp
            if self.gll:
                z, x = gll(z, x, self.gll)
            x, z = x + self.oa[0], self.oa[1] - z
            fx, fz = x - math.floor(x), z - math.floor(z)
            if not self.interp and e < fx < 1 - e and e < fz < 1 - e:
                self.pixel(x, z, out, way)
                continue
            for xx in (x - e, x, x + e):
                for zz in (z - e, z, z + e):
                    self.pixel(xx, zz, out, way)
        return out

    def pixel(self, x, z, out, way):
        if x < 0 or z < 0:
            out.add(None)
            return
        i, k = int(x), int(z)
        if not (self.left <= i < self.right and self.top <= k < self.bottom):
            out.add(None)
            return
        if self.sky:
            on = self.on_body(i, k, way)
            if False in on:
                out.add(None)
            if True not in on:
                return
        v = self.rows[k][i]
        if self.interp:
            v = self.bilinear(x, z, i, k)
        out.add(None if v is None or math.isnan(v) else (v,) + (self.weight(i, k, way) if self.weigh else (1, 1)))

    weigh = False

    def weight(self, i, k, way):
        """Distance to the closest edge of the picture, or to the sky where that is removed: bounds."""
        r = self.weights.get((i, k, id(way)))
        if r is None:
            lo = hi = min(i, self.w - i, k, self.h - k)
            if self.sky:
                for path in ([(x, k) for x in range(i - 1, self.left - 1, -1)], [(x, k) for x in range(i + 1, self.right)],
                             [(i, y) for y in range(k - 1, self.top - 1, -1)], [(i, y) for y in range(k + 1, self.bottom)]):
                    for n, (x, y) in enumerate(path):
                        if n + 1 >= hi:
                            break
                        on = self.on_body(x, y, way)
                        if False in on:
                            lo = min(lo, n + 1)
                            if True not in on:
                                hi = min(hi, n + 1)
                                break
            r = self.weights[i, k, id(way)] = (min(lo, hi), hi)
        return r

    def bilinear(self, x, z, l, b):
        r, t = l + 1, b + 1
        if r >= self.right or t >= self.bottom:
            return None
        lb, rb_, lt, rt = self.rows[b][l], self.rows[b][r], self.rows[t][l], self.rows[t][r]
        fx, fz = x - l, z - b
        n, s = 0, 0.0
        nan = math.isnan
        if not nan(rb_) and not nan(lb):
            s += (rb_ - lb) * fx + lb + (rb_ - lb) * fz + rb_
            n += 2
        if not nan(rt) and not nan(lt):
            s += (rt - lt) * fx + lt
            n += 1
        if not nan(lt) and not nan(lb):
            s += (lt - lb) * fz + lb
            n += 1
        return s / n if n else None


def gll(line, sample, f):
    """f: 2 for summation mode (half frames), 1 for full frames"""
    x, y = sample * f - 400, line * f - 400
    c = 1 + 0.00000000658 * (x * x + y * y)
    return (y * c + 400) / f, (x * c + 400) / f


def gll_inverse(line, sample, f):
    x, y = sample * f - 400, line * f - 400
    r = hypot(x, y)
    if r == 0:
        return line, sample
    k = 0.00000000658
    # os * (1 + k os^2) = is
    o = monotone(lambda o: o * (1 + k * o * o), r, 0, r + 1)
    return (o * y / r + 400) / f, (o * x / r + 400) / f


_pix = {}


def pixels(s):
    key = repr(sorted(s.items()))
    if key not in _pix:
        if len(_pix) > 60:
            _pix.clear()
        v = [float(x) for x in work.source_values(s)]
        kv = {k: x for k, x in s["keys"]}
        if s["bitpix"] > 0:
            if "BLANK" in kv:
                v = [math.nan if x == kv["BLANK"] else x for x in v]
        elif s["bitpix"] == -32:
            v = list(struct.unpack("%df" % len(v), struct.pack("%df" % len(v), *v)))
        if "BSCALE" in kv or "BZERO" in kv:
            v = [x * kv.get("BSCALE", 1) + kv.get("BZERO", 0) for x in v]
        _pix[key] = v
    return _pix[key]


# ---------------------------------------------------------------------- maps
def scaling(kind, bp):
    """Scale and offset that keep most digits of a virtual image in an integer map."""
    if bp < 0:
        return 1.0, 0.0
    lo, hi = {"lat": (-90, 90), "lon": (0, 360)}.get(kind, (-1, 1))
    digits = {8: 2, 16: 4, 32: 9, 64: 18}[bp]
    sc = 10.0 ** (digits - int(math.log10(hi - lo)))
    off = (hi - lo) / 2 * sc if lo * sc < INT[bp][0] else -(hi - lo) / 2 * sc if hi * sc > INT[bp][1] else 0.0
    return sc, off


class Plane:
    def __init__(self, scn, m, p, bp):
        self.b = Body(m)
        self.g = Grid(m, self.b)
        self.p, self.bp, self.kind = p, bp, p["kind"]
        cfg = scn.get("config") or {}
        lo, hi = p.get("min", cfg.get("min")), p.get("max", cfg.get("max"))
        self.sc, self.off = 1.0, 0.0
        self.ok = True
        if self.kind in ("image", "mosaic"):
            self.views = [View(scn, m, self.b, im) for im in p["images"]]
            self.ok = all(v.ok for v in self.views)
            if len(self.views) == 1:
                kv = dict((k, x) for k, x in work.source(scn, p["images"][0]["src"])["keys"])
                lo = kv.get("DATAMIN") if lo is None else lo
                hi = kv.get("DATAMAX") if hi is None else hi
            self.avg = m["proj"].get("avg") or "WEIGHTED"
            for v in self.views:
                v.weigh = self.avg == "WEIGHTED" and len(self.views) > 1
        else:
            self.sc, self.off = scaling(self.kind, bp)
            l, h = {"lat": (-90, 90), "lon": (0, 360)}.get(self.kind, (-1, 1))
            lo = l * self.sc + self.off if lo is None else lo
            hi = h * self.sc + self.off if hi is None else hi
        if bp > 0:
            a, z = INT[bp]
            lo = a if lo is None else max(a, min(z, int(lo)))
            hi = z if hi is None else max(a, min(z, int(hi)))
        else:
            lo = -FMAX[bp] if lo is None else lo
            hi = FMAX[bp] if hi is None else hi
        self.lo, self.hi = lo, hi
        self.so = [x * DEG for x in p.get("so", (0, 0))]
        self.ss = [x * DEG for x in p.get("ss", (0, 0))]

    def physical(self, i, k):
        """[(low, high) or None]: what the source may give at this element."""
        pt = self.g.at(i, k)
        if pt is None:
            return [None]
        lat, lon, sure = pt
        kind = self.kind
        if kind in ("image", "mosaic"):
            sets = [v.outcomes(lat, lon, sure) for v in self.views]
            out = []
            combos = [[]]
            for s in sets:
                combos = [c + [v] for c in combos for v in s]
                if len(combos) > 400:
                    return None
            for c in combos:
                d = [v[0] for v in c if v is not None]
                if not d:
                    out.append(None)
                elif len(d) == 1 or self.avg == "NONE":
                    out.append((d[0], d[0]))
                else:
                    x = [sum(a * b for a, b in zip(d, w)) / sum(w) if any(w) else sum(d) / len(d)
                         for w in itertools.product(*[set(v[1:]) for v in c if v is not None])]
                    out.append((min(x), max(x)))
            if not sure:
                out.append(None)
            return out
        if kind == "lat":
            x = (self.b.graphic(lat) if self.p.get("lattype") == "GRAPHIC" else lat) / DEG
        elif kind == "lon":
            x = math.fmod(lon, 2 * math.pi) / DEG
            if x < 0:
                x += 360
        elif kind == "mu":
            x = self.b.mu(self.so, lat, lon, self.p["range"])
        elif kind == "mu0":
            x = self.b.mu0(self.ss, lat, lon)
        else:
            x = self.b.phase(self.so, self.ss, lat, lon, self.p["range"])
        tol = 1e-7
        if not sure:
            return None if kind == "lon" else [None, (x - (.5 if kind == "lat" else .05), x + (.5 if kind == "lat" else .05))]
        out = [(x - tol, x + tol)]
        if kind == "lon" and (x < 1e-7 or x > 360 - 1e-7):
            out += [(0, 1e-6), (360 - 1e-6, 360)]
        return out

    def admits(self, i, k, stored, blank):
        """Whether the map may hold this stored value there; None: cannot tell."""
        ph = self.physical(i, k)
        if ph is None:
            return True
        isblank = stored == blank if blank is not None else math.isnan(stored)
        for o in ph:
            if o is None:
                if isblank:
                    return True
                continue
            l, h = (x * self.sc + self.off for x in o)
            w = 1e-9 * max(1, abs(l), abs(h)) + (PIX * 20 if self.kind in ("image", "mosaic") and any(v.interp for v in self.views) else 0)
            l, h = l - w, h + w
            if (l < self.lo + w or h > self.hi - w) and isblank:
                if l < self.lo or h > self.hi:
                    return True
            if h < self.lo or l > self.hi:
                continue
            if self.bp > 0:
                if int(l) <= stored <= int(h) and self.lo <= stored <= self.hi:
                    return True
            elif not isblank:
                t = 1e-6 * max(abs(l), abs(h)) if self.bp == -32 else 0
                if l - t <= stored <= h + t:
                    return True
        return False

    def show(self, i, k):
        ph = self.physical(i, k)
        r = sorted({"blank" if o is None else "%.9g" % (o[0] * self.sc + self.off) if o[1] - o[0] < 1e-6 else
                    "%.6g..%.6g" % (o[0] * self.sc + self.off, o[1] * self.sc + self.off) for o in ph})
        return " or ".join(r[:4])


# ---------------------------------------------------------------------- grid
def parallels(iv):
    out, v = [], -90 + iv
    while v < 90:
        out.append(v)
        v += iv
    return out


def meridians(iv):
    out, v = [], 360
    while v > 0:
        out.append(v)
        v -= iv
    return out


def grid_fault(m, lat_iv, lon_iv, marked):
    """None, or where the grid image (marked(i, k)) is not what the intervals ask for."""
    g = Grid(m, Body(m))
    if m["proj"]["type"] in ("SIMPLE_C", "MERCATOR"):
        return cylindrical(m, g, lat_iv, lon_iv, marked)
    return azimuthal(m, g, lat_iv, lon_iv, marked)


def cylindrical(m, g, lat_iv, lon_iv, marked):
    b, n, l = g.b, g.n, g.l
    rows, cols = {}, {}

    def put(d, x, size, flip=False, certain=True):
        # An element boundary may be rounded either way.
        f = math.floor(x + .5)
        near = abs(x + .5 - round(x + .5)) < 1e-6
        for c in ([round(x + .5) - 1, round(x + .5)] if near else [f]):
            c = size - c if flip else c
            if 0 <= c < size:
                d[c] = d.get(c, False) or certain and not near
    for v in parallels(lat_iv):
        if m["proj"]["type"] == "SIMPLE_C":
            lo, hi = g.lat[0] / DEG, g.lat[1] / DEG
            put(rows, (v - lo) * (l / (hi - lo)), l)
        else:
            q = b.graphic(v * DEG)
            put(rows, (math.asinh(tan(q)) - b.e * math.atanh(b.e * sin(q))) * n / (2 * math.pi) + l / 2, l)
    lo, hi = (g.lon[0] / DEG, g.lon[1] / DEG) if m["proj"]["type"] == "SIMPLE_C" else (0, 360)
    for v in meridians(lon_iv):
        for j in (-360, 0, 360):
            x = (v + j - lo) * (n / (hi - lo))
            # The very ends of the range show the same longitude; either may be marked.
            put(cols, x, n, b.pro, 1e-6 < x < n - 1e-6)
    for k in range(l):
        for i in range(n):
            on = marked(i, k)
            if on and k not in rows and i not in cols:
                return "sample %d line %d is marked although no grid line passes there" % (i, k)
            if not on and (rows.get(k) or cols.get(i)):
                return "sample %d line %d is not marked although a grid line passes there" % (i, k)
    return None


def azimuthal(m, g, lat_iv, lon_iv, marked):
    """Grid lines are drawn point by point: right to within two elements."""
    n, l = g.n, g.l
    if min(n, l) < 8 or n * l > 4000 or 180 % lat_iv or 360 % lon_iv:
        return None
    pts = {(i, k): g.at(i, k) for k in range(l) for i in range(n)}
    D = 2

    def window(i, k, d):
        return [(i + x, k + y) for y in range(-d, d + 1) for x in range(-d, d + 1)]
    for (i, k), p in pts.items():
        w = [pts.get(q) for q in window(i, k, D)]
        if any(q is None or not q[2] or abs(q[0]) > 80 * DEG for q in w):
            continue  # edge of the map or the body, or a pole
        lats = [q[0] / DEG for q in w]
        lons = [math.remainder(q[1] - p[1], 2 * math.pi) / DEG + p[1] / DEG for q in w]
        if max(lons) - min(lons) > 90:
            continue
        crossed = (math.floor((max(lats) + 90) / lat_iv) > math.floor((min(lats) + 90) / lat_iv)
                   or math.floor(max(lons) / lon_iv) > math.floor(min(lons) / lon_iv))
        if marked(i, k) and not crossed:
            return "sample %d line %d is marked, but the nearest grid lines pass elsewhere" % (i, k)
        w = [pts[q] for q in ((i, k), (i + 1, k), (i, k + 1), (i + 1, k + 1))]
        lats = [q[0] / DEG for q in w]
        lons = [math.remainder(q[1] - p[1], 2 * math.pi) / DEG + p[1] / DEG for q in w]
        e = 1e-6
        crossed = (math.floor((max(lats) + 90 - e) / lat_iv) > math.floor((min(lats) + 90 + e) / lat_iv)
                   or math.floor((max(lons) - e) / lon_iv) > math.floor((min(lons) + e) / lon_iv))
        if crossed and not any(marked(*q) for q in window(i, k, D)):
            return "a grid line passes at sample %d line %d, but none is marked near there" % (i, k)
    return None
