"""C09: maps of one run do not influence each other."""
import copy
from .. import ctx as C, fits, work
from ..runner import Check
from .faults import key_of, wrong_output, diff_norm


def bare(m):
    """The same entry with every optional keyword left out."""
    m = copy.deepcopy(m)
    for k in ("author", "origin", "blank"):
        m.pop(k, None)
    m["comments"], m["xcomments"] = [], []
    if isinstance(m.get("grid"), dict):
        m["grid"] = {}
    m["proj"] = {"type": m["proj"]["type"]}
    for p in m["planes"]:
        for k in ("min", "max", "lattype"):
            p.pop(k, None)
        for im in p.get("images", []):
            for k in ("nibble", "nib4", "invert", "interp", "oa", "emi", "term", "geom", "flat", "sky"):
                im.pop(k, None)
    return m


def explicit(scn, m, sky=False):
    """The same entry with configured values and documented defaults spelt out (no configuration needed)."""
    m = copy.deepcopy(m)
    c = scn.get("config") or {}
    lat = c.get("lat", c.get("both", 10))
    lon = c.get("lon", c.get("both", 10))
    g = m.get("grid")
    if isinstance(g, dict):
        m["grid"] = {"lat": g.get("lat", g.get("both", lat)), "lon": g.get("lon", g.get("both", lon))}
    elif g is None:
        m["grid"] = "NO"
    nib = c.get("nib4", [c.get("nibble", 0)] * 4)
    for p in m["planes"]:
        for k in ("min", "max"):
            if k in c:
                p.setdefault(k, c[k])
        if p["kind"] == "lat" and not p.get("lattype"):
            p["lattype"] = "CENTRIC"
        for im in p.get("images", []):
            if "nibble" not in im and "nib4" not in im:
                im["nib4"] = list(nib)
            im.setdefault("interp", "NO")
            if sky:
                im.setdefault("sky", "YES")
            im.setdefault("geom", "NO")
            im.setdefault("term", "NO")
    q = m["proj"]
    if q["type"] == "P_STEREO" and not q.get("options"):
        q["pole"] = "N"
    if q["type"] == "ORTHO" and ("center" not in q or "km" in q):  # the grammar has no others
        q.setdefault("so", [0, 0])
        q.setdefault("pa", 0)
    if q["type"] == "SIMPLE_C":
        q["lattype"] = q.get("lattype") or "CENTRIC"
        q.setdefault("lat", [-90, 90])
    q["options"] = True
    q["avg"] = q.get("avg") or "WEIGHTED"
    return m


def one(scn, k):
    return {"sources": scn["sources"], "maps": [scn["maps"][k]], "files": [[0]], "pre": {}, "config": scn.get("config")}


FAILS = ["nodir", "range", "isdir", "write"]


class C09(Check):
    id = "C09"
    quick, thorough = 2400, 40000
    how = "seeded batches, orders and partitions with failing neighbours against single runs"
    rule = ("seeded entries run alone vs in batches of 2-5 (order, partition over files, one entry failing at run time by request or by "
            "injected write error, configuration file) and with defaults spelt out; non-trivial: batch with at least two maps "
            "compared; distinct by log hash")

    def cases(self, cx, r, i):
        n = r.choice([2, 2, 3, 4])
        scn = work.gen_scenario(r, nmaps=n, size="s", config=False)
        if r.random() < .5:
            work.enrich(r, scn)
        scn["pre"] = {}
        for k in range(n):
            m = scn["maps"][k]
            if r.random() < .35:
                scn["maps"][k] = bare(m)
            elif r.random() < .3:
                # the same kind of map as another one, so that what leaks would matter
                o = copy.deepcopy(scn["maps"][r.randrange(n)])
                o["out"] = m["out"]
                scn["maps"][k] = bare(o) if r.random() < .5 else o
        if r.random() < .5:
            c = r.choice([{"both": 15}, {"lat": 12}, {"lon": 18}, {"lat": 12, "lon": 18}])
            c = dict(c)
            if r.random() < .4:
                c["min"] = r.choice([20, 30, 60])
            if r.random() < .4:
                c["max"] = r.choice([90, 110, 160])
            if r.random() < .4:
                c.update(r.choice([{"nibble": 3}, {"nib4": [1, 4, 2, 3]}]))
            for m in scn["maps"]:
                for p in m["planes"]:
                    if p["kind"] not in ("image", "mosaic"):
                        c.pop("min", None)
                        c.pop("max", None)
                    if "min" in p or "max" in p:
                        p["min"], p["max"] = 5, p.get("max", 240)
            scn["config"] = c
        for k in range(n):
            yield {"kind": "explicit", "scn": scn, "k": k}
        for _ in range(3):
            s = dict(scn)
            order = list(range(n))
            r.shuffle(order)
            s["maps"] = [scn["maps"][k] for k in order]
            s["files"] = work.split_files(r, n)
            yield {"kind": "batch", "scn": s}
        for _ in range(4):
            s = copy.deepcopy(scn)
            k = r.randrange(n)
            s["files"] = work.split_files(r, n)
            how = r.choice(FAILS)
            if how == "nodir":
                s["maps"][k]["out"] = "missing/" + s["maps"][k]["out"]
            elif how == "isdir":
                s["maps"][k]["out"] = "maps"
            elif how == "range":
                s["maps"][k]["dtype"] = "BYTE"
                s["maps"][k].pop("blank", None)
                s["maps"][k]["planes"] = [{"kind": "lon"}]
            yield {"kind": "failing", "how": how, "scn": s, "k": k, "nth": r.randrange(1 << 20)}
        if i % 16 == 0:
            yield {"kind": "sky", "scn": scn, "k": r.randrange(n)}

    def judge(self, cx, case):
        scn, kind = case["scn"], case["kind"]
        if kind in ("explicit", "sky"):
            k = case["k"]
            if k >= len(scn["maps"]):
                raise C.Skip("reduced")
            # Other notations may round differently.
            scn = copy.deepcopy(scn)
            for x in [scn["maps"][k]] + scn["maps"][k]["planes"]:
                x.pop("sp", None)
            a = cx.base(one(scn, k))
            e = dict(one(scn, k), config=None)
            e["maps"] = [explicit(scn, scn["maps"][k], kind == "sky")]
            b = cx.run(e, {"set": {"seed": 1}})
            if kind == "sky":
                v = self.same(a, b, scn["maps"][k]["out"], "with REMOVE_SKY: YES written out")
                return v and ("default-REMOVE_SKY", v[1])
            return self.same(a, b, scn["maps"][k]["out"], "alone, with defaults and configured values written out")
        plan = {"set": {"seed": 1}}
        bad = None
        if kind == "failing":
            bad = case["k"]
            if bad >= len(scn["maps"]):
                raise C.Skip("reduced")
            if case["how"] == "write":
                b = cx.good(scn)
                ws = b.nth("write", lambda p, l: p == scn["maps"][bad]["out"])
                plan["faults"] = [{"cls": "write", "nth": ws[case["nth"] % len(ws)], "kind": "e", "err": C.ERR["EIO"], "count": 1}]
        solos = [cx.base(one(scn, k)) if k != bad else None for k in range(len(scn["maps"]))]
        if any(s is not None and s.o.r.how() != "exit0" for s in solos):
            raise C.Skip("an entry is not valid on its own")
        o = cx.run(scn, plan)
        cx.nontrivial = key_of(o, plan)
        if o.r.how() in ("oplimit", "hang") or o.r.how().startswith("signal"):
            return ("status", "the batch ended with %s although each entry alone is fine" % o.r.how())
        if bad is None and o.r.how() != "exit0":
            return ("status", "the batch ended with %s although each entry alone succeeds: %s" % (o.r.how(), o.r.out(2)[-200:].strip()))
        if bad is not None and case["how"] != "write" and o.r.how() == "exit0":
            return ("status", "the batch succeeded although entry %d cannot" % bad)
        for k, m in enumerate(scn["maps"]):
            if k == bad:
                continue
            v = self.same(solos[k], o, m["out"], "in a batch%s" % (" with failing entry %d (%s)" % (bad, case["how"]) if bad is not None else ""))
            if v:
                return v
        return None

    def same(self, a, b, f, where):
        if a.o.r.how() != "exit0":
            if a.o.r.how() in ("oplimit", "hang") or a.o.r.how().startswith("signal"):
                return ("status", "an entry that leaves values unspecified ended with %s: %s" % (a.o.r.how(), a.o.r.out(2)[-200:].strip()))
            raise C.Skip("entry fails alone: " + a.o.r.out(2)[-100:])
        w = wrong_output(a, b, f)
        if w:
            return ("differs", "entry alone gives another map than %s: %s" % (where, w))
        return None


CHECKS = [C09]
