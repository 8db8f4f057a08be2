"""C10, C15: source images that change under a run, and images with gaps."""
import copy, itertools, math, struct
from .. import core, ctx as C, fits, work
from ..runner import Check
from .faults import key_of, wrong_output


def uses(scn, name):
    return [(mi, pi, ii, k) for mi, m in enumerate(scn["maps"]) for pi, p in enumerate(m["planes"])
            for ii, im in enumerate(p.get("images", [])) for k in ("src", "flat") if im.get(k) == name]


def combo(scn, name, new, choice, us):
    """The same request with every use of the source bound to the old or to the new image."""
    s = copy.deepcopy(scn)
    old = work.source(scn, name)
    gz = ".gz" if old["gz"] else ""
    s["sources"] = [x for x in s["sources"] if x["name"] != name] + [dict(old, name="old.fits" + gz), dict(new, name="new.fits" + gz)]
    for (mi, pi, ii, k), c in zip(us, choice):
        s["maps"][mi]["planes"][pi]["images"][ii][k] = ("new.fits" if c else "old.fits") + gz
    return s


class C10(Check):
    id = "C10"
    quick, thorough = 1300, 40000
    how = "seeded replacement or removal of a source by another process at any operation of a run"
    rule = ("seeded workload x source x (atomic replacement by another image | removal) x operation at which it happens; maps compared with "
            "those of every assignment of old/new to the uses of the source; non-trivial: the change happened while the run was going on; "
            "distinct by log hash")

    def cases(self, cx, r, i):
        scn = work.gen_scenario(r, size=r.choice(["s", "s", "m"]))
        names = [s["name"] for s in scn["sources"] if 1 <= len(uses(scn, s["name"])) <= 4]
        if not names:
            return
        name = r.choice(names)
        b = cx.good(scn)
        old = work.source(scn, name)
        new = copy.deepcopy(old)
        new["base"] = old["base"] + r.choice([7, 20, 50]) if not old.get("flat") else 3.0
        if r.random() < .5:
            new["keys"] = [k for k in old["keys"] if k[0] == "BLANK"] + [["AUTHOR", "N. Ew"], ["ORIGIN", "NewObs"]]
        if r.random() < .3:
            new["bitpix"] = r.choice([8, 16, 32, -32, -64]) if not old.get("holes") else old["bitpix"]
            if new["bitpix"] > 0:
                new["base"] = int(new["base"])
        if r.random() < .25 and not old.get("flat") and not any(im.get("flat") for m in scn["maps"] for p in m["planes"] for im in p.get("images", [])):
            new["w"], new["h"] = r.choice([(24, 20), (32, 32), (40, 28), (150, 130)])
        if r.random() < .2:
            new["chk"] = not old["chk"]
        scn = dict(scn, extra=new)
        for _ in range(10):
            kind = "u" if r.random() < .25 and not old.get("flat") else "r"
            yield {"scn": scn, "name": name, "kind": kind,
                   "plan": {"set": {"seed": 1, "rdchunk": r.choice([0, 0, 50])}, "op": r.randrange(b.o.r.ops + 1)}}

    def judge(self, cx, case):
        scn, name = case["scn"], case["name"]
        s = {k: v for k, v in scn.items() if k != "extra"}
        new = scn["extra"]
        us = uses(s, name)
        if not us:
            raise C.Skip("reduced")
        b = cx.good(s)
        plan = dict(case["plan"])
        op = plan.pop("op")
        rend = work.render(s)
        rend[0]["replacement.tmp"] = work.source_bytes(dict(new, name="x"))
        d = cx.fresh(rend)
        if case["kind"] == "r":
            plan["ext"] = [{"op": op, "kind": "r", "a": "replacement.tmp", "b": name}]
        else:
            plan["ext"] = [{"op": op, "kind": "u", "a": name, "b": "-"}]
        o = cx.run_in(d, s, plan)
        if "\next " in o.r.log:
            cx.nontrivial = (case["kind"], o.r.hash)
        outs = work.outputs(s)
        if case["kind"] == "u":
            ls = o.r.lines()
            first = next((i for i, l in enumerate(ls) if l.startswith("op ") and l.split()[2] in outs), None)
            ext = next((i for i, l in enumerate(ls) if l.startswith("ext ")), None)
            if first is None or ext is None or ext < first:
                return None
            if o.r.how() != "exit0":
                return ("removal", "removing %s while maps were being written made the run end with %s: %s" % (name, o.r.how(), o.r.out(2)[-200:].strip()))
            for f in outs:
                w = wrong_output(b, o, f)
                if w:
                    return ("removal", "removing %s while maps were being written changed %s" % (name, w))
            return None
        why = []
        h = cx.last_hash
        # The most likely assignments first.
        for ch in sorted(itertools.product((0, 1), repeat=len(us)), key=lambda c: sum(a != b for a, b in zip(c, c[1:]))):
            e = cx.base(combo(s, name, new, ch, us))
            if e.o.r.how() != o.r.how():
                why.append("%s: %s instead of %s" % (ch, o.r.how(), e.o.r.how()))
                continue
            if o.r.how() != "exit0":
                return None
            ws = [w for w in (wrong_output(e, o, f) for f in outs) if w]
            if not ws:
                return None
            why.append("%s: %s" % ("".join("on"[c] for c in ch), ws[0]))
        cx.last_hash = h
        return ("mixed", "%s was replaced during the run, and the maps are those of no assignment of old and new image to its %d use(s): %s"
                % (name, len(us), "; ".join(why)[:600]))


# ---------------------------------------------------------------------- mosaic
def lose(r, s):
    """Seeded loss of data: which blocks of a source image arrived as fill."""
    w, h = s["w"], s["h"]
    out = []
    for _ in range(r.choice([0, 1, 2, 4, 9])):
        k = r.choice(["block", "line", "col", "pixel"])
        x, y = r.randrange(w), r.randrange(h)
        out.append({"block": [x, y, min(w, x + r.randint(1, w)), min(h, y + r.randint(1, h))], "line": [0, y, w, y + 1],
                    "col": [x, 0, x + 1, h], "pixel": [x, y, x + 1, y + 1]}[k])
    return out


class C15(Check):
    id = "C15"
    quick, thorough = 8000, 150000
    how = "seeded data losses, orders and views of mosaic members; every location checked against the members mapped alone"
    rule = ("seeded mosaics of 2-4 images with injected losses (blocks, lines, columns, pixels as BLANK or NaN), views partly off the body, "
            "nibbling, sky removal and every averaging; the same images mapped alone are the reference at each map element; "
            "non-trivial: some element has both a valid and an invalid member; distinct by map contents")

    def cases(self, cx, r, i):
        n = r.choice([2, 2, 3, 4])
        srcs = []
        for k in range(n):
            s = work.gen_source(r, k, small=r.random() < .9)
            s["keys"] = [["BLANK", 0]] if s["bitpix"] > 0 else []
            s.pop("holes", None)
            s["lost"] = lose(r, s)
            srcs.append(s)
        body = r.choice(work.BODIES)
        m = work.gen_map(r, 0, srcs, size="s" if r.random() < .8 else "m")
        m["body"] = list(body)
        so = [round(r.uniform(-30, 30), 2), round(r.uniform(0, 360), 2)]
        ims = []
        for s in srcs:
            im = work.gen_image(r, s, body)
            if r.random() < .7:
                # look at the same side of the body, so that images overlap
                im["so"] = [round(so[0] + r.uniform(-15, 15), 2), round((so[1] + r.uniform(-40, 40)) % 360, 2)]
                if "latlon" in im:
                    im["latlon"] = list(im["so"])
            im.pop("term", None) if r.random() < .7 else None
            ims.append(im)
        if m["proj"]["type"] == "ORTHO" and r.random() < .7:
            m["proj"].update(options=True, so=so)
            m["proj"].pop("km", None)
            m["proj"].pop("center", None)
        m["proj"]["options"] = True
        if m["proj"]["type"] == "P_STEREO":
            m["proj"].setdefault("pole", r.choice(["N", "S"]))
        m["dtype"] = r.choice(["DOUBLE", "DOUBLE", "FLOAT"])
        m.pop("blank", None)
        for f in ("grid", "xcomments", "planekw"):
            m.pop(f, None)
        m["proj"]["avg"] = r.choice(["NONE", "UNWEIGHTED", "WEIGHTED"])
        orders = [list(range(n))]
        for _ in range(2):
            o = list(range(n))
            r.shuffle(o)
            orders.append(o)
        m["planes"] = [{"kind": "image", "images": [im]} for im in ims]
        m["planes"] += [{"kind": "mosaic", "images": [ims[k] for k in o]} for o in orders]
        scn = {"sources": srcs, "maps": [m], "files": [[0]], "pre": {}}
        yield {"scn": scn, "n": n, "orders": orders, "plan": {"set": {"seed": 1, "rdchunk": r.choice([0, 40]), "heapfill": r.randint(0, 4)}}}

    def reductions(self, case):
        s = case["scn"]
        for k, x in enumerate(s["sources"]):
            for j in range(len(x.get("lost", []))):
                c = copy.deepcopy(case)
                c["scn"]["sources"][k]["lost"].pop(j)
                yield c
        if len(case["orders"]) > 1:
            for j in range(len(case["orders"])):
                c = copy.deepcopy(case)
                c["orders"].pop(j)
                c["scn"]["maps"][0]["planes"].pop(case["n"] + j)
                yield c
        if case["n"] > 2:
            for j in range(case["n"]):
                c = copy.deepcopy(case)
                c["n"] -= 1
                m = c["scn"]["maps"][0]
                src = m["planes"].pop(j)["images"][0]["src"]
                for o, p in zip(c["orders"], m["planes"][c["n"]:]):
                    p["images"] = [im for im in p["images"] if im["src"] != src]
                    o[:] = [k - (k > j) for k in o if k != j]
                yield c
        for j in range(case["n"]):
            for k in ("nibble", "nib4", "invert", "interp", "oa", "emi", "term", "geom", "sky"):
                im = s["maps"][0]["planes"][j]["images"][0]
                if k in im and not (k == "sky" and "latlon" in im):
                    c = copy.deepcopy(case)
                    for p in c["scn"]["maps"][0]["planes"]:
                        for q in p["images"]:
                            if q["src"] == im["src"]:
                                q.pop(k, None)
                    yield c

    def judge(self, cx, case):
        scn, n, orders = case["scn"], case["n"], case["orders"]
        m = scn["maps"][0]
        o = cx.run(scn, case["plan"])
        if o.r.how() != "exit0":
            return ("status", "mapping images with gaps ended with %s: %s" % (o.r.how(), o.r.out(2)[-200:].strip()))
        h = fits.parse(o.file(m["out"]))
        if not h or not h[0].complete or h[0].kv.get("NAXIS3") != n + len(orders):
            raise C.Skip("not the planes asked for")  # C16's business
        v = fits.values(h[0])
        size = m["samples"] * m["lines"]
        solo = [v[k * size:(k + 1) * size] for k in range(n)]
        eps = 1e-11 if m["dtype"] == "DOUBLE" else 1e-6
        avg = m["proj"]["avg"]
        mixed = False
        ref = {}
        for j, od in enumerate(orders):
            got = v[(n + j) * size:(n + j + 1) * size]
            for e in range(size):
                val = [solo[k][e] for k in od if not math.isnan(solo[k][e])]
                g = got[e]
                if 0 < len(val) < n:
                    mixed = True
                where = "element (%d,%d), members in order %s" % (e % m["samples"], e // m["samples"], [solo[k][e] for k in od])
                if not val:
                    if not math.isnan(g):
                        return ("not-blank", "no member has data at %s, but the mosaic holds %r" % (where, g))
                    continue
                if math.isnan(g):
                    return ("lost", "members have valid data at %s, but the mosaic is blank" % where)
                tol = eps * max(1, max(abs(x) for x in val))
                if avg == "NONE" and g != val[0]:
                    return ("first", "%r stored instead of the first valid %r at %s" % (g, val[0], where))
                if avg == "UNWEIGHTED" and abs(g - math.fsum(val) / len(val)) > tol:
                    return ("mean", "%r stored instead of the mean %r at %s" % (g, math.fsum(val) / len(val), where))
                if not min(val) - tol <= g <= max(val) + tol:
                    return ("range", "%r stored outside the members' range at %s" % (g, where))
                if avg != "NONE" and abs(ref.setdefault(e, g) - g) > tol:
                    return ("order", "%r stored instead of %r because images were given in another order, at %s" % (g, ref[e], where))
        if mixed:
            cx.nontrivial = o.r.hash
        # What valid data is, is for the model to say: each member alone may be wrong in the same way.
        from .finished import elements
        for k in {n, core.rng_for(size, scn["sources"][0]["base"]).randrange(n)}:
            x = elements(scn, m, k, h[0].kv["BITPIX"], None, v[k * size:(k + 1) * size], 250)
            if x:
                return ("gap", x[1])
        return None


CHECKS = [C10, C15]
