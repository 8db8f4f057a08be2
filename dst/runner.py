"""Seeded search: cases over worker processes, gate, minimise, report, evidence."""
import copy, json, multiprocessing as mp, os, re, subprocess, sys, time, traceback
from . import build, core, ctx as C, work

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "out", "replays")
KNOWN = os.path.join(HERE, "known-findings.jsonl")

_w = {}


class Check:
    id = "C00"
    title = ""
    quick, thorough = 100, 1000
    rule = ""
    how = "seeded fault plans over the whole program"
    variants = ("",)
    components = {"real": ["every MaRC source of /repo (lib/marc, src, generated parser and scanner)", "libcfitsio",
                           "libstdc++", "glibc stdio and argp", "kernel tmpfs below the seam"],
                  "stub": ["system-call layer (seccomp trap: faults, quota, kills, external writers)", "clocks",
                           "allocator (canaries, fill, planned failures)", "console", "getpid/getrandom"]}

    def cases(self, ctx, r, i):
        raise NotImplementedError

    def judge(self, ctx, case):
        raise NotImplementedError

    # What a case looks like in a sample, and how it may be made smaller.
    def brief(self, case):
        c = {k: v for k, v in case.items() if k not in ("scn",)}
        if "scn" in case:
            s = case["scn"]
            c["workload"] = "%d map(s) %s, %d source(s)" % (
                len(s["maps"]), [[m["proj"]["type"], m["samples"], m["lines"], [p["kind"] for p in m["planes"]]] for m in s["maps"]],
                len(s["sources"]))
        return c

    def reductions(self, case):
        return reductions(case)

    def make_ctx(self, n):
        return C.Ctx(n)

    def setup(self):
        for v in self.variants:
            build.build("marcsim", v)


# ----------------------------------------------------------------- minimising
def reductions(case):
    def edit(fn):
        c = copy.deepcopy(case)
        return c if fn(c) is not False else None
    plans = [k for k in ("plan",) if k in case]
    if "plans" in case:
        for i in range(len(case["plans"])):
            if len(case["plans"]) > 1:
                yield edit(lambda c: c["plans"].pop(i) and None)

    def each_plan(c):
        if "plan" in c:
            yield c["plan"]
        yield from c.get("plans", [])
    for pi, p in enumerate(each_plan(case)):
        for fi in range(len(p.get("faults", []))):
            yield edit(lambda c: list(each_plan(c))[pi]["faults"].pop(fi) and None)
        for xi in range(len(p.get("ext", []))):
            yield edit(lambda c: list(each_plan(c))[pi]["ext"].pop(xi) and None)
        for k in list(p.get("set", {})):
            if k not in ("seed", "wlog"):
                yield edit(lambda c: list(each_plan(c))[pi]["set"].pop(k) and None)
        for fi, f in enumerate(p.get("faults", [])):
            if f.get("count", 1) != 1:
                yield edit(lambda c: list(each_plan(c))[pi]["faults"][fi].update(count=1))
            if f.get("nth", 0) > 0:
                for n in (0, f["nth"] // 2, f["nth"] - 1):
                    yield edit(lambda c: list(each_plan(c))[pi]["faults"][fi].update(nth=n))
    s = case.get("scn")
    if not s:
        return
    if len(s["maps"]) > 1:
        for i in range(len(s["maps"])):
            def dropmap(c):
                m = c["scn"]["maps"].pop(i)
                c["scn"]["pre"].pop(m["out"], None)
                c["scn"]["files"] = [g for g in ([k - (k > i) for k in f if k != i] for f in c["scn"]["files"]) if g]
            yield edit(dropmap)
    for mi, m in enumerate(s["maps"]):
        if len(m["planes"]) > 1:
            for k in range(len(m["planes"])):
                yield edit(lambda c: c["scn"]["maps"][mi]["planes"].pop(k) and None)
        for k in ("author", "origin", "comments", "xcomments", "grid", "blank", "planekw", "sp", "transform"):
            if m.get(k):
                yield edit(lambda c: c["scn"]["maps"][mi].pop(k) and None)
        for pi, p in enumerate(m["planes"]):
            for k in ("min", "max", "sp", "unused"):
                if k in p:
                    yield edit(lambda c: c["scn"]["maps"][mi]["planes"][pi].pop(k) and None)
            ims = p.get("images", [])
            for ii, im in enumerate(ims):
                if len(ims) > 1:
                    yield edit(lambda c: c["scn"]["maps"][mi]["planes"][pi]["images"].pop(ii) and None)
                for k in ("nibble", "nib4", "invert", "interp", "oa", "emi", "term", "geom", "flat", "minnaert"):
                    if k in im:
                        yield edit(lambda c: c["scn"]["maps"][mi]["planes"][pi]["images"][ii].pop(k) and None)
    if s.get("config"):
        yield edit(lambda c: c["scn"].pop("config") and None)
    for o in list(s.get("pre", {})):
        yield edit(lambda c: c["scn"]["pre"].pop(o) and None)
    used = {im[k] for m in s["maps"] for p in m["planes"] for im in p.get("images", []) for k in ("src", "flat") if k in im}
    for i, x in enumerate(s["sources"]):
        if x["name"] not in used:
            yield edit(lambda c: c["scn"]["sources"].pop(i) and None)
        elif x["keys"]:
            yield edit(lambda c: c["scn"]["sources"][i].update(keys=[]))


def minimise(check, cx, case, cls, secs):
    t0, tried = time.time(), 0
    again = True
    while again and time.time() - t0 < secs:
        again = False
        for c in check.reductions(case):
            if c is None or time.time() - t0 > secs:
                continue
            tried += 1
            try:
                v = check.judge(cx, c)
            except (C.Skip, LookupError, ValueError):
                continue  # the reduced case makes no sense
            if v and v[0] == cls:
                case, again = c, True
                break
    return case, tried


# -------------------------------------------------------------------- workers
def _init(check, counter, deadline):
    with counter.get_lock():
        n = counter.value
        counter.value += 1
    _w.update(check=check, ctx=check.make_ctx(n), deadline=deadline)
    import atexit
    atexit.register(_w["ctx"].close)
    mp.util.Finalize(None, _w["ctx"].close, exitpriority=10)


def _task(a):
    seed, i = a
    check, cx = _w["check"], _w["ctx"]
    out = {"i": i, "evals": 0, "skips": 0, "keys": [], "viol": None, "error": None, "samples": [], "det": [0, 0]}
    if time.time() > _w["deadline"]:
        out["late"] = True
        return out
    r0, s0 = cx.runs, cx.simus
    cx.fired, cx.hashes = {}, set()
    try:
        r = core.rng_for(seed, check.id, i)
        for n, case in enumerate(check.cases(cx, r, i)):
            try:
                cx.nontrivial = None
                v = check.judge(cx, case)
                h = cx.last_hash
                if (i * 7 + n) % 23 == 0 and not v:
                    v2 = check.judge(cx, case)
                    out["det"][0] += 1
                    out["det"][1] += (cx.last_hash != h or v2 != v)
            except C.Skip:
                out["skips"] += 1
                continue
            out["evals"] += 1
            if cx.nontrivial:
                out["keys"].append(hash64(cx.nontrivial))
                if len(out["samples"]) < 1 and i < 4:
                    out["samples"].append(check.brief(case))
            if v:
                out["viol"] = (case, v)
                break
    except C.Skip:
        out["skips"] += 1
    except Exception:
        out["error"] = traceback.format_exc()
    out["runs"], out["simus"], out["fired"], out["hashes"] = cx.runs - r0, cx.simus - s0, cx.fired, [hash64(h) for h in cx.hashes]
    return out


def hash64(x):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("{"):
                e = json.loads(l)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e)
    return out


def is_known(entries, v):
    for e in entries:
        if re.search(e["match"], v[0] + ": " + v[1]):
            return e
    return None


# ------------------------------------------------------------------------ main
def replay(check, path):
    with open(path) as f:
        rec = json.load(f)
    cx = check.make_ctx(0)
    try:
        v = check.judge(cx, rec["case"])
        h = cx.last_hash
    except C.Skip as e:
        v, h = None, "skip %s" % e
    finally:
        cx.close()
    if v:
        print("violation class: %s\n%s\ntrace hash %s" % (v[0], v[1], h))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    print("no violation (%s)" % h)
    return 0


def main(check, argv):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    check.setup()
    if "--replay" in argv:
        return replay(check, argv[argv.index("--replay") + 1])
    n = check.thorough if tier == "thorough" else check.quick
    if "--n" in argv:
        n = int(argv[argv.index("--n") + 1])
    start = int(argv[argv.index("--from") + 1]) if "--from" in argv else 0
    cap = 3600 * 3 if tier == "thorough" else 300
    print("check %s seed=%d tier=%s scenarios=%d" % (check.id, seed, tier, n), flush=True)
    workers = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 8)))
    counter = mp.Value("i", 1)
    tot = {"evals": 0, "skips": 0, "runs": 0, "simus": 0, "late": 0, "det": [0, 0]}
    keys, hashes, fired, samples, viols, errors = set(), set(), {}, [], [], []
    entries, seen_known = known(check.id), {}
    pool = mp.Pool(workers, _init, (check, counter, time.time() + cap))
    try:
        for o in pool.imap_unordered(_task, [(seed, start + i) for i in range(n)], chunksize=1):
            if o.get("late"):
                tot["late"] += 1
                continue
            for k in ("evals", "skips", "runs", "simus"):
                tot[k] += o[k]
            tot["det"][0] += o["det"][0]
            tot["det"][1] += o["det"][1]
            keys.update(o["keys"])
            hashes.update(o["hashes"])
            for k, v in o["fired"].items():
                fired[k] = fired.get(k, 0) + v
            if len(samples) < 4:
                samples += o["samples"]
            if o["error"]:
                errors.append((o["i"], o["error"]))
                if len(errors) > 20:
                    break
            if o["viol"]:
                e = is_known(entries, o["viol"][1])
                if e:
                    seen_known[e["what"]] = seen_known.get(e["what"], 0) + 1
                else:
                    viols.append((o["i"],) + o["viol"])
                    if "--all" not in argv:
                        break
    finally:
        pool.terminate()
        pool.join()
    explored = time.time() - t0
    rc = 0
    report = []
    cx = check.make_ctx(0)
    try:
        done = set()
        for i, case, v in sorted(viols, key=lambda x: x[0]):
            if v[0] in done:
                continue
            done.add(v[0])
            # Gate: the same case must fail the same way again, and in a fresh process.
            v1 = v2 = None
            try:
                v1 = check.judge(cx, case); h1 = cx.last_hash
                v2 = check.judge(cx, case); h2 = cx.last_hash
            except C.Skip:
                pass
            if not (v1 and v2 and v1[0] == v[0] == v2[0] and h1 == h2):
                errors.append((i, "violation %s did not repeat" % (v,)))
                continue
            case, tried = minimise(check, cx, case, v[0], 45 if tier == "quick" else 180)
            v = check.judge(cx, case)
            os.makedirs(OUT, exist_ok=True)
            path = os.path.join(OUT, "%s-%d-%d-%s.json" % (check.id, seed, i, re.sub(r"\W+", "-", v[0])[:40]))
            with open(path, "w") as f:
                json.dump({"property": check.id, "seed": seed, "index": i, "class": v[0], "message": v[1],
                           "trace_hash": cx.last_hash, "minimiser_attempts": tried, "case": case}, f, indent=1)
            p = subprocess.run([sys.executable, "-m", "dst", check.id, "--replay", path], cwd=HERE,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 1 or ("trace hash " + cx.last_hash) not in p.stdout.decode():
                errors.append((i, "violation %s not reproduced by a fresh process:\n%s" % (v, p.stdout.decode()[-2000:])))
                continue
            rc = 1
            report.append(v)
            print("seed %d scenario %d: %s\n  %s" % (seed, i, v[0], v[1]))
            print("  minimised: %s" % json.dumps(check.brief(case))[:1500])
            print("VIOLATION property=%s replay=%s" % (check.id, path), flush=True)
    finally:
        cx.close()
    for e in entries:
        print("KNOWN-FINDING: property=%s %s" % (check.id, e["what"]))
    wall = time.time() - t0
    hours = max(explored, .001) / 3600
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": tot["evals"], "distinct_nontrivial": len(keys), "rule": check.rule,
                       "samples": samples or [{"note": "none"}], "simulated_runs": tot["runs"],
                       "scenarios": n - tot["late"], "scenarios_not_reached": tot["late"],
                       "skipped_cases": tot["skips"], "runs_per_hour": int(tot["runs"] / hours),
                       "seeds_per_hour": int((n - tot["late"]) / hours),
                       "simulated_seconds": round(tot["simus"] / 1e6, 1), "faults_fired": dict(sorted(fired.items())),
                       "distinct_histories": len(hashes),
                       "distinct_histories_measure": "hash of the full event log (operations, results, faults, console, clock reads)",
                       "determinism_reruns": tot["det"][0], "determinism_mismatches": tot["det"][1],
                       "components": check.components},
          "assumptions": ["fault kinds outside the listed ones are not injected", "a clean batch is evidence, not proof"],
          "wall_s": round(wall, 1), "violations": len(report)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d evaluations, %d distinct non-trivial, %d runs, %d skipped, det %s, %.1fs" % (
        check.id, tot["evals"], len(keys), tot["runs"], tot["skips"], tot["det"], wall))
    print("faults fired: %s" % json.dumps(dict(sorted(fired.items()))))
    if errors and rc == 0:
        for i, e in errors[:3]:
            print("ERROR scenario %d: %s" % (i, e), file=sys.stderr)
        return 2
    return rc
