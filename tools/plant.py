#!/usr/bin/env python3
"""Try planted bugs: plant.py ID [--all] [--no-test]: apply to /repo, build, test, demonstrate, check, undo."""
import json, os, subprocess, sys, time
V = "/verif"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout[-1500:]


def demo(i):
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    r = sh("timeout 300 bash %s/seeded/%s/demo.sh" % (V, i), cwd="/repo", env=env)
    return r.returncode, r.stdout[-400:]


def main(ids, allc, notest):
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    ok, t = build()
    assert ok, t
    clean = {i: demo(i) for i in ids}
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        meta = json.load(open(d + "/meta.json"))
        out = ["%-28s %s clean-demo=%d" % (i, meta["property"], clean[i][0])]
        if clean[i][0] != 0:
            out.append("   !! " + clean[i][1])
        try:
            a = sh("git -C /repo apply %s/patch.diff" % d)
            if a.returncode:
                print(out[0], "PATCH DOES NOT APPLY", a.stdout)
                continue
            ok, t = build()
            if not ok:
                print(out[0], "BUILD FAILED", t)
                continue
            if not notest:
                sh("bash /opt/vp/test.sh /tmp/plant.json")
                o = json.load(open("/tmp/plant.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                stable = set(base.get("stable", base.get("passed", [])) if isinstance(base, dict) else base)
                miss = stable - set(o["passed"])
                out.append("tests=%s" % ("ok" if not miss else "FAILED %s" % sorted(miss)[:4]))
            rc, t = demo(i)
            out.append("demo=%d (%s)" % (rc, t.strip().splitlines()[-1][:100] if t.strip() else ""))
            from_checks = [meta["property"]]
            if allc:
                from_checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
            for c in from_checks:
                t0 = time.time()
                r = sh("VERIF_SEED=%s VERIF_TIER=quick timeout 900 python3 -m dst %s" % (os.environ.get("VERIF_SEED", "1"), c), cwd=V)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                desc = ""
                if v:
                    ls = r.stdout.splitlines()
                    k = [n for n, l in enumerate(ls) if l.startswith("seed ")]
                    desc = ls[k[0]] + " / " + ls[k[0] + 1].strip()[:110] if k else ""
                caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
                now = set(caught.get(i, [])) - {c}
                if r.returncode == 1 and v:
                    now.add(c)
                caught[i] = sorted(now)
                json.dump(caught, open(V + "/tools/caught.json", "w"), indent=1, sort_keys=True)
                if c == meta["property"] or r.returncode:
                    out.append("check %s: %s %.0fs %s" % (c, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "RC%d %s" % (r.returncode, r.stdout[-300:]), time.time() - t0, desc))
        finally:
            sh("git -C /repo checkout -- .")
        print("\n    ".join(out), flush=True)
    build()


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    main(a, "--all" in sys.argv, "--no-test" in sys.argv)
