"""Build the simulated program from /repo's current working tree.

Objects are cached by the hash of every input (all sources, headers, flags),
under /verif/build, which git ignores.  Nothing in /repo is written.
"""
import hashlib, os, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MARC_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CXX = "g++"
BASE = ["-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS"]


class BuildError(Exception):
    pass


def repo_sources():
    out = []
    for d in ("lib/marc", "src"):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(".cpp") and not f.endswith("_t.cpp"):
                out.append(os.path.join(d, f))
    return out


def tree_files():
    res = []
    for d in ("lib", "src"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".h", ".hh", ".hpp", ".yy", ".ll", ".c", ".cc", ".inl", ".ipp")):
                    res.append(os.path.join(root, f))
    return res


def digest(extra):
    h = hashlib.sha256()
    for f in tree_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in extra:
        if os.path.exists(f):
            with open(f, "rb") as fh:
                h.update(fh.read())
        else:
            h.update(str(f).encode())
    return h.hexdigest()[:20]


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-4000:])


def build(kind="marcsim", variant=""):
    """kind: marcsim (whole program), libsim (library harness) or consim (progress console)."""
    os.makedirs(BUILD, exist_ok=True)
    flags = list(BASE)
    lib_extra = []
    if variant == "autopat":
        flags.append("-ftrivial-auto-var-init=pattern")
    elif variant == "autozero":
        flags.append("-ftrivial-auto-var-init=zero")
    srcs = repo_sources()
    if kind == "libsim":
        srcs = [s for s in srcs if s.startswith("lib/")]
        lib_extra = ["-fsanitize-coverage=trace-pc"]
    elif kind == "consim":
        srcs = [s for s in srcs if s.startswith("lib/") or "ProgressConsole" in s]
    harness = [os.path.join(HERE, "sim", f) for f in {"marcsim": ["sim.cpp"], "consim": ["consim.cpp"],
                                                      "libsim": ["libsim.cpp", "libmap.cpp", "libmap.h"]}[kind]]
    key = digest(harness + [os.path.join(HERE, "cfg/marc/config.h"), kind, variant] + flags + lib_extra
                 + [os.path.abspath(__file__)])
    dest = os.path.join(BUILD, kind + (("-" + variant) if variant else "") + "-" + key)
    exe = os.path.join(dest, kind)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, ".lock-" + kind + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        try:
            inc = ["-I", tmp + "/inc", "-I", tmp + "/inc/marc", "-I", REPO + "/lib",
                   "-I", REPO + "/opt/fmt-8.0.1/include", "-I", REPO + "/src", "-I", tmp]
            os.makedirs(tmp + "/inc/marc")
            shutil.copy(os.path.join(HERE, "cfg/marc/config.h"), tmp + "/inc/marc/config.h")
            jobs = []
            if kind == "marcsim":
                sh(["bison", "-d", "-o", "parse.cc", REPO + "/src/parse.yy"], cwd=tmp)
                sh(["flex", "-o", "lexer.cc", REPO + "/src/lexer.ll"], cwd=tmp)
                jobs += [(tmp + "/parse.cc", []), (tmp + "/lexer.cc", [])]
            for s in srcs:
                x = list(lib_extra)
                if s == "src/marc.cpp":
                    x.append("-Dmain=marc_main")
                jobs.append((os.path.join(REPO, s), x))
            for h in harness:
                if h.endswith(".cpp"):
                    # mapping templates are instantiated in libmap.cpp: they can be interrupted too
                    jobs.append((h, ["-I", os.path.join(HERE, "sim")] + (lib_extra if h.endswith("libmap.cpp") else [])))
            # longest first
            prio = {"parse.cc": 0, "MapCommand.cpp": 1, "map_parameters.cpp": 2}
            jobs.sort(key=lambda j: prio.get(os.path.basename(j[0]), 9))
            objs = []

            def comp(i):
                s, x = jobs[i]
                o = "%s/o%d.o" % (tmp, i)
                sh([CXX] + flags + x + inc + ["-c", s, "-o", o])
                return o
            with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
                objs = list(ex.map(comp, range(len(jobs))))
            link = [CXX] + flags + objs + ["-o", tmp + "/" + kind, "-rdynamic"]
            if kind == "marcsim":
                link += ["-lcfitsio"]
            else:
                link += ["-lpthread", "-ldl"]
            sh(link)
            for o in objs:
                os.unlink(o)
            # keep the cache small: drop older builds of this kind
            old = sorted((d for d in os.listdir(BUILD) if d.startswith(kind + "-") and
                          (variant in d if variant else True)),
                         key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
            for d in old[:-6]:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            os.rename(tmp, dest)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return exe


def locales():
    """A directory with a few non-C locales (decimal comma, Turkish case rules), or None."""
    d = os.path.join(BUILD, "locale")
    try:
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, ".lock-locale"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.isdir(d):
                t = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
                for n in ("de_DE", "tr_TR"):
                    subprocess.run(["localedef", "-i", n, "-f", "UTF-8", os.path.join(t, n + ".UTF-8")],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                os.chmod(t, 0o755)
                os.rename(t, d)
    except OSError:
        return None
    return d


if __name__ == "__main__":
    import time
    for k in sys.argv[1:] or ["marcsim"]:
        t = time.time()
        k, _, v = k.partition(":")
        print(build(k, v), "%.1fs" % (time.time() - t))
