"""Helpers for demonstrations: run the built marc in a scratch directory."""
import os, resource, shutil, signal, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import fitsfile

REPO = os.getcwd()
DIR = tempfile.mkdtemp(prefix="demo")
os.chmod(DIR, 0o755)


def done(ok, text=""):
    shutil.rmtree(DIR, ignore_errors=True)
    print("ok" if ok else "BROKEN: " + text)
    sys.exit(0 if ok else 1)


def p(*a):
    return os.path.join(DIR, *a)


def put(name, data):
    os.makedirs(os.path.dirname(p(name)), exist_ok=True)
    with open(p(name), "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def get(name):
    try:
        with open(p(name), "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def image(name, w=32, h=32, bitpix=-64, value=lambda x, y: 10.0 + x, **kw):
    keys = kw.pop("keys", ())
    put(name, fitsfile.make(w, h, bitpix, [value(i, k) for k in range(h) for i in range(w)], keys, **kw))


def hdus(name):
    b = get(name)
    return fitsfile.parse(b) if b is not None else []


def norm(name):
    b = get(name)
    return fitsfile.norm(b) if b is not None else None


def photo(src, extra="", center=(16, 16), late="", so=(10, 20), ss=(10, 20)):
    return """IMAGE: %s
%sSAMPLE_CENTER: %s
LINE_CENTER: %s
%sSUB_OBSERV_LAT: %s
SUB_OBSERV_LON: %s
POSITION_ANGLE: 0
SUB_SOLAR_LAT: %s
SUB_SOLAR_LON: %s
RANGE: 4000000
KM_PER_PIXEL: 5000
""" % (src, extra, center[0], center[1], late, so[0], so[1], ss[0], ss[1])


def entry(out, planes, dtype="DOUBLE", samples=40, lines=20, head="", info="", grid="", proj="SIMPLE_C\n", rot="PROGRADE"):
    return """MAP: %s
%sBODY: Jupiter
EQ_RAD: 71492
POL_RAD: 66854
ROTATION: %s
%s%s%sTYPE: %sSAMPLES: %d
LINES: %d
""" % (out, head, rot, "DATA_TYPE: %s\n" % dtype if dtype else "", info, grid, proj, samples, lines) + "".join(
        "PLANE:\n" + x for x in planes)


_shim = None


def shim():
    global _shim
    if not _shim:
        _shim = p("shim.so")
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", _shim, os.path.join(HERE, "shim.c"), "-ldl"])
    return _shim


def marc(args=("in.marc",), fault=None, env=None, fsize=None, preload=None, cwd=None, timeout=60, wait=True, **kw):
    """fault: (what, path suffix or '-', nth, count, action)"""
    e = {"PATH": os.environ["PATH"], "HOME": DIR + "/home", "XDG_CONFIG_HOME": DIR + "/cfg", "LC_ALL": "C",
         "LD_LIBRARY_PATH": REPO + "/_build/lib/marc/.libs"}
    e.update(env or {})
    if fault:
        e["LD_PRELOAD"] = shim()
        e["SHIM"] = "%s|%s|%d|%d|%s" % fault
    if preload:
        e["LD_PRELOAD"] = preload

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    q = subprocess.Popen([REPO + "/_build/src/.libs/marc"] + list(args), cwd=cwd or DIR, env=e, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, **kw)
    if not wait:
        return q
    o, x = q.communicate(timeout=timeout)
    q.out, q.err = o.decode("latin-1"), x.decode("latin-1")
    return q


def cxx(source, name="prog", flags=()):
    """Build a program that uses the library as built."""
    put(name + ".cpp", source)
    inc = ["-I" + REPO + "/lib", "-I" + REPO + "/_build/lib", "-I" + REPO + "/opt/fmt-8.0.1/include", "-I" + REPO + "/src"]
    subprocess.check_call(["g++", "-std=c++17", "-O1", "-w", "-pthread"] + inc + list(flags) + [p(name + ".cpp"), "-o", p(name),
                          "-L" + REPO + "/_build/lib/marc/.libs", "-lMaRC", "-Wl,-rpath," + REPO + "/_build/lib/marc/.libs"])
    return p(name)
