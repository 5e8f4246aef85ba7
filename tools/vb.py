#!/usr/bin/env python3
"""Content-addressed builder: compiles libossia's sources (from /repo's working tree,
against /verif/shims for the git submodules that are absent) and the harnesses.

An object is reused only when the compiler command line and the CONTENT of every file
it was compiled from (source + all headers in its depfile) are unchanged, so time
stamps never matter and a changed line in /repo always triggers a rebuild."""
import glob, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from functools import lru_cache

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "_build")
DEFS = ["-DRAPIDJSON_HAS_STDSTRING=1", "-DTINYSPLINE_DOUBLE_PRECISION", "-DBOOST_MATH_DISABLE_FLOAT128=1",
        "-DBOOST_ASIO_DISABLE_CONCEPTS=1", "-DFMT_HEADER_ONLY=1", "-DFFTW_DOUBLE_ONLY=1"]
INCS = ["-include", f"{VERIF}/shims/prelude.hpp", f"-I{VERIF}/shims/config", f"-I{REPO}/src", f"-I{REPO}/src/ossia-c",
        f"-I{REPO}/src/ossia-cpp", f"-I{VERIF}/shims", f"-I{VERIF}/harness", f"-I{REPO}/3rdparty/timertt",
        "-I/usr/include/concurrentqueue/moodycamel"]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": ["-O1"],
    # thread-sanitizer instrumentation, linked against our own scheduler runtime (harness/mcrt)
    "mc": ["-O1", "-g", "-fsanitize=thread", "-DMC_INSTRUMENTED=1"],
    "tsan": ["-O1", "-g", "-fsanitize=thread"],
}
EXCLUDE = ("src/ossia/gfx/", "src/ossia/math/math_expression.cpp", "src/ossia/protocols/artnet", "src/ossia/protocols/joystick",
           "src/ossia/protocols/leapmotion", "src/ossia/protocols/libmapper", "src/ossia/protocols/phidgets", "src/ossia/protocols/wiimote",
           "src/ossia-c/log/", "src/ossia/protocols/osc/osc_factory.cpp", "src/ossia-qt", "src/ossia/detail/instantiations.cpp", "src/ossia/ossia.cpp", "src/ossia/audio/audio_engine.cpp")

@lru_cache(maxsize=None)
def fhash(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return "missing"

def lib_sources(globs):
    res = []
    for g in globs:
        for f in sorted(glob.glob(os.path.join(REPO, "src", g), recursive=True)):
            rel = os.path.relpath(f, REPO)
            if any(rel.startswith(e) for e in EXCLUDE):
                continue
            if f not in res:
                res.append(f)
    return res

ALL = ["ossia/**/*.cpp", "ossia/editor/automation/tinyspline.c"]

class BuildError(Exception):
    pass

def command(src, variant, extra):
    isC = src.endswith(".c")
    cc = ["gcc"] if isC else ["g++", "-std=c++20"]
    if os.path.basename(src).startswith("mcrt"): # the scheduler itself is not instrumented
        variant = "plain"
    return cc + ["-w", "-fPIC", "-pthread"] + VARIANTS[variant] + DEFS + list(extra) + ([x for x in INCS if "prelude" not in x and x != "-include"] if isC else INCS)

def compile_one(src, variant, extra):
    name = os.path.relpath(src, "/").replace("/", "_")
    flags = command(src, variant, extra)
    cmdh = hashlib.sha256(" ".join(flags).encode()).hexdigest()[:12]
    d = os.path.join(OUT, variant)
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, f"{name}.{cmdh}.o")
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(fhash(p) == h for p, h in deps.items()):
                return obj, False
        except ValueError:
            pass
    tmp = obj + f".{os.getpid()}.tmp"
    dep = tmp + ".d"
    r = subprocess.run(flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(f"compiling {src} failed:\n{r.stderr[-6000:]}")
    txt = open(dep).read().replace("\\\n", " ")
    files = [os.path.abspath(x) for x in txt.split(":", 1)[1].split()]
    json.dump({p: fhash(p) for p in files}, open(meta + ".tmp", "w"))
    os.replace(tmp, obj)
    os.replace(meta + ".tmp", meta)
    os.unlink(dep)
    symbols(obj)
    return obj, True

def symbols(obj):
    """(defined, undefined) external symbols of an object, cached beside it."""
    c = obj + ".sym"
    try:
        if os.path.getmtime(c) >= os.path.getmtime(obj):
            j = json.load(open(c))
            return set(j[0]), set(j[1]), set(j[2])
    except (OSError, ValueError):
        pass
    strong, weak, und = set(), set(), set()
    for l in subprocess.run(["nm", "-g", obj], capture_output=True, text=True).stdout.splitlines():
        f = l.split()
        if len(f) == 2 and f[0] == "U":
            und.add(f[1])
        elif len(f) == 3:
            (weak if f[1] in "WVu" else strong).add(f[2])
    json.dump([sorted(strong), sorted(weak), sorted(und)], open(c + ".tmp", "w"))
    os.replace(c + ".tmp", c)
    return strong, weak, und

def known_object(src, variant, extra):
    """Where the object of this source is or was, up to date or not."""
    name = os.path.relpath(src, "/").replace("/", "_")
    cmdh = hashlib.sha256(" ".join(command(src, variant, extra)).encode()).hexdigest()[:12]
    obj = os.path.join(OUT, variant, f"{name}.{cmdh}.o")
    return obj if os.path.exists(obj) and os.path.exists(obj + ".json") else None

def needed(hobjs, sources, variant, extra):
    """Compiles the sources that the harness objects need, directly or not, and only these: which ones is read off
    the symbols of the objects, those out of date being recompiled before they are trusted."""
    first = [s for s in sources if not known_object(s, variant, extra)]
    objs, n = compile_all([(s, variant, extra) for s in first])
    syms = {s: symbols(objs[s]) for s in first}
    for s in sources:
        if s not in syms:
            syms[s] = symbols(known_object(s, variant, extra))
    chosen = []
    while True:
        have, want = set(), set()
        for o in hobjs:
            st, we, un = symbols(o)
            have |= st | we
            want |= un
        for s in chosen:
            st, we, un = syms[s]
            have |= st | we
            want |= un
        want -= have
        add = []
        strong, weak = {}, {}
        for s in sources:
            if s in chosen:
                continue
            for x in syms[s][0] & want:
                strong.setdefault(x, s)
            for x in syms[s][1] & want:
                weak.setdefault(x, s)
        got = set()
        for x in sorted(want):
            s = strong.get(x) or weak.get(x)
            if s and s not in add:
                add.append(s)
        if not add:
            return [objs[s] for s in chosen], n
        stale = [s for s in add if s not in objs]
        o2, n2 = compile_all([(s, variant, extra) for s in stale])
        n += n2
        for s in stale:
            objs[s] = o2[s]
            syms[s] = symbols(o2[s])
        chosen += add

def compile_all(jobs):
    """jobs: list of (src, variant, extra). Longest first (by source size) on all cores."""
    jobs = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    n = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    return dict((j[0], r[0]) for j, r in zip(jobs, res)), sum(1 for r in res if r[1])

def link(out, objs, variant, libs=(), shared_flags=()):
    key = hashlib.sha256((" ".join(objs) + "|" + " ".join(libs) + "|" + " ".join(fhash(o + ".json") for o in objs)).encode()).hexdigest()
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return
    san = {"asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread"], "mc": ["-rdynamic", "-ldl"], "plain": []}[variant]
    cmd = ["g++", "-pthread"] + san + ["-o", out + ".tmp"] + objs + list(libs) + ["-Wl,--as-needed", "-lsamplerate"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(f"linking {out} failed:\n{r.stderr[-4000:]}")
    os.replace(out + ".tmp", out)
    open(kf, "w").write(key)

def build(name, harness, globs=(), variant="asan", libs=(), extra=(), hvariant=None):
    """Build executable `name` from harness sources + library sources matching globs."""
    fhash.cache_clear()
    hs = [os.path.join(VERIF, "harness", h) for h in ([harness] if isinstance(harness, str) else harness)]
    d = os.path.join(OUT, "bin" if REPO == "/repo" else "bin" + REPO.replace("/", "_"))
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, f"{name}.{variant}")
    def go(gl, every):
        ls = lib_sources(gl)
        objs, n = compile_all([(h, variant, tuple(extra)) for h in hs])
        ho = [objs[x] for x in hs]
        if every:
            m, n2 = compile_all([(s, variant, tuple(extra)) for s in ls])
            lo = [m[s] for s in ls]
        else:
            lo, n2 = needed(ho, ls, variant, tuple(extra))
        link(exe, ho + lo, variant, libs)
        return exe, n + n2
    try:
        return go(list(globs), False)
    except BuildError as e:
        if not globs or "linking" not in str(e):
            raise
        return go(ALL, False)

if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    exe, n = build(sys.argv[1], sys.argv[2].split(","), sys.argv[3].split(",") if len(sys.argv) > 3 and sys.argv[3] else [], *(sys.argv[4:5]))
    print(exe, "recompiled", n)
