"""Builds harnesses from /repo's current working tree, outside /repo.

Objects are cached under /verif/build by a hash of the compile command and of
the content of every file that can reach the object, so a stale object can
never be used for a changed tree.
"""
import hashlib, os, subprocess, sys, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

class BuildError(Exception):
    pass

CXX = "g++"
BASE = ["-std=gnu++14", "-fPIC", "-w", "-g1", "-fno-omit-frame-pointer", "-fopenmp",
        "-DGRIDPP_VERIF", "-I" + REPO + "/include"]
VARIANTS = {
    # AddressSanitizer + UndefinedBehaviourSanitizer, asserts on
    "asan": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,alignment"],
    # libstdc++ bounds checks and no sanitizer: used where speed matters
    "plain": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    # ThreadSanitizer
    "tsan": ["-O1", "-fsanitize=thread"],
}
LINK = {
    "asan": ["-fsanitize=address,undefined", "-fopenmp"],
    "plain": ["-fopenmp"],
    "tsan": ["-fsanitize=thread", "-lpthread"],
}
CORE = ["gridpp", "util", "kdtree", "points", "grid", "point"]
HEAVY = ["oi", "oi_ensi", "oi_ensi_multi"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(p); h.update(b"\0")
    return h.hexdigest()[:24]

_filehash = {}
def fh(path):
    if path not in _filehash:
        with open(path, "rb") as f:
            _filehash[path] = hashlib.sha256(f.read()).hexdigest()
    return _filehash[path]

def repo_headers(client=False):
    hs = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/src/api/**/*.h", recursive=True))
    if client:
        hs += sorted(glob.glob(REPO + "/src/client/**/*.h", recursive=True))
    return hs

def run(cmd, timeout=900):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=BUILD)
    return p.returncode, p.stdout.decode("utf-8", "replace")

_lk = {}
def compile_obj(src, flags, deps, text=None):
    """Compile src (a path; or generated text) to a cached object."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    key = sha(" ".join(flags), text if text is not None else fh(src), *[fh(d) + os.path.basename(d) for d in deps])
    name = os.path.splitext(os.path.basename(src))[0]
    obj = "%s/obj/%s-%s.o" % (BUILD, name, key)
    if os.path.exists(obj):
        return obj, None
    if text is not None:
        os.makedirs(BUILD + "/gen", exist_ok=True)
        src = "%s/gen/%s-%s.cpp" % (BUILD, name, key)
        with open(src, "w") as f: f.write(text)
    tmp = obj + ".%d.%d" % (os.getpid(), threading.get_ident()) + ".o"
    rc, out = run([CXX] + flags + ["-c", src, "-o", tmp])
    if rc != 0:
        return None, out
    os.rename(tmp, obj)
    return obj, None

def compile_group(name, files, flags, deps):
    """One unity object for several repo files; falls back to one object per file."""
    if len(files) > 1:
        text = "".join('#include "%s"\n' % f for f in files)
        obj, err = compile_obj("u_%s.cpp" % name, flags, deps + files, text)
        if obj: return [obj]
    objs = []
    with ThreadPoolExecutor(8) as ex:
        for f, (obj, err) in zip(files, ex.map(lambda f: compile_obj(f, flags, deps), files)):
            if not obj: raise BuildError("cannot compile %s:\n%s" % (f, err[-3000:]))
            objs.append(obj)
    return objs

def api_files():
    return sorted(glob.glob(REPO + "/src/api/**/*.cpp", recursive=True))

def api_groups(needs):
    allf = {os.path.splitext(os.path.basename(f))[0]: f for f in api_files()}
    known = set(ALLNAMES)
    if needs is None:
        names = list(allf)
    else:
        names = [n for n in CORE + list(needs) if n in allf] + [n for n in allf if n not in known]
    names = list(dict.fromkeys(names))
    groups, rest = {}, []
    for n in names:
        if n in HEAVY: groups[n] = [allf[n]]
        else: rest.append(n)
    # spread light files over k unity groups by size; keep clashing names apart
    k = 1 if len(rest) <= 7 else (2 if len(rest) <= 12 else 5)
    bins = [[] for _ in range(k)]; load = [0] * k
    for n in sorted(rest, key=lambda n: (-os.path.getsize(allf[n]), n)):
        cand = sorted(range(k), key=lambda b: load[b])
        if n in ("corr_points", "local_distribution_correction"):
            other = {"corr_points", "local_distribution_correction"} - {n}
            cand = [b for b in cand if not (other & set(bins[b]))] or cand
        b = cand[0]
        bins[b].append(n); load[b] += os.path.getsize(allf[n]) + 2000
    for i, b in enumerate(bins):
        if b: groups["g%d" % i] = [allf[n] for n in sorted(b)]
    return groups

def client_groups(k=10):
    fs = sorted(f for d in ("", "Calibrator/", "Downscaler/", "File/", "ParameterFile/") for f in glob.glob(REPO + "/src/client/" + d + "*.cpp"))
    bins = [[] for _ in range(k)]; load = [0] * k
    for f in sorted(fs, key=lambda f: (-os.path.getsize(f), f)):
        b = min(range(k), key=lambda b: load[b])
        bins[b].append(f); load[b] += os.path.getsize(f) + 8000
    return [("c%d" % i, sorted(b)) for i, b in enumerate(bins) if b]

CLIENT_LIBS = ["-lnetcdf", "-lgsl", "-lgslcblas", "-larmadillo"]
def build_client_harness(harness, variant="asan", extra_flags=(), libs=()):
    """A harness linked with the sources of the command-line client (without its driver)."""
    os.makedirs(BUILD, exist_ok=True)
    flags = BASE + VARIANTS[variant] + ["-I" + REPO + "/src/client"] + list(extra_flags)
    own = sorted(glob.glob(VERIF + "/harness/*.h"))
    hdrs = repo_headers(True)
    shim = VERIF + "/harness/client_shim.h"
    cflags = flags + ["-include", shim]
    with ThreadPoolExecutor(10) as ex:
        fh_ = ex.submit(compile_obj, VERIF + "/harness/" + harness + ".cpp", flags, hdrs + own + sorted(glob.glob(REPO + "/src/client/Driver/*.cpp")))
        futs = [ex.submit(compile_group, n, fs, cflags, hdrs + [shim]) for n, fs in client_groups()]
        o, err = fh_.result()
        if not o: raise BuildError("harness %s does not compile:\n%s" % (harness, err[-4000:]))
        objs = [o]
        for f in futs: objs += f.result()
    exe = "%s/%s-%s-%s" % (BUILD, harness, variant, sha(*objs))
    if os.path.exists(exe): return exe
    tmp = exe + ".%d" % os.getpid()
    rc, out = run([CXX] + objs + LINK[variant] + CLIENT_LIBS + list(libs) + ["-o", tmp])
    if rc != 0: raise BuildError("link failed:\n" + out[-4000:])
    os.rename(tmp, exe)
    return exe

ALLNAMES = """bilinear calc_gradient corr_points count curve distance distribution doping downscale_probability downscaling fill
gradient grid gridding gridpp humidity kdtree local_distribution_correction mask_threshold_downscale_consensus metric_optimizer nearest
neighbourhood neighbourhood_score neighbourhood_search oi oi_ensi oi_ensi_multi point points pressure qnh quantile_mapping
simple_gradient smart structure swig transform util wind window""".split()

def build_api_harness(harness, needs, variant="asan", extra_flags=(), extra_src=(), raw_src=(), tag=""):
    os.makedirs(BUILD, exist_ok=True)
    flags = BASE + VARIANTS[variant] + list(extra_flags)
    hdrs = repo_headers()
    own = sorted(glob.glob(VERIF + "/harness/*.h"))
    def attempt(nd):
        groups = api_groups(nd)
        jobs = [(n, fs) for n, fs in groups.items()]
        jobs.sort(key=lambda j: -(100 if j[0] in HEAVY else len(j[1])))
        with ThreadPoolExecutor(8) as ex:
            fut_h = [ex.submit(compile_obj, VERIF + "/harness/" + s, flags, hdrs + own) for s in (harness + ".cpp",) + tuple(extra_src)]
            # sources that must not be instrumented
            fut_h += [ex.submit(compile_obj, VERIF + "/harness/" + s, ["-std=gnu++14", "-O1", "-g1", "-w"], []) for s in raw_src]
            futs = [ex.submit(compile_group, n, fs, flags, hdrs) for n, fs in jobs]
            objs = []
            for f in fut_h:
                o, err = f.result()
                if not o: raise BuildError("harness %s does not compile:\n%s" % (harness, err[-4000:]))
                objs.append(o)
            for f in futs: objs += f.result()
        exe = "%s/%s-%s-%s" % (BUILD, harness, variant, sha(*objs))
        if os.path.exists(exe): return exe, None
        tmp = exe + ".%d" % os.getpid()
        rc, out = run([CXX] + objs + LINK[variant] + ["-larmadillo", "-o", tmp])
        if rc != 0: return None, out
        os.rename(tmp, exe)
        return exe, None
    exe, err = attempt(needs)
    if not exe and needs is not None:
        exe, err = attempt(None)
    if not exe:
        raise BuildError("link failed:\n" + err[-4000:])
    return exe
