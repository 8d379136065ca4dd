"""C22: builds the Python extension module of the current tree with ASan+UBSan and drives it with harness/py_binding.py."""
import os, glob, subprocess, sysconfig, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B, runner as R

PY = "/usr/bin/python3"
def q(code): return subprocess.check_output([PY, "-c", code], text=True, env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}).strip()
def module():
    """Directory with gridpp.py and _gridpp_swig.so."""
    os.makedirs(B.BUILD, exist_ok=True)
    # any python integer can be given as an enumeration value: refusing it is up to the library, so its load is not an error by itself
    flags = B.BASE + B.VARIANTS["asan"] + ["-fno-sanitize=enum"]
    hdrs = B.repo_headers(); ifs = sorted(glob.glob(B.REPO + "/swig/*.i"))
    key = B.sha(*[B.fh(f) for f in hdrs + ifs])
    gen = B.BUILD + "/py-" + key; os.makedirs(gen, exist_ok=True)
    # the options of swig/python/CMakeLists.txt and of the build of this sandbox
    rc, out = B.run(["swig", "-python", "-c++", "-doxygen", "-flatstaticmethod", "-interface", "_gridpp_swig", "-I" + B.REPO + "/include", "-I" + B.REPO + "/swig", "-o", gen + "/wrap.cpp", "-outdir", gen, B.REPO + "/swig/gridpp.i"])
    if rc != 0: raise B.BuildError("swig failed:\n" + out[-3000:])
    inc = ["-I" + q("import sysconfig;print(sysconfig.get_paths()['include'])"), "-I" + q("import numpy;print(numpy.get_include())")]
    wflags = [f for f in flags if f != "-O1"] + ["-O0"] + inc
    own = [B.VERIF + "/harness/pyref.inc"]
    with ThreadPoolExecutor(8) as ex:
        fw = ex.submit(B.compile_obj, gen + "/wrap.cpp", wflags, hdrs)
        fr = ex.submit(B.compile_obj, B.VERIF + "/harness/pyref.cpp", [f for f in flags if f != "-O1"] + ["-O0"], hdrs + own)
        groups = sorted(B.api_groups(None).items(), key=lambda j: -(100 if j[0] in B.HEAVY else len(j[1])))
        fs = [ex.submit(B.compile_group, n, f, flags, hdrs) for n, f in groups]
        objs = []
        for f, what in ((fw, "wrapper"), (fr, "pyref")):
            o, err = f.result()
            if not o: raise B.BuildError("%s does not compile:\n%s" % (what, err[-4000:]))
            objs.append(o)
        for f in fs: objs += f.result()
    so = gen + "/_gridpp_swig-" + B.sha(*objs) + ".so"
    if not os.path.exists(so):
        rc, out = B.run(["g++", "-shared"] + B.LINK["asan"] + objs + ["-larmadillo", "-lgsl", "-lgslcblas", "-o", so + ".%d" % os.getpid()])
        if rc != 0: raise B.BuildError("link failed:\n" + out[-4000:])
        os.rename(so + ".%d" % os.getpid(), so)
    # one directory per library, with the names python expects
    d = so[:-3]; os.makedirs(d, exist_ok=True)
    for src, dst in ((so, "_gridpp_swig.so"), (gen + "/gridpp.py", "gridpp.py")):
        t = "%s/%s.%d" % (d, dst, os.getpid()); os.symlink(src, t); os.rename(t, d + "/" + dst)
    return d

def exe(work):
    d = module()
    pre = " ".join(subprocess.check_output(["g++", "-print-file-name=" + l], text=True).strip() for l in ("libasan.so", "libubsan.so", "libstdc++.so"))
    os.makedirs(work, exist_ok=True)
    sh = work + "/py_binding.sh"
    with open(sh, "w") as f:
        f.write("#!/bin/sh\nexport PYTHONHASHSEED=0 PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1 LD_PRELOAD='%s'\nexec %s %s/harness/py_binding.py --module %s \"$@\"\n" % (pre, PY, B.VERIF, d))
    os.chmod(sh, 0o755)
    return sh

def main(pid, tier, seed, t0, work, cfg, finish):
    e = exe(work); tb = time.time() - t0
    n = int(os.environ.get("VERIF_CASES", cfg[tier]))
    res = R.run_cases(e, seed, n, work + "/run", cfg["env"])
    return finish(pid, tier, seed, t0, res, cfg["rule"], extra=dict(build_s=round(tb, 1)), replay_fmt="python3 /verif/replay.py %s %%(case)s %%(seed)s" % pid)

def replay(pid, case, seed, extra):
    import tempfile
    with tempfile.TemporaryDirectory() as w:
        return subprocess.run([exe(w), "--seed", seed, "--start", str(case), "--end", str(case + 1)], env=dict(os.environ, **R.SAN_ENV), cwd=w).returncode
