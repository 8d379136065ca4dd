"""C20: the same harness twice, instrumented by ThreadSanitizer on a visible OpenMP runtime, and with the real one under AddressSanitizer."""
import os, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B, runner as R

def exes():
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(B.build_api_harness, "h_threads", None, "tsan", raw_src=("gomp_shim.cpp",))
        b = ex.submit(B.build_api_harness, "h_threads", None, "asan")
        return a.result(), b.result()

def main(pid, tier, seed, t0, work, cfg, finish):
    tsan, asan = exes(); tb = time.time() - t0
    nt, na = cfg[tier]
    if "VERIF_CASES" in os.environ: nt = na = int(os.environ["VERIF_CASES"])
    r1 = R.run_cases(tsan, seed, nt, work + "/tsan", cfg["env"])
    r2 = R.run_cases(asan, seed + 7000, na, work + "/asan", dict(cfg["env"], OMP_NUM_THREADS="8"), shards=4)
    res = r1
    for v in r2.viol: v["key"] = "real-runtime:" + v["key"]
    for s in r1.samples: s["runtime"] = "ThreadSanitizer"
    for s in r2.samples: s["runtime"] = "libgomp"
    ev = dict(cases_under_thread_sanitizer=r1.evals, cases_with_libgomp=r2.evals, build_s=round(tb, 1))
    res.viol += r2.viol; res.evals += r2.evals; res.checks += r2.checks; res.live += r2.live; res.errors += r2.errors; res.inconclusive += r2.inconclusive; res.samples = r1.samples[:12] + r2.samples[:12]
    res.hashes |= r2.hashes
    for k, v in r2.kinds.items(): res.kinds["libgomp " + k] = v
    return finish(pid, tier, seed, t0, res, cfg["rule"], extra=ev, replay_fmt="python3 /verif/replay.py %s %%(case)s %%(seed)s" % pid)
