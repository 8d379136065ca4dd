#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   -- decide one property on /repo's current tree."""
import os, sys, json, time, re, shutil, tempfile, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import build as B, runner as R, props

VERIF = B.VERIF

def known(pid):
    out = []
    with open(VERIF + "/known-findings.txt") as f:
        for ln in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    return out

def finish(pid, tier, seed, t0, res, rule, level="exploration", extra=None, replay_fmt=None):
    kn = known(pid); hit = set(); new = []
    for v in res.viol:
        for k, d in kn:
            if re.fullmatch(k, v["key"]): hit.add((k, d)); break
        else: new.append(v)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    cov = dict(evaluations=res.evals, distinct_nontrivial=len(res.hashes), rule=rule, samples=res.samples[:24] or [dict(note="no sample")],
               oracle_comparisons=res.checks, live_comparisons=res.live, per_kind={k: dict(cases=v[0], comparisons=v[1], live=v[2]) for k, v in sorted(res.kinds.items())})
    if res.inconclusive: cov["inconclusive"] = res.inconclusive[:20]
    if extra: cov.update(extra)
    bykey = {}
    for v in new: bykey.setdefault(v["key"], []).append(v)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2))
    ev["violations"] = len(bykey)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    for k, d in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if new:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for i, (key, vs) in enumerate(sorted(bykey.items())[:8]):
            v = vs[0]
            path = "%s/replays/%s-%d.json" % (VERIF, pid, i)
            with open(path, "w") as f: json.dump(dict(property=pid, seed=seed, tier=tier, occurrences=len(vs), replay=(replay_fmt or "") % dict(case=v["case"], seed=seed) if replay_fmt else None, **v), f, indent=1)
            print("  %s (%d times) case %s: %s" % (key, len(vs), v["case"], v["detail"][:300].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if res.errors:
        print("ERROR (check, not a violation): " + "; ".join(res.errors)[:3000]); return 2
    dead = [k for k, v in res.kinds.items() if v[0] >= 20 and v[2] == 0]
    if res.evals == 0 or not res.hashes or dead:
        print("ERROR: nothing observed %s" % dead); return 2
    print("OK property=%s tier=%s seed=%d cases=%d distinct=%d comparisons=%d live=%d wall=%.1fs" % (pid, tier, seed, res.evals, len(res.hashes), res.checks, res.live, time.time() - t0))
    return 0

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = props.P[pid]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if cfg["kind"] in ("api", "client"):
            exe = B.build_api_harness(cfg["harness"], cfg["needs"]) if cfg["kind"] == "api" else B.build_client_harness(cfg["harness"])
            tb = time.time() - t0
            n = int(os.environ.get("VERIF_CASES", cfg[tier]))
            res = R.run_cases(exe, seed, n, work, cfg["env"])
            return finish(pid, tier, seed, t0, res, cfg["rule"], extra=dict(build_s=round(tb, 1)),
                          replay_fmt="python3 /verif/replay.py %s %%(case)s %%(seed)s" % pid)
        else:
            import importlib
            mod = importlib.import_module("lib." + cfg["module"])
            return mod.main(pid, tier, seed, t0, work, cfg, finish)
    except B.BuildError as e:
        print("ERROR: build: %s" % e); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
