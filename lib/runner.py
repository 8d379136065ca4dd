"""Runs a harness over sharded cases with crash containment and turns its event log into a verdict."""
import os, re, subprocess, time, json, shutil, sys, signal, hashlib
from . import build as B

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4000:detect_stack_use_after_return=0:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1",
    "OMP_NUM_THREADS": "1",
    "OMP_WAIT_POLICY": "passive",
    "LC_ALL": "C",
}

def classify(stderr, rc):
    """(kind, where) of an abnormal end."""
    kind, where = "exit%s" % rc, "?"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", stderr)
    u = re.search(r"runtime error: ([^\n]*)", stderr)
    t = re.search(r"terminate called after throwing an instance of '([^']*)'", stderr)
    a = re.search(r"Assertion [`']([^']*)' failed", stderr) or re.search(r"Assertion '([^']*)' failed", stderr)
    g = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", stderr)
    e = re.search(r"\nerror: ([^\n]*)", "\n" + stderr)
    if m: kind = "asan-" + m.group(1)
    elif u: kind = "ubsan-" + re.sub(r"[0-9xa-fA-F]*[0-9]+[0-9.e+-]*", "N", u.group(1))[:60].strip().replace(" ", "-")
    elif g: kind = "tsan-" + g.group(1).strip().replace(" ", "-")
    elif t: kind = "terminate-" + t.group(1)
    elif a: kind = "assert"
    elif rc is not None and rc < 0: kind = "signal%d" % -rc
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", stderr) if not g else re.findall(r"#\d+ (.+?) (/\S+?):(\d+) \(", stderr)
    for fn, path, _ in frames:
        if "/src/api/" in path or "/src/client/" in path or "/include/gridpp" in path:
            where = re.sub(r"\(.*", "", fn); where = re.sub(r" \[clone.*", "", where); break
    else:
        if a:
            where = a.group(1)[:60]
        elif t:
            w = re.search(r"what\(\):\s*([^\n]*)", stderr)
            if w: where = re.sub(r"[-0-9.]+", "N", w.group(1))[:60]
    return kind, where.replace(" ", "_")

class Result:
    def __init__(self):
        self.viol = []          # dicts {key, detail, case, kind}
        self.evals = 0; self.checks = 0; self.live = 0
        self.hashes = set(); self.kinds = {}; self.samples = []
        self.errors = []        # harness failures
        self.inconclusive = []

def parse_log(path, off, res, state):
    """Consume new complete lines of the log; returns new offset."""
    with open(path, "rb") as f:
        f.seek(off); data = f.read()
    end = data.rfind(b"\n")
    if end < 0: return off
    for ln in data[:end].decode("utf-8", "replace").split("\n"):
        q = ln.split("\t")
        if q[0] == "B": state["open"] = (int(q[1]), q[2])
        elif q[0] == "V":
            res.viol.append(dict(case=int(q[1]), key=q[2], detail="\t".join(q[3:]), kind=(state.get("open") or (0, "?"))[1]))
        elif q[0] == "D":
            state["open"] = None; state["last"] = int(q[1])
            res.evals += 1; res.checks += int(q[3]); res.live += int(q[4])
            k = res.kinds.setdefault(q[2], [0, 0, 0]); k[0] += 1; k[1] += int(q[3]); k[2] += int(q[4])
            if int(q[4]) > 0: res.hashes.add(q[2] + q[5])
            if len(q) > 7 and q[7] and sum(1 for s in res.samples if s["kind"] == q[2]) < 2 and len(res.samples) < 24:
                res.samples.append(dict(case=int(q[1]), kind=q[2], text=q[7]))
        elif q[0] == "E": state["done"] = True
    return off + end + 1

def run_cases(exe, seed, ncases, workdir, env=None, shards=8, hang_s=150, extra=(), max_crash=12, cpus=8, first=0):
    os.makedirs(workdir, exist_ok=True)
    e = dict(os.environ); e.update(SAN_ENV); e.update(env or {})
    res = Result()
    shards = max(1, min(shards, ncases))
    procs = []
    def launch(sh):
        sh["err"] = open(sh["errpath"], "wb")
        sh["p"] = subprocess.Popen([exe, "--seed", str(seed), "--start", str(sh["start"]), "--end", str(first + ncases), "--stride", str(shards), "--out", sh["log"]] + list(extra),
                                   stdout=sh["err"], stderr=subprocess.STDOUT, env=e, cwd=workdir, preexec_fn=os.setsid)
        sh["t"] = time.time(); sh["state"] = {}
    for i in range(shards):
        sh = dict(start=first + i, log="%s/s%d.log" % (workdir, i), errpath="%s/s%d.err" % (workdir, i), off=0, crashes=0)
        open(sh["log"], "wb").close()
        launch(sh); procs.append(sh)
    def kill(sh):
        try: os.killpg(sh["p"].pid, signal.SIGKILL)
        except Exception: pass
        sh["p"].wait()
    active = list(procs)
    try:
        while active:
            time.sleep(0.05)
            for sh in list(active):
                rc = sh["p"].poll()
                new = parse_log(sh["log"], sh["off"], res, sh["state"])
                if new != sh["off"]:
                    sh["off"] = new; sh["t"] = time.time()
                hang = False
                if rc is None:
                    if time.time() - sh["t"] < hang_s: continue
                    kill(sh); hang = True; rc = -9
                sh["off"] = parse_log(sh["log"], sh["off"], res, sh["state"])
                sh["err"].close()
                op = sh["state"].get("open")
                if rc == 0 and sh["state"].get("done"):
                    active.remove(sh); continue
                if not op:
                    # died between cases: not attributable
                    if sh.get("retry", 0) < 1:
                        sh["retry"] = 1; sh["start"] = sh["state"].get("last", sh["start"] - shards) + shards
                        launch(sh); continue
                    res.errors.append("shard ended rc=%s outside a case: %s" % (rc, open(sh["errpath"], errors="replace").read()[-2000:])); active.remove(sh); continue
                case, kind = op
                err = open(sh["errpath"], errors="replace").read()
                if hang:
                    # re-run once alone with a longer limit before calling it a hang
                    try:
                        subprocess.run([exe, "--seed", str(seed), "--start", str(case), "--end", str(case + 1)] + list(extra), env=e, cwd=workdir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=2 * hang_s)
                        res.inconclusive.append("case %d slow" % case)
                    except subprocess.TimeoutExpired:
                        res.viol.append(dict(case=case, kind=kind, key="hang:%s" % kind, detail="no progress for %d s, twice" % hang_s))
                elif rc == -9:
                    # ended from outside (memory guard): re-run alone once
                    p = subprocess.run([exe, "--seed", str(seed), "--start", str(case), "--end", str(case + 1)] + list(extra), env=e, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if p.returncode != 0:
                        k, w = classify(p.stdout.decode("utf-8", "replace"), p.returncode)
                        res.viol.append(dict(case=case, kind=kind, key="crash:%s:%s:%s" % (kind, k, w), detail="killed / rc=%s" % p.returncode))
                else:
                    k, w = classify(err, rc)
                    if k == "exit3" or k == "exit127":
                        res.errors.append("harness error: " + err[-1500:])
                    else:
                        res.viol.append(dict(case=case, kind=kind, key="crash:%s:%s:%s" % (kind, k, w), detail=err[:6000]))
                        res.kinds.setdefault(kind, [0, 0, 0])
                sh["crashes"] += 1
                if sh["crashes"] >= max_crash:
                    active.remove(sh); continue
                sh["start"] = case + shards
                if sh["start"] >= first + ncases: active.remove(sh); continue
                launch(sh)
    finally:
        for sh in procs:
            if sh["p"].poll() is None: kill(sh)
    return res
