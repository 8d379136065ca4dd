#!/usr/bin/env python3
"""replay.py <property> <case> <seed>: re-run a single generated case with the sanitizer report on the terminal."""
import os, sys, subprocess, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import build as B, runner as R, props
pid, case, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
cfg = props.P[pid]
if cfg["kind"] == "module":
    import importlib
    m = importlib.import_module("lib." + cfg["module"])
    if hasattr(m, "replay"): sys.exit(m.replay(pid, case, seed, sys.argv[4:]))
    exe = m.exes()[1 if "libgomp" in sys.argv else 0]
elif cfg["kind"] == "client": exe = B.build_client_harness(cfg["harness"])
else: exe = B.build_api_harness(cfg["harness"], cfg["needs"])
env = dict(os.environ); env.update(R.SAN_ENV); env.update(cfg["env"])
with tempfile.TemporaryDirectory() as w:
    rc = subprocess.run([exe, "--seed", seed, "--start", str(case), "--end", str(case + 1)], env=env, cwd=w).returncode
sys.exit(rc)
