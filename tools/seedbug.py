#!/usr/bin/env python3
"""Builds and validates planted bugs by hand: seedbug.py FILE.py [id ...]; FILE.py fills BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=python text | cpp=...)].
Every bug is applied in /repo's working tree, built, tested, demonstrated, checked and undone again. Not used by any check."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def restore(): sh("git -C %s checkout -- ." % R)
HEAD = "#!/bin/bash\n# run with cwd /repo after the build\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=${OMP_NUM_THREADS:-4}\n"
def build(): return sh("bash /opt/vp/build.sh").returncode
def demo(d): return sh("timeout 290 bash %s/demo.sh" % d, cwd=R)
assert sh("git -C %s status --porcelain" % R).stdout == "", "repo dirty"
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    d = "%s/seeded/%s" % (V, b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        if "demo" in b:
            open(d + "/demo.py", "w").write(b["demo"].lstrip("\n")); open(d + "/demo.sh", "w").write(HEAD + 'PYTHONPATH=_build/swig/python exec /usr/bin/python3 "$(dirname "$0")/demo.py"\n')
        else:
            for n, t in b.get("files", {}).items(): open(d + "/" + n, "w").write(t.lstrip("\n"))
            open(d + "/demo.sh", "w").write(HEAD + b["sh"].lstrip("\n"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        for f, old, new, *nth in b["edits"]:
            p = R + "/" + f; s = open(p, newline="").read(); crlf = "\r\n" in s
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            parts = s.split(old); assert len(parts) == 2 or nth and len(parts) > nth[0] + 1, (b["id"], f, "matches", len(parts) - 1)
            k = nth[0] + 1 if nth else 1; open(p, "w", newline="").write(old.join(parts[:k]) + new + old.join(parts[k:]))
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout; open(d + "/patch.diff", "wb").write(diff)
        if build(): print(b["id"], "DOES NOT BUILD"); continue
        t = sh("bash /opt/vp/test.sh /tmp/w/seed.json"); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/w/seed.json"))["passed"])
        x = demo(d); c = []
        for pid in [b["property"]] + b.get("also", []):
            r = sh("timeout 900 python3 check.py %s quick" % pid, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")); c.append("%s:%d %s" % (pid, r.returncode, (r.stdout.strip().split("\n") or [""])[0][:140]))
        restore(); build(); y = demo(d)
        print(b["id"], "tests", "ok" if not st else "BROKEN %s" % sorted(st)[:4], "| demo with bug rc=%d, without rc=%d%s" % (x.returncode, y.returncode, "" if x.returncode and not y.returncode else "  <-- BAD DEMO " + (y.stdout if y.returncode else x.stdout)[-300:]), "|", " ; ".join(c), flush=True)
    finally: restore()
build()
