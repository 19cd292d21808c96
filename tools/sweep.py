#!/usr/bin/env python3
"""Run each planted change's own check with the change applied to a scratch copy of the repository:
python3 tools/sweep.py [ids...]    SWEEP_FROM: repository to copy (default /repo)"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, "seeded")
SRC = os.environ.get("SWEEP_FROM", "/repo")
for i in sys.argv[1:] or sorted(os.listdir(S)):
    pid = json.load(open(f"{S}/{i}/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="sweep", dir="/tmp")
    os.chmod(w, 0o755)
    t = time.time()
    try:
        rp = os.path.join(w, "repo")
        shutil.copytree(SRC, rp, symlinks=True)
        a = subprocess.run(["git", "-C", rp, "apply", f"{S}/{i}/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            print(f"{i:24} {pid} does not apply {a.stderr[:100]}", flush=True)
            continue
        r = subprocess.run(["python3", os.path.join(HERE, "check.py"), pid, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, SANDFS_REPO=rp))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(f"{i:24} {pid} {'CAUGHT' if r.returncode == 1 and v else 'missed rc=%d' % r.returncode} {time.time()-t:.0f}s {v[0][:90] if v else r.stdout[-200:]!r}", flush=True)
