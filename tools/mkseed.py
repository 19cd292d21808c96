#!/usr/bin/env python3
"""Build one planted change: python3 mkseed.py <spec.py>...
A spec file defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Works in a scratch copy of /repo; keeps the change only if it applies, the stable tests pass,
and the demonstration tells the two trees apart."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main(path):
    s = runpy.run_path(path)
    sid = s["ID"]
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    rp = os.path.join(w, "repo")
    try:
        shutil.copytree("/repo", rp, symlinks=True)
        out = os.path.join("/verif/seeded", sid)
        tmp = os.path.join(w, "demo"); os.mkdir(tmp)
        open(tmp + "/demo.py", "w").write(s["DEMO"])
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3 "$here/demo.py"\n')
        os.chmod(tmp + "/demo.sh", 0o755)
        a = run(["bash", tmp + "/demo.sh"], cwd=rp)
        if a.returncode != 0:
            return f"{sid}: demo fails on unchanged tree\n{a.stdout[-1500:]}"
        for f, old, new in s["EDITS"]:
            p = os.path.join(rp, f); t = open(p).read()
            if t.count(old) != 1:
                return f"{sid}: edit matches {t.count(old)} times: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        d = run(["git", "diff"], cwd=rp).stdout
        b = run(["bash", tmp + "/demo.sh"], cwd=rp)
        if b.returncode == 0:
            return f"{sid}: demo passes with the change"
        base = json.load(open("/opt/vp/BASELINE.json"))
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=rp, env=dict(os.environ, PYTHONPATH=rp))
        if t.returncode != 0:
            return f"{sid}: tests fail: " + " ".join(re.findall(r"FAILED (\S+)", t.stdout))[:300] + t.stdout[-200:]
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
        open(out + "/patch.diff", "w").write(d)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        return f"{sid}: ok; demo says: {b.stdout.strip().splitlines()[-1][:120] if b.stdout.strip() else ''}"
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    for p in sys.argv[1:]:
        print(main(p), flush=True)
