"""Scratch directory and worker processes."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable


def scratch_dir():
    d = tempfile.mkdtemp(prefix="sandfs-check-")
    os.chmod(d, 0o755)
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True) if not os.environ.get("SANDFS_KEEP") else None)
    return d


class HarnessError(Exception):
    """The checking machinery itself failed."""


def _go(tag, part, scratch, timeout):
    job = os.path.join(scratch, f"job{tag}.json")
    out = os.path.join(scratch, f"res{tag}.jsonl")
    home = os.path.join(scratch, f"home{tag}")
    os.makedirs(home, exist_ok=True)
    if os.geteuid() == 0:
        os.chown(home, 65534, 65534)
    with open(job, "w") as f:
        json.dump({"items": part}, f)
    env = {"SANDFS_REPO": os.environ.get("SANDFS_REPO", "/repo"), "PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "PYTHONHASHSEED": "0", "TZ": "UTC", "V": "outside", "N": "outside",
           "PYTHONDONTWRITEBYTECODE": "1"}
    try:
        p = subprocess.run([PY, "-B", os.path.join(HERE, "worker.py"), job, out, home], env=env,
                           capture_output=True, text=True, timeout=timeout, cwd=home)
    except subprocess.TimeoutExpired:
        p = None
    recs = []
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    break
        os.unlink(out)
    os.unlink(job)
    shutil.rmtree(home, ignore_errors=True)
    if p is None or p.returncode != 0 or len(recs) != len(part):
        return recs, part[len(recs)] if len(recs) < len(part) else None, "timeout" if p is None else (p.stdout + p.stderr)[-3000:]
    return recs, None, ""


def run_items(items, scratch, jobs=8, timeout=600):
    """Run work items in worker processes.

    Returns (records in order of the items, list of {item, why} that bring the worker down)."""
    if not items:
        return [], []
    for n, it in enumerate(items):
        it["n"] = n
    jobs = max(1, min(jobs, len(items)))
    parts = [items[i::jobs] for i in range(jobs)]

    def go(i, part):
        recs, errs = [], []
        rest, k = part, 0
        while rest:
            got, bad, why = _go(f"{i}x{k}", rest, scratch, timeout)
            recs += got
            if not why:
                break
            if bad is None:
                raise HarnessError(why)
            again, bad2, why2 = _go(f"{i}y{k}", [bad], scratch, 60)
            if why2:
                errs.append({"item": bad, "why": why2})
            else:
                recs += again
            rest, k = rest[len(got) + 1:], k + 1
            if k > 2 or why == "timeout":
                break
        return recs, errs

    recs, errs = [], []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r, e in ex.map(lambda a: go(*a), enumerate(parts)):
            recs += r
            errs += e
    recs.sort(key=lambda r: r["id"])
    return recs, errs
