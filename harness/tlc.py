"""Runs TLC."""
import json
import os
import re
import subprocess
import concurrent.futures as cf

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    pass


def run(module, cfg, env, scratch, workers=1, timeout=800, heap="3g", extra=()):
    meta = os.path.join(scratch, "tlc-" + re.sub(r"\W", "", os.path.basename(env.get("SANDFS_TAG", module))))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ, SANDFS_SPEC=SPEC, **env)
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta,
           "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    p = subprocess.run(cmd, cwd=meta, env=e, capture_output=True, text=True, timeout=timeout)
    out = p.stdout + p.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return {"rc": p.returncode, "out": out, "gen": int(m.group(1)) if m else -1, "distinct": int(m.group(2)) if m else -1}


def check_batch(batch, scratch, tag, module="Trace"):
    """Validate histories; returns (list of verdict records, error text or None)."""
    src = os.path.join(scratch, f"{tag}.json")
    dst = os.path.join(scratch, f"{tag}.out")
    with open(src, "w") as f:
        json.dump([{"id": str(h["id"]), "steps": h["steps"]} for h in batch], f, ensure_ascii=True)
    if os.path.exists(dst):
        os.unlink(dst)
    try:
        r = run(module, module + ".cfg", {"SANDFS_TRACE": src, "SANDFS_OUT": dst, "SANDFS_TAG": tag}, scratch)
    except subprocess.TimeoutExpired:
        return [], "timeout", 0
    if "semantic analysis failed" in r["out"] or "Parse Error" in r["out"] or "Parsing or semantic" in r["out"]:
        raise TlcError(r["out"][-1200:])
    want = sum(len(h["steps"]) + 1 for h in batch)
    verdicts = []
    if os.path.exists(dst):
        with open(dst, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line:
                    rec = json.loads(line)
                    verdicts.append(json.loads(rec) if isinstance(rec, str) else rec)
    err = None
    if r["rc"] != 0 or r["distinct"] != want:
        hs = re.findall(r"/\\ h = (\d+)", r["out"])
        why = [x for x in r["out"].splitlines() if x.startswith("Error") or "Attempted" in x or "was not" in x][:6]
        err = (f"rc={r['rc']} distinct={r['distinct']} want={want}\n/\\ h = {hs[-1] if hs else 0}\n"
               + "\n".join(why) + "\n" + r["out"][-1500:])
    for p in (src, dst):
        if os.path.exists(p) and not os.environ.get("SANDFS_KEEP"):
            os.unlink(p)
    return verdicts, err, max(r["distinct"], 0)


def validate(hists, scratch, tag, jobs=8, module="Trace"):
    """Validate many histories in parallel.

    Returns verdicts, the histories the specification could not even evaluate, states."""
    hists = [h for h in hists if h["steps"]]
    if not hists:
        return [], [], 0
    order = sorted(hists, key=lambda h: -len(json.dumps(h["steps"])))
    n = max(1, min(jobs, (len(order) + 19) // 20))
    batches = [order[i::n] for i in range(n)]
    verdicts, stuck, states = [], [], 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(check_batch, b, scratch, f"{tag}-{i}", module): b for i, b in enumerate(batches)}
        for fu in cf.as_completed(futs):
            v, err, n_states = fu.result()
            states += n_states
            if err is None:
                verdicts += v
            else:
                # find the histories that cannot be evaluated
                more, bad, s2 = bisect(futs[fu], scratch, tag + "-x" + str(id(fu) % 99999), err, module)
                verdicts += more
                stuck += bad
    return verdicts, stuck, states


def bisect(batch, scratch, tag, err, module, depth=0):
    """The specification could not evaluate some history: set it aside and go on with the rest."""
    if len(batch) == 1:
        return [], [(batch[0], err)], 0
    m = re.findall(r"/\\ h = (\d+)", err)
    if m and depth < 12 and 1 <= int(m[-1]) <= len(batch):
        k = int(m[-1]) - 1
        parts, stuck = [batch[:k] + batch[k + 1:]], [(batch[k], err)]
    else:
        mid = len(batch) // 2
        parts, stuck = [batch[:mid], batch[mid:]], []
    verdicts, states = [], 0
    for j, part in enumerate(parts):
        v, e, s = check_batch(part, scratch, f"{tag}{j}", module)
        states += s
        if e is None:
            verdicts += v
        else:
            v2, b2, s2 = bisect(part, scratch, f"{tag}{j}", e, module, depth + 1)
            verdicts += v2
            stuck += b2
            states += s2
    return verdicts, stuck, states
