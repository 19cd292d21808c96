"""Transitions enumerated by the bounded model, and their replay into the implementation."""
import concurrent.futures as cf
import json
import os

import pool
import tlc

ALL = ["WF"] + ["C%02d" % i for i in range(1, 24)]


def explore(models, tier, scratch, deadline=700):
    """Run TLC on every model; returns a list of {model, states, transitions, edges}."""
    def go(i, m):
        conf = os.path.join(scratch, f"mc{i}.json")
        out = os.path.join(scratch, f"mc{i}.out")
        with open(conf, "w") as f:
            json.dump({"setup": m["setup"], "menu": m["menu"], "depth": m["depth"][tier], "props": ALL, "keep": m["keep"]}, f)
        r = tlc.run("MC", "MC.cfg", {"SANDFS_CONF": conf, "SANDFS_OUT": out, "SANDFS_TAG": f"mc{i}"}, scratch,
                    workers=max(2, 8 // max(1, min(3, len(models)))), timeout=deadline, heap="6g")
        if r["rc"] != 0:
            raise tlc.TlcError(f"model {m['name']}: rc={r['rc']}\n" + "\n".join(
                x for x in r["out"].splitlines() if "rror" in x or "breaks" in x or "Attempt" in x)[:1500])
        edges = {}
        with open(out, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    e = json.loads(e) if isinstance(e, str) else e
                    edges[tuple(e["h"])] = e
        os.unlink(out)
        return {"model": m, "states": r["distinct"], "transitions": len(edges), "edges": [edges[k] for k in sorted(edges)]}
    with cf.ThreadPoolExecutor(3) as ex:
        return list(ex.map(lambda a: go(*a), enumerate(models)))


def replay(found, scratch, jobs=8, timeout=700):
    """Replay all edges; returns (number replayed, ops of the edges that came out differently, errors)."""
    items = []
    for f in found:
        n = max(1, min(jobs * 2, len(f["edges"]) // 40))
        for j in range(n):
            items.append({"kind": "edges", "setup": f["model"]["setup"], "menu": f["model"]["menu"], "edges": f["edges"][j::n]})
    recs, errs = pool.run_items(items, scratch, jobs, timeout)
    done = sum(r["done"] for r in recs)
    diff = [d for r in recs for d in r["diff"]]
    return done, diff, errs
