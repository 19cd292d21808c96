"""Replays transitions of the bounded model and compares what happened with what the model says."""
import json
import subprocess


def bag(x):
    return sorted(map(repr, x))


def same(e, step, lims={}):
    op, res, obs = step["op"], step["res"], step["obs"]
    if e["ok"] != res["ok"] or res["host"] or (op["k"] == "sh" and res["raised"]) or (op["k"] == "sh" and not res["ok"] and not res["said"]):
        return "result"
    if e["ok"]:
        out, got, mode = e["out"], res["out"], e["mode"]
        if mode == "pre":
            if len(got) != 1 or not got[0].startswith(out[0]):
                return "out"
        elif mode == "bag":
            if op["k"] == "sh":
                got = [] if got == [""] and not out else got[0].split("\n") if len(got) == 1 else got
            if bag(got) != bag(out):
                return "out"
        elif mode != "any" and got != out:
            return "out"
        if mode != "any" and op["k"] == "sh" and e["err"] != res["errtxt"]:
            return "stderr"
    lim = lims.get(op.get("id"), -1) if op["k"] == "sh" else -1
    if lim >= 0 and sum(len(x.encode("utf-8")) for x in res["out"]) + (res["errlen"] if res["ok"] or res["errlen"] > 200 else 0) > lim:
        return "limit"
    if res["spawn"] != e["spawn"]:
        return "spawn"
    ev, real = e["ev"], json.loads(json.dumps(res["ev"]))
    if bag(ev) != bag(real):
        return "events"
    if op["k"] not in ("remove", "sh", "host", "py") and any([x for x in ev if x[0] == k] != [x for x in real if x[0] == k] for k in "wp"):
        return "events"
    if e["cwd"] != obs["cwd"]:
        return "cwd"
    want = {tuple(r["p"]): (r["k"], r["c"], r["v"], r["r"], r["w"], r["a"], r["cls"], tuple(sorted(r["pr"])),
                            tuple(sorted(map(tuple, r["md"])))) for r in e["t"]}
    got = {tuple(x["p"]): (x["n"]["k"], x["n"]["c"], x["n"]["v"], x["n"]["r"], x["n"]["w"], x["n"]["a"], x["n"]["cls"],
                           tuple(sorted(x["n"]["pr"])), tuple(sorted(map(tuple, x["n"]["md"])))) for x in obs["t"]}
    if want != got:
        return "tree"
    for a in e["ad"]:
        real = [x for x in obs["ad"] if x["id"] == a["id"]]
        if not real or bag(a["e"]) != bag(real[0]["e"]):
            return "storage"
    return ""


def one(item, scratch, impl, gen):
    diff, done, hung = [], 0, 0
    lims = {o["id"]: o["cfg"]["lim"] for o in item["setup"] if o["k"] == "shell"}
    subprocess.Popen = impl.StubPopen
    try:
        for n, e in enumerate(item["edges"]):
            ops = item["setup"] + [item["menu"][m - 1] for m in e["h"]]
            world = impl.World(scratch, "e%s-%s" % (item["n"], n))
            try:
                why, step = "", None
                for j, op in enumerate(ops):
                    try:
                        step = world.step(op, j == len(ops) - 1)
                    except impl.Hang:
                        why = "hung"
                        hung += 1
                        break
                if not why:
                    why = "partial" if e["part"] or e["taint"] else same(e, step, lims)
                if why:
                    diff.append({"ops": ops, "why": why})
            finally:
                world.close()
            done += 1
            if hung > 1 or sum(d["why"] != "partial" for d in diff) > 60:
                break
    finally:
        subprocess.Popen = impl.REAL_POPEN
    return {"id": item["n"], "done": done, "diff": diff}
