#!/usr/bin/env python3
"""Decides one property: bounded model in TLC, replay of its transitions, and recorded histories
of the implementation checked against the specification."""
import itertools
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True

import climode    # noqa: E402
import disk       # noqa: E402
import edges      # noqa: E402
import known      # noqa: E402
import mcconf     # noqa: E402
import pool       # noqa: E402
import profiles   # noqa: E402
import regress    # noqa: E402
import tlc        # noqa: E402

BASELINE = "/opt/vp/BASELINE.json"


def say(*a):
    print(*a, flush=True)


def of(pid, tags):
    return [t for t in tags if t.startswith(pid + ":")]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = pool.scratch_dir()
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.notes = []
        self.bad = []            # candidate violations: {ops, tags, why}
        self.exhaustive = []

    # ------------------------------------------------------------------
    def judge(self, hists, tag):
        """Validate recorded histories; returns verdicts by history id."""
        v, stuck, st = tlc.validate(hists, self.scratch, tag)
        by = {}
        for x in v:
            by.setdefault(str(x["h"]), []).append(x)
        for h, err in stuck:
            by.setdefault(str(h["id"]), []).append({"h": str(h["id"]), "i": len(h["steps"]), "tags": [self.pid + ":unexplained"],
                                                    "ok": True, "why": err[:600], "out": []})
        self.states += st
        return by

    def mine(self, x):
        return of(self.pid, x["tags"])

    def add(self, rec, x, tags):
        ops = [s["op"] for s in rec["steps"][: x["i"]]]
        self.bad.append({"ops": ops, "tags": tags, "got": rec["steps"][x["i"] - 1]["res"] if rec["steps"] else None,
                         "expected": {"ok": x["ok"], "why": x["why"], "out": x["out"]}})

    def crashed(self, errs):
        for e in errs:
            self.bad.append({"item": {k: v for k, v in e["item"].items() if k != "edges"}, "ops": e["item"].get("ops"),
                             "tags": [self.pid + ":crash"], "got": e["why"][-800:], "expected": "the call returns", "final": True})

    def hung(self, recs):
        for r in recs:
            if r.get("hung"):
                ops = [s["op"] for s in r["steps"]] + [r["hung"]]
                self.bad.append({"ops": ops, "tags": [self.pid + ":hung"], "got": "did not return in time", "expected": "the call returns"})

    # ------------------------------------------------------------------
    def histories(self, items, label):
        """Run histories, judge them, collect candidates."""
        recs, errs = pool.run_items(items, self.scratch)
        self.crashed(errs)
        self.hung(recs)
        by = self.judge(recs, label)
        self.traces += len(recs)
        self.steps += sum(len(r["steps"]) for r in recs)
        if recs and len(self.samples) < 6:
            r = recs[len(recs) // 3]
            self.samples.append({"history": label, "ops": [s["op"] for s in r["steps"]][-6:]})
        for r in recs:
            for x in by.get(str(r["id"]), []):
                t = self.mine(x)
                if t:
                    self.add(r, x, t)
        return recs, by

    def random(self, n):
        profs = profiles.PROFILES.get(self.pid, [])
        items = []
        for k, prof in enumerate(profs):
            w = prof.get("weight", 1)
            for i in range(max(1, int(n * w / len(profs)))):
                items.append({"seed": f"{self.pid}-{k}-{self.seed}-{i}", "prof": prof})
        if not items:
            return
        recs, by = self.histories(items, "random")
        if self.pid == "C02":
            self.twins(items, recs, by)

    def twins(self, items, recs, by):
        """C02: a disagreement that disappears when every path is spelled plainly."""
        sus = [(r, by[str(r["id"])][0]) for r in recs if str(r["id"]) in by]
        sus = [(r, min(by[str(r["id"])], key=lambda x: x["i"])) for r, _ in sus][:60]
        if not sus:
            return
        twin = [dict(items[r["id"]], canon=True) for r, _ in sus]
        trecs, terrs = pool.run_items(twin, self.scratch)
        tby = self.judge(trecs, "twin")
        for (r, x), j in zip(sus, range(len(sus))):
            first = min([y["i"] for y in tby.get(str(j), [])], default=10**9)
            if first > x["i"]:
                self.add(r, x, ["C02:spelling"] + x["tags"])

    def models(self):
        ms = mcconf.MODELS.get(self.pid, [])
        if not ms:
            return
        found = edges.explore(ms, self.tier, self.scratch)
        for f in found:
            self.states += f["states"]
            self.transitions += f["transitions"]
            self.exhaustive.append(f"{f['model']['name']}: {len(f['model']['menu'])} operations, depth {f['model']['depth'][self.tier]}, "
                                   f"{f['states']} states, {f['transitions']} transitions")
        done, diff, errs = edges.replay(found, self.scratch)
        self.crashed(errs)
        self.traces += done
        e = next((f for f in found if f["edges"]), None)
        if e:
            mid = e["edges"][len(e["edges"]) // 2]
            self.samples.append({"transition": [e["model"]["menu"][m - 1] for m in mid["h"]], "expected": {"ok": mid["ok"], "out": mid["out"]}})
        part = [d for d in diff if d["why"] == "partial"]
        real = [d for d in diff if d["why"] != "partial"]
        self.notes.append(f"{done} model transitions replayed, {len(real)} came out differently, {len(part)} judged as recorded histories")
        for d in [d for d in real if d["why"] == "hung"][:2]:
            self.bad.append({"ops": d["ops"], "tags": [self.pid + ":hung"], "got": "did not return in time", "expected": "the call returns"})
        items = [{"ops": d["ops"], "from": 0, "full": True} for d in real[:80] + part[:400] if d["why"] != "hung"]
        if items:
            recs, by = self.histories(items, "transitions")
            if self.pid == "C02":
                self.plain(recs, by)

    def sequences(self):
        for m in mcconf.ALLSEQ.get(self.pid, []):
            n = m["depth"][self.tier]
            items = [{"ops": m["setup"] + list(seq), "from": len(m["setup"])} for seq in itertools.product(m["menu"], repeat=n)]
            self.histories(items, "sequences")
            self.exhaustive.append(f"{m['name']}: all {len(items)} sequences of {n} out of {len(m['menu'])} operations, recorded and judged")

    def plain(self, recs, by):
        """C02: the same calls with every path written out must not disagree."""
        sus = [(r, min(by[str(r["id"])], key=lambda x: x["i"])) for r in recs if str(r["id"]) in by]
        items = []
        for r, x in sus:
            ops, cwd = [], "/"
            for s in r["steps"][: x["i"]]:
                ops.append(mcconf.plain(s["op"], cwd))
                cwd = "/" + "/".join(s["obs"]["cwd"])
            items.append({"ops": ops})
        trecs, _ = pool.run_items(items, self.scratch)
        tby = self.judge(trecs, "plain")
        for j, (r, x) in enumerate(sus):
            if not tby.get(str(j)):
                self.add(r, x, ["C02:spelling"] + x["tags"])

    def scripted(self):
        items = [{"ops": ops, "name": name} for name, ops in regress.HISTORIES.get(self.pid, [])]
        if items:
            self.histories(items, "scripted")

    # ------------------------------------------------------------------
    def confirm(self, cand):
        """Run the history again on its own; returns the shortest failing form or None."""
        if cand.get("final"):
            return cand
        if "work" in cand:
            recs, errs = pool.run_items([dict(cand["work"])], self.scratch, 1, 120)
            if cand.get("judged"):
                return cand if errs or self.judge(recs, "confirm") else None
            return cand if errs or recs[0]["diff"] else None
        recs, errs = pool.run_items([{"ops": cand["ops"]}], self.scratch, 1, 120)
        if errs:
            return cand
        if recs and recs[0].get("hung"):
            return cand
        if any(t.endswith(":hung") for t in cand["tags"]):
            return None
        by = self.judge(recs, "confirm")
        hits = [x for x in by.get("0", []) if self.mine(x) or (self.pid == "C02" and "C02:spelling" in cand["tags"])]
        return cand if hits else None

    def shrink(self, cand, until):
        """Drop operations while the disagreement stays."""
        if cand.get("final") or "work" in cand or not cand.get("ops") or any(t.endswith((":hung", ":spelling")) for t in cand["tags"]):
            return cand
        ops = cand["ops"]
        while time.time() < until and len(ops) > 1:
            trials = [ops[:i] + ops[i + 1:] for i in range(len(ops) - 1)]
            recs, errs = pool.run_items([{"ops": o} for o in trials], self.scratch, 8, 60)
            hists = [r for r in recs if r["steps"] and len(r["steps"]) == len(ops) - 1]
            v, stuck, _ = tlc.validate(hists, self.scratch, "shrink")
            last = len(ops) - 1
            ok = sorted({int(x["h"]) for x in v if of(self.pid, x["tags"]) and x["i"] == last
                         and (set(of(self.pid, x["tags"])) & set(cand["tags"]))})
            if not ok:
                break
            # drop as many at once as still works
            keep = [o for i, o in enumerate(ops) if i not in ok]
            recs, _ = pool.run_items([{"ops": keep}], self.scratch, 1, 60)
            v, stuck, _ = tlc.validate([r for r in recs if r["steps"]], self.scratch, "shrink")
            if any(of(self.pid, x["tags"]) and x["i"] == len(keep) for x in v):
                ops = keep
            else:
                ops = trials[ok[0]]
            cand = dict(cand, ops=ops)
        return cand

    def report(self):
        out = os.path.join(HERE, "out")
        os.makedirs(out, exist_ok=True)
        cands = sorted(self.bad, key=lambda c: len(c.get("ops") or []))
        seen, confirmed = set(), []
        for c in cands:
            key = (tuple(sorted(c["tags"])), (c["ops"] or [{}])[-1].get("k") if c.get("ops") else "")
            if key in seen or len(seen) > 8:
                continue
            seen.add(key)
            d = self.confirm(c)
            if d:
                confirmed.append(d)
                if len(confirmed) >= 3:
                    break
        for n, c in enumerate(confirmed):
            if n == 0:
                c = self.shrink(c, time.time() + 45)
            path = os.path.join(out, f"{self.pid}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(c, property=self.pid, rerun=f"python3 /verif/check.py {self.pid} --replay {path}"), f, indent=1, ensure_ascii=True)
            say(f"VIOLATION property={self.pid} replay={path}")
            say("  " + ", ".join(c["tags"]))
            if c.get("ops"):
                for o in c["ops"][-4:]:
                    say("   op  " + json.dumps(o)[:300])
                say("   got " + json.dumps(c["got"])[:500])
                say("   expected " + json.dumps(c["expected"])[:500])
        return len(confirmed)

    def evidence(self, violations, level="model_checking"):
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions + self.steps, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6]}
        rec = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
               "assumptions": ["histories are sequential: the library has no internal concurrency",
                               "the bounded models are complete up to their depth: " + "; ".join(self.exhaustive)] + self.notes,
               "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(rec, f, indent=1, ensure_ascii=True)


SPECIAL = {"C12": disk.run, "C23": climode.run}
BUDGET = {"quick": 900, "thorough": 12000}
SLOW = {"C07": .6, "C08": .6, "C18": .6, "C16": .8, "C01": .7}


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = args[1] if len(args) > 1 and args[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = Check(pid, tier, seed)
    if "--replay" in args:
        with open(args[args.index("--replay") + 1]) as f:
            cand = json.load(f)
        d = c.confirm(cand)
        say("reproduced" if d else "not reproduced", cand["tags"])
        return 1 if d else 0
    c.scripted()
    if pid in SPECIAL:
        SPECIAL[pid](c)
    else:
        c.models()
        c.sequences()
        c.random(int(os.environ.get("SANDFS_N") or BUDGET[tier] * SLOW.get(pid, 1)))
    known.probes(c, say)
    n = c.report()
    c.evidence(n)
    say(f"{pid} {tier}: {c.traces} traces, {c.states} states, {c.transitions} model transitions, {c.steps} recorded steps, "
        f"{len(c.bad)} suspicious, {n} confirmed, {time.time() - c.t0:.1f}s")
    return 1 if n else 0


if __name__ == "__main__":
    sys.exit(main())
