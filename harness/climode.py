"""C23: the command line program, its runs recorded as histories and checked against the specification."""
import itertools
import random

import pool
from profiles import mk, PLAIN

TEXTS = ["", "foo\n", "key line\nother\r\nfoo bar\n", "h\u00e9llo\n", "one\ntwo\nthree", "a\rb"]
NAMES = ["a", "b", "ab", "x.txt", "n.md", "c"]
PROF = mk(PLAIN, lines=["pipe", "pipe", "change", "change", "list", "weird", "assign"], multi=True, vararg=.05, names=8)
QUIT = [":q", "exit", "quit", " exit ", "\tquit", ":q  "]
NEAR = ["exit now", "quit()", "EXIT", ":quit", "'exit'", "q", ":Q", "exit;", "echo exit", "", "   ", "cat", "nosuch", "cat /nope"]


def files(rng):
    out = {}
    for _ in range(rng.randint(0, 4)):
        p = "/".join(rng.choice(NAMES) for _ in range(rng.randint(1, 3)))
        if any(p == q or p.startswith(q + "/") or q.startswith(p + "/") for q in out):
            continue
        out[p] = rng.choice(TEXTS)
    return out


def scripted():
    d = {"h0": {"f": "foo\nbar\n", "d/g": "key\r\n"}, "h1": {"f": "other\n"}}
    two = [["h0", "/data"], ["h1", "/a/b"]]
    base = {"kind": "cli", "dirs": d, "search": False, "host": False, "end": "eof", "order": True, "lines": [], "len": 0, "mode": "shell", "mounts": two}
    out = []
    lines = ["cat /data/f", "cat /nope", "echo x > /data/new", "echo x >> /a/b/f", "rm /data/d/g", "rm -r /data/d", "nosuch a", "nosuch | cat", "echo a | nosuch", "pwd", "cd /data", "search foo", "ls /data", "echo x > /other",
             "printf 'a\\nb'", "warnless", "echo 'open", "mkdir /data/e", "touch /data/t", "cat /data/f /nope", "stat /data/f", "echo h\u00e9 > /data/u", "cat < /data/f", "rg foo /data", "wc /data/f", "| cat", "exit", "quit", ":q",
             "echo one\necho two", "echo one\ncat /nope\necho two", "cat /nope\necho two > /data/two", "python -c 'print(1)'", "true"]
    for ln, m, s, h, o in itertools.product(lines, ([], two), (False, True), (False, True), (True, False)):
        if s and h and o or "python" in ln:
            continue
        out.append(dict(base, mode="exec", lines=[ln], mounts=m, search=s, host=h, order=o))
    talk = ["pwd", "cd /data", "cat f", "cat /nope", "echo x > made", "V=1", "echo $V", "", "cd ..", "cd /a/b", "nosuch", "rm f", "echo 'open", "search foo"]
    for a in range(len(talk)):
        for end, cut, s, h in (("eof", False, False, False), ("eof", True, True, False), ("interrupt", False, False, True), ("quit", False, True, True)):
            ls = talk[a:] + talk[:a]
            out.append(dict(base, lines=ls + ([QUIT[a % len(QUIT)], "echo after > /data/after"] if end == "quit" else []), end="eof" if end == "quit" else end, cut=cut, search=s, host=h))
    for w in QUIT + NEAR:
        for pre in ([], ["cd /data"], ["cat /nope"]):
            out.append(dict(base, lines=pre + [w, "echo later > /data/later", "pwd"]))
    fake = {f"emit {i}": list(x) for i, x in enumerate(itertools.product(["", "o", "o\n", "l1\nl2\r\n\u00e9", "\n"], ["", "e", "e1\ne2\n"], [0, 1, 3, 127]))}
    for ln in fake:
        for h in (False, True):
            out.append(dict(base, mode="exec", lines=[ln], host=h, fake=fake))
    out.append(dict(base, mode="shell", lines=list(fake) + ["cd /data"] + list(reversed(fake)), fake=fake))
    for a, b in itertools.permutations(list(fake)[::7], 2):
        out.append(dict(base, mode="shell", lines=[a, b, "exit"], fake=fake))
    out.append(dict(base, mode="exec", lines=["ls /"], bad=True))
    out.append(dict(base, mode="shell", lines=["ls /"], bad=True))
    for path in ("/data", "data", "/x/y/../z", "/a b", "/\u00e9", "/data/", "/a:b", "/x/:y:z"):
        out.append(dict(base, mode="exec", lines=["ls /"], mounts=[["h0", path]]))
        out.append(dict(base, mode="shell", lines=["cat " + repr(path.rstrip("/") + "/f"), "echo w > " + repr(path.rstrip("/") + "/w")], mounts=[["h0", path]]))
    for p, q, s in itertools.product(("/m", "/m/x", "/"), ("/m", "/m/x", "/m/d"), (False, True)):
        for ids in (("h0", "h1"), ("h1", "h0")):
            out.append(dict(base, mode="shell", search=s, mounts=[[ids[0], p], [ids[1], q]], lines=["find /", "cat /m/f", "cat /m/x/f", "echo w > /m/x/w", "echo w > /m/w", "rm /m/f", "search foo", "rm -r /m/x", "find /"]))
    out.append(dict(base, mode="shell", dirs={"h0": {}}, made=False, mounts=[["h0", "/data"]], lines=["echo w > /data/w", "ls /data"]))
    return out


def run(check):
    rng = random.Random(f"cli-{check.seed}-{check.tier}")
    items = scripted()
    for i in range(700 if check.tier == "quick" else 8000):
        ids = ["h0", "h1", "h2"][: rng.choice([0, 1, 1, 2, 3])]
        paths = rng.sample(["/a", "/b", "/ab", "/c/a", "/x.txt", "/m/n"], len(ids))
        items.append({"kind": "cli", "dirs": {i: files(rng) for i in ids}, "mounts": [[a, b] for a, b in zip(ids, paths)], "search": rng.random() < .4, "host": rng.random() < .3, "mode": rng.choice(["exec", "shell", "shell"]),
                      "lines": [], "seed": f"cli-{check.seed}-{i}", "prof": PROF, "len": rng.randint(1, 8), "end": rng.choice(["eof", "interrupt"]), "cut": rng.random() < .2, "order": rng.random() < .5})
    recs, errs = pool.run_items(items, check.scratch)
    check.crashed(errs)
    by = check.judge(recs, "cli")
    check.traces += len(recs)
    check.steps += sum(len(r["steps"]) for r in recs)
    check.exhaustive.append(f"{len(scripted())} fixed runs of the program, {len(items) - len(scripted())} made-up ones")
    check.samples.append({"run": {k: v for k, v in items[3].items() if k in ("mode", "mounts", "lines", "host", "search")}, "steps": [s["op"]["k"] for s in recs[3]["steps"]] if len(recs) > 3 else []})
    for r in recs:
        for x in by.get(str(r["id"]), []):
            op = r["steps"][x["i"] - 1]["op"]
            check.bad.append({"work": dict(items[r["id"]]), "judged": True, "ops": [s["op"] for s in r["steps"][: x["i"]]], "tags": ["C23:" + t for t in sorted(x["tags"])][:4],
                              "got": r["steps"][x["i"] - 1]["res"], "expected": {"ok": x["ok"], "why": x["why"], "out": x["out"]}})
            break
