"""C12: the host-directory adapter.  TLC enumerates operations on directory layouts (Disk.tla); every transition is replayed."""
import json
import os
import random

import pool
import tlc


def d(*p):
    return {"p": list(p), "k": "d", "c": "", "abs": False, "to": []}


def f(p, c):
    return {"p": p.split("/"), "k": "f", "c": c, "abs": False, "to": []}


def l(p, to, a=False):
    return {"p": p.split("/"), "k": "l", "c": "", "abs": a, "to": to.split("/")}


def op(k, p="", c="", to="", a=False, spelled=""):
    return {"k": k, "p": [x for x in p.split("/")] if p else [], "c": c, "abs": a, "to": to.split("/") if to else [], "as": spelled}


BASE = [d(), d("root"), d("root2"), d("out"), d("out", "d"), f("root2/s", "S2"), f("out/s", "S1"), f("out/d/s", "S1"), d("root", "d"), d("root", "d", "deep"), d("root", "e"),
        f("root/f", "T1"), f("root/d/g", "T2"), f("root/d/deep/h", "BIN"), f("root/.hid", "T3"), f("root/z", "T4")]
LINKS = [l("root/lf", "../out/s"), l("root/la", "out/s", True), l("root/lo", "../out"), l("root/li", "d"), l("root/lg", "d/g"), l("root/dang", "../out/new"), l("root/din", "d/new"),
         l("root/loop", "loop"), l("root/d/up", "../../out/d"), l("root/back", "../root/d"), l("root/sib", "../root2"), l("root/sf", "../root2/s"), l("root/top", "."), l("root/par", ".."),
         l("root/chain", "lf"), l("root/two", "li/g"), l("out/in", "../root/f"), l("root/oo", "../out/in"), l("root/d/abs", "root/f", True)]
PATHS = ["f", "d/g", "d/deep/h", "z", ".hid", "new", "n/m", "d", "e", "", "..", "../root2/s", "../out/s", "../root/f", "../root2/new", "../new", "d/../f", "d/../../out/s", "nope/../f", "nope/../../out/s", "f/x", "f/../z",
         "lf", "la", "lo", "lo/s", "lo/new", "li", "li/g", "li/new", "li/../f", "lo/../root/f", "lo/../root2/s", "lg", "dang", "din", "loop", "loop/x", "d/up/s", "d/up", "back/g", "back", "sib/s", "sib/new", "sf", "top/f", "par/out/s",
         "par/root/f", "chain", "two", "oo", "out/in", "d/abs", "./f", "d/./g"]
ABSOLUTE = ["/f", "/d/g", "/../out/s", "/new", "/lf", "/d/../../root2/s"]
PLAIN = [p for p in PATHS if p and ".." not in p.split("/") and "." not in p.split("/")]


def menu_all():
    m = [op("list"), op("vlist")]
    for p in PATHS + ABSOLUTE:
        q = p.lstrip("/")
        m += [op(k, q, "T5" if k == "write" else "T1", spelled=p or ".") for k in ("read", "write", "wrong", "delete")]
    m += [op("read", "", spelled=""), op("delete", "", spelled="")]
    for p in PLAIN:
        m += [op("vread", p), op("vwrite", p, "T2"), op("vdelete", p)]
    return m


SWAPS = [op("xlink", "root/f", to="../out/s"), op("xlink", "root/d", to="../out"), op("xlink", "root/d/g", to="../../root2/s"), op("xput", "root/f", "T2"), op("xdel", "root/f"), op("xdel", "root/d"),
         op("xput", "root/lf", "T3"), op("xlink", "root/lf", to="d/g"), op("xlink", "root/n", to="../out"), op("xlink", "root/new", to="../out/new"), op("xput", "root/d/new", "T5"), op("xput", "root/n/m", "BIN"),
         op("xlink", "root/z", to="out/s", a=True), op("xdir", "root/f"), op("xput", "root/d", "T1"), op("xlink", "root/d/deep", to="../../root2")]
USE = [op(k, p, "T5") for p in ("f", "d/g", "new", "n/m", "lf", "d/deep/h", "z", "din") for k in ("read", "write", "delete")] + [op("list"), op("vlist"), op("vwrite", "f", "T4"), op("vwrite", "d/g", "T1"), op("vread", "lf")]


def random_layout(rng):
    names, rows = ["a", "b", "lnk", "x y", "\u00e9"], {(): d(), ("root",): d("root"), ("out",): d("out"), ("root2",): d("root2"), ("out", "s"): f("out/s", "S1"), ("root2", "a"): f("root2/a", "S2")}
    for _ in range(rng.randint(4, 9)):
        dirs = [p for p, n in rows.items() if n["k"] == "d" and p and len(p) < 4]
        p = rng.choice(dirs if rng.random() < .2 else [q for q in dirs if q[0] == "root"]) + (rng.choice(names),)
        if p in rows:
            continue
        r = rng.random()
        if r < .3:
            rows[p] = d(*p)
        elif r < .6:
            rows[p] = f("/".join(p), rng.choice(["T1", "T2", "T3", "T4", "T5", "BIN"]) if p[0] == "root" else "S1")
        else:
            to = rng.choice(list(rows)[1:] + [("root", "a"), ("out", "n"), ("root", "a", "b"), ("root2",)])
            rows[p] = l("/".join(p), "/".join(to), True) if rng.random() < .3 else l("/".join(p), os.path.relpath("/" + "/".join(to), "/" + "/".join(p[:-1])))
    return list(rows.values())


def random_menu(rng, layouts):
    comps = ["a", "b", "lnk", "x y", "\u00e9", "..", ".", "s", "new", "root", "out", "root2"]
    real = ["/".join(n["p"][1:]) for lay in layouts for n in lay if n["p"][:1] == ["root"] and len(n["p"]) > 1]
    m = [op("list"), op("vlist")]
    for _ in range(40):
        p = rng.choice(real) if real and rng.random() < .5 else "/".join(rng.choice(comps) for _ in range(rng.randint(1, 4)))
        if rng.random() < .3:
            p += "/" + rng.choice(comps)
        k = rng.choice(["read", "write", "delete", "wrong", "vread", "vwrite", "vdelete", "read", "write", "delete"])
        if k[0] == "v" and set(p.split("/")) & {"..", "."}:
            k = k[1:]
        m.append(op(k, p, rng.choice(["T1", "T2", "T3", "T4", "T5"]), spelled=("/" if k[0] != "v" and rng.random() < .15 else "") + p))
    for _ in range(6):
        p = "root/" + rng.choice(real or ["a"])
        m.append(rng.choice([op("xput", p, "T3"), op("xdel", p), op("xlink", p, to=rng.choice(["out/s", "root/a", "out", "root2"]), a=True), op("xdir", p)]))
    return m


def models(tier, seed):
    rng = random.Random(f"disk-{seed}-{tier}")
    big = tier == "thorough"
    out = [{"name": "every path", "layouts": [BASE + LINKS, BASE], "menu": menu_all(), "depth": 1, "keep": True, "enc": ["utf-8", "latin-1", "utf-16-le"], "how": ["plain", "dots", "abs", "rel", "slash"]},
           {"name": "links swapped under way", "layouts": [BASE + LINKS], "menu": SWAPS + USE, "depth": 3 if big else 2, "keep": True, "enc": ["utf-8"], "how": ["plain", "rel"] if big else ["plain"]},
           {"name": "use, swap, use", "layouts": [BASE + LINKS], "menu": (SWAPS + USE) if big else SWAPS[:6] + [o for o in USE if o["k"] in ("list", "vlist") or o["p"] in (["f"], ["d", "g"])], "depth": 3, "keep": True, "enc": ["utf-8"], "how": ["plain"]}]
    if big:
        out = out[:1] + out[2:]
    for i in range(40 if big else 4):
        lays = [random_layout(rng) for _ in range(4)]
        out.append({"name": f"random {i}", "layouts": lays, "menu": random_menu(rng, lays), "depth": 2, "keep": False, "enc": [rng.choice(["utf-8", "utf-8", "latin-1", "utf-16-le"])],
                    "how": [rng.choice(["plain", "dots", "abs", "rel", "slash"])]})
    return out


def explore(m, i, scratch):
    conf, out = os.path.join(scratch, f"disk{i}.json"), os.path.join(scratch, f"disk{i}.out")
    with open(conf, "w") as fh:
        json.dump({k: m[k] for k in ("layouts", "menu", "depth", "keep")}, fh)
    r = tlc.run("MCDisk", "MCDisk.cfg", {"SANDFS_CONF": conf, "SANDFS_OUT": out, "SANDFS_TAG": f"disk{i}"}, scratch, workers=4, timeout=700, heap="4g")
    if r["rc"] != 0:
        raise tlc.TlcError(f"disk model {m['name']}: " + "\n".join(x for x in r["out"].splitlines() if "rror" in x or "confined" in x or "ttempt" in x)[:1500])
    edges = {}
    with open(out, encoding="utf-8") as fh:
        for line in fh:
            if line.strip():
                e = json.loads(line)
                e = json.loads(e) if isinstance(e, str) else e
                edges[(e["l"], tuple(e["h"]))] = e
    os.unlink(out)
    return r["distinct"], [edges[k] for k in sorted(edges)]


def run(check):
    import concurrent.futures as cf
    ms = models(check.tier, check.seed)
    with cf.ThreadPoolExecutor(4) as ex:
        found = list(ex.map(lambda a: explore(a[1], a[0], check.scratch), enumerate(ms)))
    items = []
    for m, (states, edges) in zip(ms, found):
        check.states += states
        check.transitions += len(edges)
        check.exhaustive.append(f"{m['name']}: {len(m['layouts'])} layouts, {len(m['menu'])} operations, depth {m['depth']}, {states} states, {len(edges)} transitions, "
                                f"encodings {m['enc']}, root given as {m['how']}")
        for enc in m["enc"]:
            for how in m["how"]:
                n = max(1, min(16, len(edges) // 60))
                for j in range(n):
                    items.append({"kind": "disk", "layouts": m["layouts"], "menu": m["menu"], "edges": edges[j::n], "enc": enc, "how": how})
    recs, errs = pool.run_items(items, check.scratch, timeout=700)
    check.crashed(errs)
    check.traces += sum(r["done"] for r in recs)
    for r in recs:
        for x in r["diff"]:
            it = items[r["id"]]
            check.bad.append({"work": {"kind": "disk", "layouts": [it["layouts"][x["e"]["l"] - 1]], "menu": [it["menu"][m - 1] for m in x["e"]["h"]], "enc": it["enc"], "how": it["how"],
                                  "edges": [dict(x["e"], l=1, h=list(range(1, len(x["e"]["h"]) + 1)))]},
                         "ops": [it["menu"][m - 1] for m in x["e"]["h"]], "tags": ["C12:" + x["why"].split(":")[0].split(" ")[0]], "got": x["why"],
                         "expected": {"ok": x["e"]["ok"], "out": x["e"]["out"]}})
    if found and found[0][1]:
        e = found[0][1][len(found[0][1]) // 2]
        check.samples.append({"transition": [ms[0]["menu"][m - 1] for m in e["h"]], "expected": {"ok": e["ok"], "out": e["out"]}})

