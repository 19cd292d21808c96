"""Replays the disk model's transitions into the real host-directory adapter, inside a scratch directory."""
import os
import shutil

TEXTS = {
    "utf-8": {"T1": "one\r\ntwo\r\n", "T2": "\u00e9\u00df\u2028 x\r", "T3": "\ufeffb\n\n", "T4": "", "T5": "\U0001f600\x00\x85\n\r", "S1": "secret one", "S2": "secret two", "S3": ""},
    "latin-1": {"T1": "one\r\ntwo\r\n", "T2": "\u00e9\u00df\xa0 x\r", "T3": "\xffb\n\n", "T4": "", "T5": "\x00\x85\x1c\n\r", "S1": "secret one", "S2": "secret two", "S3": "s3"},
    "utf-16-le": {"T1": "one\r\ntwo\r\n", "T2": "\u00e9\u0d0a\u2028 x\r", "T3": "\ufeffb\n\n", "T4": "", "T5": "\u0a0d\x00\x85\n\r", "S1": "secret one", "S2": "secret two", "S3": "s3"},
}
BIN = b"\xff\xfe\x80z"


class Disk:
    def __init__(self, base, layout, enc, how, sf):
        self.base, self.enc, self.sf = base, enc, sf
        self.back = {}
        for tok, text in TEXTS[enc].items():
            self.back.setdefault(text, tok)
        os.makedirs(base)
        for n in sorted(layout, key=lambda n: len(n["p"])):
            self.put(n)
        root = os.path.join(base, "root")
        os.makedirs(os.path.join(base, "ways"), exist_ok=True)
        os.symlink(root, os.path.join(base, "ways", "abs"))
        os.symlink("../root", os.path.join(base, "ways", "rel"))
        self.root = {"plain": root, "dots": os.path.join(base, "ways", "..", "root", "."), "abs": os.path.join(base, "ways", "abs"),
                     "rel": os.path.join(base, "ways", "rel"), "slash": root + "/"}[how]
        self.ad = self.adapter()

    def adapter(self):
        kw = {} if self.enc == "utf-8" else {"encoding": self.enc}
        return self.sf.adapters.FileSystemAdapter(self.root, **kw)

    def text(self, tok):
        return TEXTS[self.enc][tok]

    def bytes(self, tok):
        return BIN if tok == "BIN" else self.text(tok).encode(self.enc)

    def token(self, text):
        if text == BIN.decode(self.enc, "replace"):
            return "BIN"
        return self.back.get(text, "?" + repr(text)[:60])

    def put(self, n):
        full = os.path.join(self.base, *n["p"])
        if n["k"] == "d":
            os.makedirs(full, exist_ok=True)
        elif n["k"] == "f":
            with open(full, "wb") as f:
                f.write(self.bytes(n["c"]))
        else:
            to = "/".join(n["to"])
            os.symlink(os.path.join(self.base, to) if n["abs"] else to, full)

    def clear(self, p):
        full = os.path.join(self.base, *p)
        if os.path.islink(full) or os.path.isfile(full):
            os.unlink(full)
        elif os.path.isdir(full):
            shutil.rmtree(full)

    def can(self, p):
        cur = self.base
        for c in p[:-1]:
            cur = os.path.join(cur, c)
            if os.path.lexists(cur) and (os.path.islink(cur) or not os.path.isdir(cur)):
                return False
        return True

    def state(self):
        rows = set()
        for cur, dirs, files in os.walk(self.base):
            rel = [] if cur == self.base else os.path.relpath(cur, self.base).split("/")
            if rel == ["ways"]:
                continue
            for x in dirs + files:
                full, p = os.path.join(cur, x), tuple(rel + [x])
                if p == ("ways",):
                    continue
                if os.path.islink(full):
                    to = os.readlink(full)
                    a = to.startswith("/")
                    if a:
                        to = os.path.relpath(to, self.base)
                    rows.add((p, "l", "", a, tuple(to.split("/"))))
                elif os.path.isdir(full):
                    rows.add((p, "d", "", False, ()))
                else:
                    with open(full, "rb") as f:
                        b = f.read()
                    toks = [t for t in list(TEXTS[self.enc]) + ["BIN"] if self.bytes(t) == b]
                    rows.add((p, "f", self.back.get(self.text(toks[0]), "") if toks and toks[0] != "BIN" else toks[0] if toks else "?" + repr(b)[:60], False, ()))
        return rows

    def do(self, op):
        k, p = op["k"], op["p"]
        rel = op.get("as") or "/".join(p)
        if k[0] == "x":
            if k == "xdel" or self.can(p):
                self.clear(p)
                if k != "xdel":
                    os.makedirs(os.path.dirname(os.path.join(self.base, *p)), exist_ok=True)
                    self.put({"p": p, "k": {"xput": "f", "xlink": "l", "xdir": "d"}[k], "c": op["c"], "abs": op["abs"], "to": op["to"]})
            return set()
        if k == "read":
            return {(tuple(p), self.token(self.ad.read(rel).content))}
        if k in ("write", "wrong"):
            try:
                v = self.ad.read(rel).version
            except Exception:
                v = 0
            text = self.text(op["c"])
            got = self.ad.write(rel, text, version=v + 3 if k == "wrong" else v)
            if got.content != text:
                return {("!", self.token(got.content))}
            return set()
        if k == "list":
            return {(tuple(r.split("/")), self.token(e.content)) for r, e in self.ad.list().items()}
        if k == "delete":
            self.ad.delete(rel)
            return set()
        fs = self.sf.VirtualFileSystem()
        fs.mount_storage("/m", self.adapter(), policy=self.sf.NodePolicy(writable=True))
        if k == "vlist":
            return {(tuple(e[3:].split("/")), self.token(fs.read_file(e))) for e in self.files(fs, "/m")}
        if k == "vread":
            return {(tuple(p), self.token(fs.read_file("/m/" + rel)))}
        if k == "vwrite":
            fs.write_file("/m/" + rel, self.text(op["c"]))
            return set()
        fs.remove("/m/" + rel)
        return set()

    @staticmethod
    def files(fs, top):
        out = []
        for n in fs.ls(top):
            out += Disk.files(fs, str(n.path)) if fs.is_dir(n.path) else [str(n.path)]
        return out


def canon(rows, d):
    return {(tuple(r["p"]), r["k"], d.back.get(d.text(r["c"]), r["c"]) if r["k"] == "f" and r["c"] != "BIN" else r["c"], r["abs"], tuple(r["to"])) for r in rows if r["p"]}


def play(item, e, base, impl):
    """"" if the last operation came out as the model says."""
    import sandfs
    layout = item["layouts"][e["l"] - 1]
    d = Disk(base, layout, item["enc"], item["how"], sandfs)
    try:
        for m in e["h"][:-1]:
            try:
                d.do(item["menu"][m - 1])
            except Exception:
                pass
        op = item["menu"][e["h"][-1] - 1]
        MON = impl.MON
        MON.hits, MON.allow, MON.on = [], [os.path.join(base, "root"), os.path.join(base, "ways")], op["k"][0] != "x"
        err = ""
        try:
            ok, out = True, d.do(op)
        except Exception as exc:
            ok, out, err = False, set(), repr(exc)[:120]
        finally:
            MON.on = False
        want = {(tuple(r), d.back.get(d.text(c), c) if c != "BIN" else c) for r, c in e["out"]}
        if ok != e["ok"]:
            return f"result: {ok} {err or sorted(out)}"
        if ok and out != want:
            return f"output: {sorted(map(str, out))}"
        got, exp = d.state(), canon(e["H"], d)
        if got != exp:
            return f"disk: unexpected {sorted(map(str, got - exp))} missing {sorted(map(str, exp - got))}"
        if MON.hits:
            return f"touched {MON.hits}"
        return ""
    finally:
        shutil.rmtree(base, ignore_errors=True)


def one(item, scratch, impl, gen):
    import signal
    diff, done = [], 0
    for n, e in enumerate(item["edges"]):
        signal.alarm(20)
        try:
            why = play(item, e, os.path.join(scratch, f"d{item['n']}-{n}"), impl)
        except impl.Hang:
            why = "hung"
        finally:
            signal.alarm(0)
        done += 1
        if why:
            diff.append({"e": e, "why": why})
            if len(diff) > 20:
                break
    return {"id": item["n"], "done": done, "diff": diff}
