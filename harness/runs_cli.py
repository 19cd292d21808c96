"""Runs the command line program in this process, on scratch directories, and records what it does as a history."""
import io
import os
import re
import subprocess
import sys

OWN = re.compile(r"\b(boom|quiet|keep|star|warn|say|half|neg|loud|help|host|bash|sh|python3?|tool)\b")
POLICY = {"r": True, "w": True, "a": False, "cls": "public", "pr": []}


class Typing(io.TextIOBase):
    """Standard input whose next line is made up when it is asked for."""

    def __init__(self, lines, more, end, cut):
        self.lines, self.more, self.end, self.cut, self.typed = list(lines), more, end, cut, []

    def readline(self, *a):
        line = self.lines.pop(0) if self.lines else self.more(len(self.typed))
        if line is None:
            if self.end == "interrupt":
                raise KeyboardInterrupt
            return ""
        self.typed.append(line)
        if self.cut and line and not self.lines and self.more(len(self.typed), peek=True) is None:
            return line
        return line + "\n"

    def readable(self):
        return True

    def isatty(self):
        return False


def newad(ident, files):
    return {"k": "newad", "p": "", "id": ident, "kind": "fs", "init": sorted(map(list, files.items()))}


def step(op, ok=True, out=(), **k):
    res = {"ok": ok, "out": list(out), "raised": False, "said": True, "err": "", "errtxt": "", "errlen": 0, "ev": [], "arm": [], "spawn": 0, "host": [], "calls": []}
    res.update(k)
    return {"op": op, "res": res, "obs": {"has": False, "same": False, "t": [], "cwd": [], "ad": []}}


def play(item, scratch, impl, gen):
    """item: dirs {id: files}, mounts [[id, path]], search, host, mode, lines or seed, end, order."""
    MON = impl.MON
    world = impl.World(scratch, "c%s" % item["n"])
    steps, seen = [], []
    try:
        import sandfs.cli
        for ident, files in item["dirs"].items():
            root = os.path.join(world.dir, ident)
            world.adroot[ident], world.adkind[ident], world.ad[ident] = root, "fs", None
            if files or item.get("made", True):
                os.makedirs(root)
            for rel, text in files.items():
                os.makedirs(os.path.dirname(os.path.join(root, rel)), exist_ok=True)
                with open(os.path.join(root, rel), "wb") as f:
                    f.write(text.encode("utf-8"))
            steps.append(step(newad(ident, files)))
        for ident, path in item["mounts"]:
            steps.append(step({"k": "mount", "p": path, "id": ident, "pol": [POLICY]}))
        if item["search"]:
            steps.append(step({"k": "index", "p": ""}))
            steps.append(step({"k": "sview", "p": "/@search", "dflt": False}))
        steps.append(step({"k": "shell", "p": "", "id": "h0", "cfg": {"view": {"full": False, "cls": {"on": False, "s": []}, "prn": {"on": False, "s": []}, "pfx": {"on": False, "s": []},
                                                                              "md": {"on": False, "s": []}}, "allow": {"on": False, "s": []}, "lim": -1, "env": [], "fb": item["host"]}}))
        g = None
        if "seed" in item:
            g = gen.Gen(item["seed"], item["prof"])
            g.shells = {"h0": {"view": None, "fb": item["host"], "allow": {"on": False, "s": []}}}
            if item["search"]:
                g.sview = "/@search"
            tree = {(): {"k": "d"}}
            for ident, path in item["mounts"]:
                for rel, text in list(item["dirs"][ident].items()) + [("", None)]:
                    p = tuple(impl.names(path + "/" + rel))
                    for j in range(len(p)):
                        tree.setdefault(p[:j], {"k": "d"})
                    tree[p] = {"k": "d"} if text is None else {"k": "f", "c": text}
            g.tree = tree

        def made(n, peek=False):
            if g is None or n >= item["len"]:
                return None
            if peek:
                return ""
            for _ in range(50):
                t = g.script(item["prof"]["lines"]) if item["mode"] == "exec" else g.line(item["prof"]["lines"])
                if not OWN.search(t) and not t.startswith("-") and "/@search" not in t and (item["mode"] == "exec" or not re.search(r"[\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]", t)):
                    return t
            return "pwd"

        if item["mode"] == "exec":
            typed = item["lines"] or [made(0)]
            stdin = Typing([], lambda n, peek=False: None, "eof", False)
        else:
            stdin = Typing(item["lines"], made, item["end"], item.get("cut", False))
            typed = stdin.typed
        flags = []
        for ident, path in item["mounts"]:
            flags += ["--mount", f"{world.adroot[ident]}:{path}"]
        if item["search"]:
            flags.append("--enable-search")
        if item["host"]:
            flags.append("--host")
        if item.get("bad"):
            flags += ["--mount", world.adroot[list(world.adroot)[0]]]
        command = typed[:1] if item["mode"] == "exec" else []
        argv = [item["mode"]] + (flags + command if item["order"] else command + flags)

        cls = sandfs.SandboxShell
        real = cls.exec
        deep = [0]

        def spy(self, line, *a, **k):
            if deep[0]:
                return real(self, line, *a, **k)
            if line in item.get("fake", {}):        # a result of our own making: only how it is shown is of interest
                out, err, code = item["fake"][line]
                seen.append({"line": line, "out": out, "err": err, "code": code, "pwd": self.vfs.pwd()})
                return sandfs.CommandResult(stdout=out, stderr=err, exit_code=code)
            deep[0] += 1
            was, world.vfs = MON.spawns, self.vfs
            try:
                r = real(self, line, *a, **k)
            finally:
                deep[0] -= 1
            on, MON.on = MON.on, False
            try:
                s = step({"k": "sh", "p": "", "id": "h0", "text": line}, r.exit_code == 0, [r.stdout], said=bool(r.stderr), errtxt=r.stderr if r.exit_code == 0 else "",
                         errlen=len(r.stderr.encode("utf-8", "replace")), spawn=MON.spawns - was, host=[h for h in MON.hits if world.tmp not in h][:5] if MON.spawns == was else [])
                s["obs"] = world.observe()
                steps.append(s)
                seen.append({"line": line, "out": r.stdout, "err": r.stderr, "code": r.exit_code, "pwd": self.vfs.pwd()})
                if g is not None:
                    g.see(s["obs"])
            finally:
                MON.on = on
            return r

        keep = sys.stdin, sys.stdout, sys.stderr
        screen, errors = io.StringIO(), io.StringIO()
        MON.hits, MON.spawns, MON.allow = [], 0, list(world.adroot.values()) + [world.tmp]
        cls.exec = spy
        code, why = None, ""
        subprocess.Popen = impl.StubPopen
        import signal
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            sys.stdin, sys.stdout, sys.stderr = stdin, screen, errors
            MON.on = True
            sandfs.cli.main(argv)
        except SystemExit as exc:
            code = 0 if exc.code is None else exc.code
        except impl.Hang:
            why = "hung"
        except BaseException as exc:
            why = type(exc).__name__
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            MON.on = False
            sys.stdin, sys.stdout, sys.stderr = keep
            cls.exec = real
            subprocess.Popen = impl.REAL_POPEN
        ran = [s["line"] for s in seen]
        if item.get("bad"):
            ok = code == 0 or bool(ran)
            out = []
        else:
            ok = not why and code is not None
            out = [screen.getvalue(), errors.getvalue(), str(code), str(len(ran))] + ran
        last = step({"k": "cli", "p": "", "mode": item["mode"], "typed": list(typed), "seen": seen, "bad": bool(item.get("bad"))}, ok, out, raised=bool(why), err=why, said=True)
        steps.append(last)
        return {"id": item["n"], "steps": steps, "hung": None}
    finally:
        world.close()


def one(item, scratch, impl, gen):
    return play(item, scratch, impl, gen)
