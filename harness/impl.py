"""Drives the real sandfs through operation records and records what happened.

Uses only the public interface.  Runs inside a worker process that has dropped its
privileges and owns nothing but a scratch directory (see worker.py).
"""
import io
import json
import os
import shlex
import signal
import subprocess
import sys
import tempfile
import zlib
from pathlib import Path, PurePosixPath

import hosthelper

BUDGET_S = 10.0


class Hang(BaseException):
    """The code under test did not come back in time."""


# ---------------------------------------------------------------------------
# host access monitor
class Monitor:
    def __init__(self):
        self.on = False
        self.hits = []
        self.allow = []          # prefixes the current step may touch
        self.spawns = 0
        self.quiet_read = []

    def configure(self, scratch):
        dirs = {os.path.realpath(p) for p in (sys.prefix, sys.base_prefix, sys.exec_prefix)}
        dirs |= {os.path.realpath(os.path.dirname(os.__file__)), os.environ.get("SANDFS_REPO", "/repo") + "/sandfs", "/usr/lib/python3",
                 "/usr/share/zoneinfo", os.path.dirname(os.path.abspath(__file__))}
        self.quiet_read = sorted(dirs)

    def _note(self, what, path, base=""):
        if isinstance(path, int):
            return
        try:
            text = os.fsdecode(os.fspath(path))
        except TypeError:
            text = repr(path)
        full = os.path.abspath(os.path.join(base, text))
        if what == "os.mkdir" and os.path.isdir(full):
            return
        if any(full == a or full.startswith(a + "/") for a in self.allow):
            return
        self.hits.append(f"{what} {full if base else text}")

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = args
            if path is None or isinstance(path, int):
                return
            flags = flags or 0
            writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            if isinstance(mode, str) and any(c in mode for c in "wax+"):
                writing = True
            if not writing and os.fsdecode(path).startswith("<"):
                return                      # the interpreter looking for the text of a syntax error
            if not writing:
                full = os.path.abspath(os.fsdecode(path))
                if any(full.startswith(q) for q in self.quiet_read):
                    return
            if not writing and flags & os.O_NONBLOCK and not os.fsdecode(path).startswith("/"):
                return                      # shutil.rmtree descending by descriptor
            self._note("open-write" if writing else "open", path)
        elif event in ("os.listdir", "os.scandir"):
            path = args[0] if args and args[0] is not None else "."
            if not isinstance(path, int):
                full = os.path.abspath(os.fsdecode(path))
                if any(full.startswith(q) for q in self.quiet_read):
                    return
            self._note(event, path)
        elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.link", "os.symlink", "os.chmod",
                       "os.chown", "os.truncate", "os.utime", "os.chdir", "os.chroot", "os.mkfifo", "os.mknod",
                       "shutil.rmtree", "shutil.copyfile", "shutil.move", "tempfile.mkdtemp", "tempfile.mkstemp"):
            base = ""
            if args and isinstance(args[-1], int) and args[-1] >= 0 and event in ("os.mkdir", "os.remove", "os.rmdir"):
                try:
                    base = os.readlink(f"/proc/self/fd/{args[-1]}")
                except OSError:
                    pass
            for a in args[:2]:
                if isinstance(a, (str, bytes, os.PathLike)):
                    self._note(event, a, base)
        elif event in ("subprocess.Popen", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn",
                       "os.spawn", "pty.spawn"):
            self.hits.append(f"{event} {str(args)[:80]}")


MON = Monitor()


class StubPopen:
    """Stands in for process creation: records the attempt and fails."""

    def __init__(self, *a, **k):
        MON.spawns += 1
        raise FileNotFoundError(2, "No such file or directory (process creation is disabled)")


REAL_POPEN = subprocess.Popen


class CountPopen(REAL_POPEN):
    def __init__(self, *a, **k):
        MON.spawns += 1
        super().__init__(*a, **k)


class HostPopen:
    """Stands in for a host command: notes what it was given and does the edits of the current step to the copy."""
    world = None

    def __init__(self, args, *a, cwd=None, env=None, stdin=None, **k):
        MON.spawns += 1
        self.args = args
        self.cwd = os.fspath(cwd) if cwd is not None else None
        self.env = env
        on, MON.on = MON.on, False
        try:
            if self.cwd is None:
                raise RuntimeError("no working directory")
            if not os.path.exists(self.cwd):
                raise FileNotFoundError(2, "No such file or directory", self.cwd)
            if not os.path.isdir(self.cwd):
                raise NotADirectoryError(20, "Not a directory", self.cwd)
        finally:
            MON.on = on
        self.returncode = None
        self.pid = 999999
        self.stdin = self.stdout = self.stderr = None
        self.text = bool(k.get("text") or k.get("universal_newlines") or k.get("encoding") or k.get("errors"))

    def communicate(self, input=None, timeout=None):
        on, MON.on = MON.on, False
        try:
            out, err, self.returncode = self.world.host_command(self.args, self.cwd, self.env, input)
        finally:
            MON.on = on
        return (out, err) if self.text else (out.encode(), err.encode())

    def poll(self):
        return self.returncode

    def wait(self, timeout=None):
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def install(scratch):
    MON.configure(scratch)
    sys.addaudithook(MON.hook)


# ---------------------------------------------------------------------------
def names(path):
    return [c for c in str(path).split("/") if c not in ("", ".")]


BUILTIN = {"abs": "abs(-2)", "all": "all(())", "any": "any(())", "bool": "bool(1)", "dict": "dict(a=1)", "enumerate": "''.join(c for i, c in enumerate('a'))", "float": "float('1')", "int": "int('7')",
           "list": "list('ab')", "map": "''.join(map(lambda x: x, 'a'))", "max": "max(1, 2)", "min": "min(1, 2)", "repr": "repr('a')", "reversed": "''.join(reversed('ab'))", "round": "round(1.6)",
           "set": "set('a')", "sum": "sum((1, 2))", "tuple": "tuple('a')", "zip": "''.join(x + y for x, y in zip('a', 'b'))", "shout": "shout()"}


class World:
    """One filesystem under test and everything around it."""

    def __init__(self, scratch, tag):
        import sandfs
        self.sf = sandfs
        self.vfs = sandfs.VirtualFileSystem()
        self.dir = os.path.join(scratch, tag)
        self.tmp = os.path.join(self.dir, "tmp")
        os.makedirs(self.tmp)
        tempfile.tempdir = self.tmp
        os.environ["TMPDIR"] = self.tmp
        self.ad = {}
        self.adkind = {}
        self.adroot = {}
        self.snaps = {}
        self.prov = {}
        self.dprov = {}
        self.calls = []
        self.quiet = False
        self.events = []
        self.hookfns = {}
        self.shells = {}
        self.stamps = {}
        self.mtime = 1_000_000_000 * 10**9
        self.last = None
        self.exports = 0
        self.lazy = False
        self.hostop = None
        self.rows = []
        self.pyx = None
        self.steps = 0
        self.lean = False

    def close(self):
        tempfile.tempdir = None
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- pieces -----------------------------------------------------------
    def policy(self, d):
        return self.sf.NodePolicy(readable=d["r"], writable=d["w"], append_only=d["a"],
                                  classification=d["cls"], principals=set(d["pr"]))

    def view(self, v):
        if v["full"]:
            return None
        return self.sf.VisibilityView(
            classifications=v["cls"]["s"] if v["cls"]["on"] else None,
            principals=v["prn"]["s"] if v["prn"]["on"] else None,
            path_prefixes=["/" + "/".join(p) for p in v["pfx"]["s"]] if v["pfx"]["on"] else None,
            metadata_filters={k: None if x == "~none" else x for k, x in v["md"]["s"]} if v["md"]["on"] else None,
        )

    def content_provider(self, pid):
        def provide(ctx):
            p = self.prov[pid]
            if p["bad"]:
                raise RuntimeError("provider is down")
            if not p["txt"]:
                return ""
            md = "".join(f"{k}={ctx.metadata[k]};" for k in sorted(ctx.metadata))
            return f"{p['txt']}|{ctx.path}|{md}"
        return provide

    def provided(self, nodes, prefix=()):
        PN = self.sf.ProvidedNode
        out = {}
        for n in nodes:
            if len(n["p"]) != len(prefix) + 1 or tuple(n["p"][:-1]) != tuple(prefix):
                continue
            d = n["n"]
            pol = self.policy(d)
            md = dict(d["md"])
            name = n["p"][-1]
            if d["k"] == "f":
                if d["prv"]:
                    out[name] = PN.file(content_provider=self.content_provider(d["prv"]), metadata=md, policy=pol)
                else:
                    out[name] = PN.file(content=d["c"], metadata=md, policy=pol)
            elif d["lz"]:
                out[name] = PN.directory(directory_provider=self.dir_provider(d["lz"]), children=self.provided(nodes, tuple(n["p"])), metadata=md, policy=pol)
            else:
                out[name] = PN.directory(children=self.provided(nodes, tuple(n["p"])), metadata=md, policy=pol)
        return out

    def dir_provider(self, pid):
        def provide(ctx):
            p = self.dprov[pid]
            if not self.quiet:
                self.calls.append({"id": pid, "p": names(ctx.path), "ok": not p["bad"]})
            if p["bad"]:
                raise self.sf.exceptions.ProviderError("provider is down")
            return self.provided(p["nodes"])
        return provide

    def make_adapter(self, op):
        sf = self.sf
        world = self
        kind, ident = op["kind"], op["id"]
        base = sf.MemoryStorageAdapter if kind == "mem" else sf.FileSystemAdapter

        class Faulty(base):
            armed = None

            def _trip(self, what):
                if self.armed is not None and what in self.armed:
                    self.armed.discard(what)
                    raise OSError("storage is down")

            def write(self, path, content, *, version):
                self._trip("write")
                return super().write(path, content, version=version)

            def delete(self, path):
                self._trip("delete")
                return super().delete(path)

            def list(self):
                self._trip("list")
                return super().list()

        if kind == "mem":
            a = Faulty(initial=dict(op["init"]))
        else:
            root = os.path.join(self.dir, "ad-" + ident)
            os.makedirs(root)
            self.adroot[ident] = root
            for rel, text in op["init"]:
                self.disk_write(ident, rel, text)
            a = Faulty(Path(root))
        a.armed = set()
        self.ad[ident] = a
        self.adkind[ident] = kind

    def disk_write(self, ident, rel, text):
        f = os.path.join(self.adroot[ident], rel)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as h:
            h.write(text.encode("utf-8"))
        self.mtime += 7_000_003          # changes within the same second must be noticed too
        os.utime(f, ns=(self.mtime, self.mtime))

    # -- operations -------------------------------------------------------
    def run(self, op):
        """Carry out op; returns (ok, out, said)."""
        k = op["k"]
        f = getattr(self, "op_" + k)
        return f(op)

    def kw(self, **given):
        """The keyword arguments of a call; on a lean step those that only repeat the documented default are left out."""
        dflt = {"append": False, "expected_version": None, "parents": False, "exist_ok": False, "path_prefix": None, "regex": False,
                "ignore_case": False, "view": None, "cwd": None, "metadata": None, "policy": None, "recursive": False, "source": None, "skip_prefixes": None}
        return {k: v for k, v in given.items() if not (self.lean and v is dflt[k])}

    def whole(self, op, key="p"):
        """A path argument which may be left out: nothing, None or the empty text all mean the working directory."""
        p = self.P(op, key)
        if op[key] != "":
            return (p,)
        return () if self.lean else (None,) if self.steps % 4 < 2 else (p,)

    def P(self, op, key="p"):
        p = op[key]
        return PurePosixPath(p) if op.get("pp") else p

    def op_read(self, op):
        return [self.vfs.read_file(self.P(op))]

    def op_write(self, op):
        ver = None if op["ver"] == -1 else op["ver"]
        if op["app"] and op.get("via") == "append":
            n = self.vfs.append_file(self.P(op), op["data"], **self.kw(expected_version=ver))
        else:
            n = self.vfs.write_file(self.P(op), op["data"], **self.kw(append=op["app"], expected_version=ver))
        return []

    def op_mkdir(self, op):
        self.vfs.mkdir(self.P(op), **self.kw(parents=op["parents"], exist_ok=op["exok"]))
        return []

    def op_touch(self, op):
        self.vfs.touch(self.P(op))
        return []

    def op_remove(self, op):
        self.vfs.remove(self.P(op), **self.kw(recursive=op["rec"]))
        return []

    def op_move(self, op):
        self.vfs.move(self.P(op), self.P(op, "p2"))
        return []

    def op_copy(self, op):
        self.vfs.copy(self.P(op), self.P(op, "p2"), **self.kw(recursive=op["rec"]))
        return []

    def op_cd(self, op):
        return [self.vfs.cd(self.P(op))]

    def op_pwd(self, op):
        return [self.vfs.pwd()]

    def op_exists(self, op):
        return ["true" if self.vfs.exists(self.P(op)) else "false"]

    def op_isdir(self, op):
        return ["true" if self.vfs.is_dir(self.P(op)) else "false"]

    def op_isfile(self, op):
        return ["true" if self.vfs.is_file(self.P(op)) else "false"]

    def op_version(self, op):
        return [str(self.vfs.get_version(self.P(op)))]

    def op_ls(self, op):
        out = []
        for e in self.vfs.ls(*self.whole(op), **self.kw(view=self.view(op["view"]))):
            mark = "" if str(e.path).rsplit("/", 1)[-1] == e.name else "!name"
            n = self.vfs.get_node(e.path)
            if e.metadata != n.metadata or e.policy != n.policy:
                mark += "!about"
            out.append(("d " if e.is_dir else "f ") + str(e.path) + mark)
        return out

    def op_tree(self, op):
        return [self.vfs.tree(*self.whole(op), **self.kw(view=self.view(op["view"])))]

    def op_glob(self, op):
        cwd = None if op["p"] == "" else self.P(op)
        return [str(x) for x in self.vfs.glob(op["pat"], **self.kw(cwd=cwd, view=self.view(op["view"])))]

    def op_walk(self, op):
        D = self.sf.nodes.VirtualDirectory
        return [("d " if isinstance(n, D) else "f ") + str(p) for p, n in self.vfs.walk(*self.whole(op))]

    def op_files(self, op):
        skip = [PurePosixPath(x) for x in op["skip"]]
        kw = self.kw(skip_prefixes=skip or None)
        if not (self.lean and op["rec"]):
            kw["recursive"] = op["rec"]
        return [str(p) + ("" if n.path() == p else "!node") for p, n in self.vfs.iter_files(*self.whole(op), **kw)]

    def op_search(self, op):
        q = self.sf.SearchQuery(query=op["q"], **self.kw(
            regex=op["regex"], ignore_case=op["ic"], path_prefix=PurePosixPath(op["p"]) if op["pre"] else None))
        return [f"{r.path}:{r.line_no}:{r.line_text}" for r in self.vfs.search(q, **self.kw(view=self.view(op["view"])))]

    def op_snap(self, op):
        self.snaps[op["id"]] = self.vfs.snapshot()
        return []

    def op_restore(self, op):
        self.vfs.restore(self.snaps[op["id"]])
        return []

    def op_setpol(self, op):
        self.vfs.set_policy(self.P(op), self.policy(op["pol"]))
        return []

    def op_pokepol(self, op):
        setattr(self.vfs.get_policy(self.P(op)), {"r": "readable", "w": "writable", "a": "append_only"}[op["f"]], op["b"])
        return []

    def op_pokeprin(self, op):
        self.vfs.get_policy(self.P(op)).principals.add(op["x"])
        return []

    def op_pokemd(self, op):
        self.vfs.get_node(self.P(op)).metadata[op["key"]] = op["val"]
        return []

    def op_provset(self, op):
        self.prov[op["id"]] = {"txt": op["txt"], "bad": op["bad"]}
        return []

    def op_dprovset(self, op):
        self.dprov[op["id"]] = {"bad": op["bad"], "nodes": op["nodes"]}
        return []

    def op_mountfile(self, op):
        self.vfs.mount_file(self.P(op), self.content_provider(op["id"]), **self.kw(metadata=dict(op["md"]) or None))
        return []

    def op_mountdir(self, op):
        self.lazy = True
        self.vfs.mount_directory(self.P(op), self.dir_provider(op["id"]), **self.kw(metadata=dict(op["md"]) or None))
        return []

    def op_newad(self, op):
        MON.on = False
        self.make_adapter(op)
        return []

    def op_mount(self, op):
        self.vfs.mount_storage(self.P(op), self.ad[op["id"]],
                               **self.kw(policy=self.policy(op["pol"][0]) if op["pol"] else None))
        return []

    def op_sync(self, op):
        self.vfs.sync_storage(self.P(op))
        return []

    def op_extw(self, op):
        MON.on = False
        i = op["id"]
        if self.adkind[i] == "mem":
            a = self.ad[i]
            base = self.sf.MemoryStorageAdapter
            try:
                v = base.read(a, op["rel"]).version
            except FileNotFoundError:
                v = 0
            base.write(a, op["rel"], op["data"], version=v)
        else:
            self.disk_write(i, op["rel"], op["data"])
        return []

    def op_extd(self, op):
        MON.on = False
        i = op["id"]
        if self.adkind[i] == "mem":
            self.sf.MemoryStorageAdapter.delete(self.ad[i], op["rel"])
        else:
            try:
                os.unlink(os.path.join(self.adroot[i], op["rel"]))
            except OSError:
                pass
        return []

    def op_arm(self, op):
        self.ad[op["id"]].armed.add(op["what"])
        return []

    def op_disarm(self, op):
        for a in self.ad.values():
            a.armed.clear()
        return []

    def op_hook(self, op):
        ident = op["id"]
        if op["kind"] == "w":
            # one callable per id: an embedder may register the same function in several places
            self.vfs.register_write_hook(self.P(op), self.hookfns.setdefault(("w", ident), lambda e: self.events.append(
                ["w", ident, e.path, e.content, str(e.version), "true" if e.append else "false"])))
        elif self.lean:
            # the recorder that comes with the library
            class Notes(list):
                def append(notes, e):
                    self.events.append(["p", ident, e["path"], "~none" if e["content"] is None else e["content"], e["event"], ""])

            inbox = self.sf.integrations.InboxRecorder()
            inbox.events = Notes()
            inbox.attach(self.vfs, op["p"])
        else:
            self.vfs.register_path_hook(self.P(op), self.hookfns.setdefault(("p", ident), lambda e: self.events.append(
                ["p", ident, e.path, "~none" if e.content is None else e.content, e.event, ""])))
        return []

    def op_index(self, op):
        if self.lean:
            self.vfs.enable_full_text_index()
            return []
        mine = self.sf.FullTextIndex()
        return [] if self.vfs.enable_full_text_index(mine) is mine else ["!index"]

    def op_sview(self, op):
        if op["p"] == "/@search" and op.get("dflt"):
            self.vfs.enable_search_view()
        else:
            self.vfs.enable_search_view(self.P(op))
        return []

    def op_shell(self, op):
        c = op["cfg"]
        v = dict(c["view"], full=False)
        sh = self.sf.SandboxShell(
            self.vfs, view=self.view(v), env=dict(c["env"]),
            allowed_commands=c["allow"]["s"] if c["allow"]["on"] else None,
            max_output_bytes=None if c["lim"] == -1 else c["lim"], host_fallback=c["fb"],
            **({"python_executor": self.embedder()} if op["id"] == "h1" else {}))

        def boom(args, ctx):
            raise RuntimeError("boom")

        def quiet(args):
            return None

        def say(args, ctx):
            return " ".join(args)

        def keep(args, ctx):
            return self.sf.CommandResult(stdout=ctx.stdin, exit_code=0)

        def star(*given):
            return " ".join(given[0]) + ":" + given[1].stdin

        def half(args, ctx):
            return self.sf.CommandResult(stdout="partial", stderr="half failed", exit_code=3)

        def neg(args, ctx):
            return self.sf.CommandResult(stdout="n", stderr="killed", exit_code=-9)

        def warn(args, ctx):
            return self.sf.CommandResult(stdout=" ".join(args), stderr="warned;")

        def loud(args, ctx):
            return self.sf.CommandResult(stdout="z" * 40, stderr="z" * 300, exit_code=1)

        for name, h in (("boom", boom), ("quiet", quiet), ("say", say), ("keep", keep), ("half", half), ("neg", neg),
                        ("warn", warn), ("loud", loud), ("star", star)):
            sh.register_command(name, h)
        self.shells[op["id"]] = sh
        return []

    def op_sh(self, op):
        r = self.shells[op["id"]].exec(op["text"])
        self.answered(r)
        return (r.exit_code == 0, [r.stdout], r.stderr)

    @staticmethod
    def answered(r):
        if not (isinstance(r.exit_code, int) and isinstance(r.stdout, str) and isinstance(r.stderr, str)):
            raise TypeError("not an answer: " + repr((r.exit_code, r.stdout, r.stderr))[:200])

    # a host command: what it is given, and what it does to the copy it runs in
    def op_host(self, op):
        real = op.get("real", False)
        self.hostop, self.rows = op, []
        self.target = self.vfs.pwd() if not op["dir"] else self.absolute(op["dir"])
        job = os.path.join(self.dir, "job.json")
        words = [op["cmd"]] + op["args"]
        MON.on = False
        if real:
            with open(job, "w") as f:
                json.dump({"op": op, "target": self.target, "tmp": os.path.realpath(self.tmp)}, f)
            words = [sys.executable, "-I", "-S", hosthelper.__file__, job] + op["args"]
        q = " ".join(shlex.quote(w) for w in words)
        asg = "".join(f"{k}={shlex.quote(v)} " for k, v in op["asg"])
        if op["via"] == "host":
            line = "host " + (f"{op['flag']} {shlex.quote(op['dir'])} " if op["dir"] else "") + q
        elif op["via"] == "host--":
            line = "host " + (f"{op['flag']} {shlex.quote(op['dir'])} " if op["dir"] else "") + "-- " + q
        else:
            line = q
        line = asg + line
        if op["stdin"]:
            line = f"printf %s {shlex.quote(op['stdin'])} | " + line
        HostPopen.world = self
        MON.allow = MON.allow + [self.tmp]
        before = sorted(os.listdir(self.tmp))
        subprocess.Popen = CountPopen if real else HostPopen
        MON.on = not real
        try:
            r = self.shells[op["id"]].exec(line)
        finally:
            subprocess.Popen = StubPopen
            MON.on = False
        self.answered(r)
        if real and os.path.exists(job + ".out"):
            with open(job + ".out") as f:
                self.rows = json.load(f)
            os.unlink(job + ".out")
        left = sorted(set(os.listdir(self.tmp)) - set(before))
        if not self.rows:
            return (False, ["!left " + x for x in left], r.stderr)
        out = ["out " + r.stdout] + self.rows + ["!left " + x for x in left]
        if r.exit_code == op["code"] and op["code"] == 0 and r.stderr != "e":
            out.append("!stderr " + r.stderr)
        return (r.exit_code == op["code"], out, "")

    def absolute(self, path):
        out = []
        for c in (path if path.startswith("/") else self.vfs.pwd() + "/" + path).split("/"):
            out = out[:-1] if c == ".." else out if c in ("", ".") else out + [c]
        return "/" + "/".join(out)

    def host_command(self, args, cwd, env, given):
        op = self.hostop
        self.rows = hosthelper.command(op, self.target, os.path.realpath(self.tmp), args[1:], cwd, env, given)
        if args[0] != op["cmd"]:
            self.rows.append("!cmd " + args[0])
        return op["say"], "e", op["code"]

    # Python snippets
    def embedder(self):
        return self.sf.PythonExecutor(self.vfs, globals_template={"tool": "T"}, builtins={"shout": lambda: "A!"})

    def op_py(self, op):
        code = [self.py_stmt(x) for x in op["code"]]
        keep = sys.stdout
        sys.stdout = fake = io.StringIO()
        try:
            if op["how"] == "api":
                if self.pyx is None:
                    self.pyx = self.embedder()
                extra = dict(op["extra"])
                mine = dict(extra)
                try:
                    r = self.pyx.run("\n".join(code), extra_globals=mine)
                    out = ["out " + r.stdout] + [f"g {k}={v}" for k, v in r.globals.items() if isinstance(v, str)]
                    got = (True, out, "")
                except Exception as exc:
                    got = (False, [], str(exc) or "failed")
                if mine != extra:
                    got = (got[0], got[1] + ["!extra"], got[2])
            else:
                name = "python" if op["how"] == "python" else "python3"
                line = f"{name} -c " + shlex.quote("; ".join(code)) + (" > /rd" if op["how"] == "redir" else "")
                if op["how"] in ("words", "cwords"):         # the code spread over several arguments
                    line = name + (" -c " if op["how"] == "cwords" else " ") + " ".join(shlex.quote(c + ";") for c in code)
                r = self.shells[op["id"]].exec(line)
                got = (r.exit_code == 0, ["out " + r.stdout], r.stderr)
                if not got[0] and not r.stderr:
                    got = (True, ["!silent"], "")
        finally:
            lost = sys.stdout is not fake
            sys.stdout = keep
        if fake.getvalue() or lost:
            got = (True, got[1] + ["!stdout " + fake.getvalue()], "")
        return got

    @staticmethod
    def py_stmt(x):
        s, a, b, h = x["s"], x["a"], x["b"], x["h"]
        if s == "bi":
            return "print(" + BUILTIN[a] + ")"
        return {
            "print": f"print({a!r})", "len": f"print(len({a!r}))", "sorted": "print(str(sorted('ba')))", "set": f"{a} = {b!r}",
            "get": f"print({a})", "lam": f"q = {a!r}; w = lambda: q; print(w())", "comp": f"q = {a!r}; print(''.join(q for _ in range(2)))",
            "shadow": f"{a} = None", "drop": f"__builtins__.pop({a!r}, None)", "wreck": "__builtins__.clear()", "lose": f"{a} = None",
            "both": "print(vfs is fs)", "raise": "1 / 0", "import": "import os", "from": "from os import path", "import2": "__import__('os')",
            "open": "open('/etc/hostname')", "undef": "nothing_here", "recur": "(lambda f: f(f))(lambda f: f(f))", "syntax": "this is not",
            "read": f"print({h}.read_file({a!r}))", "pwd": f"print({h}.pwd())", "exists": f"print({h}.exists({a!r}))",
            "write": f"{h}.write_file({a!r}, {b!r})", "append": f"{h}.append_file({a!r}, {b!r})", "remove": f"{h}.remove({a!r}, recursive=True)",
            "mkdir": f"{h}.mkdir({a!r}, parents=True, exist_ok=True)", "move": f"{h}.move({a!r}, {b!r})", "cd": f"{h}.cd({a!r})",
        }[s]

    def op_export(self, op):
        self.exports += 1
        top = target = os.path.join(self.dir, f"out{self.exports}")
        how = op.get("how", "export")
        if how == "export-deep":
            target += "/x/y"
        MON.allow = [top, self.tmp]
        MON.on = False
        if how == "export-over":
            os.makedirs(target)
            with open(target + "/~own", "w") as f:
                f.write("own")

            def older(node, at):
                # files of an earlier export lie there already
                for child in getattr(node, "children", {}).values():
                    if hasattr(child, "children"):
                        os.makedirs(at + "/" + child.name, exist_ok=True)
                        older(child, at + "/" + child.name)
                    else:
                        with open(at + "/" + child.name, "w") as f:
                            f.write("older text, longer than the new one\n" * 3)

            start = self.vfs.root
            for name in names(self.absolute(op["p"]) if op["p"] else self.vfs.pwd()):
                start = getattr(start, "children", {}).get(name)
            older(start, target)
        before = set(os.listdir(self.dir))
        MON.on = True
        if how.startswith("export"):
            got = self.vfs.export_to_path(Path(target), **self.kw(source=self.P(op) if op["p"] else None))
            MON.on = False
            out = self.listing(target)
            if how == "export-over":
                out.remove("f ~own own")
            if str(got) != target:
                out.append("!at " + str(got))
        else:
            seen, kept = None, set(os.listdir(self.tmp))
            try:
                with self.vfs.materialize(*self.whole(op)) as root:
                    MON.on = False
                    seen = str(root)
                    out = self.listing(seen)
                    if not os.path.realpath(seen).startswith(os.path.realpath(self.tmp)):
                        out.append("!outside " + seen)
                    if how == "materialize-error":
                        raise ZeroDivisionError
                    MON.on = True
            except ZeroDivisionError:
                pass
            except Exception as exc:
                MON.on = False
                left = sorted(set(os.listdir(self.tmp)) - kept)
                if left:
                    return (False, ["!left " + x for x in left], str(exc))
                raise
            MON.on = False
            if seen is not None and os.path.exists(seen):
                out.append("!left " + seen)
        extra = set(os.listdir(self.dir)) - before - {f"out{self.exports}"}
        out += ["!extra " + e for e in sorted(extra)]
        return out

    listing = staticmethod(hosthelper.listing)

    # -- observation ------------------------------------------------------
    def stamp(self, x):
        return self.stamps.setdefault(x, len(self.stamps) + 1)

    def observe(self):
        try:
            return self.observe_()
        except Exception as exc:      # a tree that cannot even be walked
            blank = {"k": "d", "c": "", "v": 0, "r": True, "w": True, "a": False, "cls": "public", "pr": [], "md": [],
                     "prv": "", "lz": "", "ct": 0, "mt": 0}
            self.last = None
            return {"has": True, "same": False, "cwd": [], "ad": [{"id": i, "e": []} for i in self.ad],
                    "t": [{"p": [], "n": blank}, {"p": ["~unobservable " + type(exc).__name__], "n": blank}]}

    def observe_(self):
        D = self.sf.nodes.VirtualDirectory
        tree = []
        self.quiet = True
        try:
            for path, n in self.vfs.walk("/"):
                isdir = isinstance(n, D)
                if isdir:
                    c = ""
                else:
                    try:
                        c = n.read(self.vfs)
                    except Exception:
                        c = "~error"
                pol = n.policy
                tree.append({"p": names(path), "n": {
                    "k": "d" if isdir else "f", "c": c, "v": n.version, "r": bool(pol.readable),
                    "w": bool(pol.writable), "a": bool(pol.append_only), "cls": str(pol.classification),
                    "pr": sorted(pol.principals), "md": [[str(a), str(b)] for a, b in sorted(n.metadata.items())],
                    "prv": "", "lz": "", "ct": self.stamp(n.created_at), "mt": self.stamp(n.modified_at)}})
        finally:
            self.quiet = False
        same = tree == self.last
        self.last = tree
        ads = []
        for i, a in self.ad.items():
            if self.adkind[i] == "mem":
                e = [[r, x.content, x.version] for r, x in self.sf.MemoryStorageAdapter.list(a).items()]
            else:
                root = self.adroot[i]
                e = []
                for base, _, files in os.walk(root):
                    for f in files:
                        full = os.path.join(base, f)
                        with open(full, "rb") as h:
                            e.append([os.path.relpath(full, root), h.read().decode("utf-8", "replace"), 0])
            ads.append({"id": i, "e": e})
        return {"has": True, "same": same, "t": [] if same else tree, "cwd": names(self.vfs.pwd()), "ad": ads}

    # -- one recorded step --------------------------------------------------
    def step(self, op, look=True):
        self.calls = []
        self.events = []
        self.steps += 1
        self.lean = (zlib.crc32(json.dumps(op, sort_keys=True).encode()) + self.steps) % 2 == 1
        MON.hits = []
        MON.spawns = 0
        MON.allow = [r for r in self.adroot.values()]
        res = {"ok": True, "out": [], "raised": False, "said": True, "err": "", "errtxt": "", "errlen": 0}
        signal.setitimer(signal.ITIMER_REAL, BUDGET_S)
        MON.on = True
        try:
            got = self.run(op)
            if isinstance(got, tuple):
                res["ok"], res["out"], err = got
                res["said"] = bool(err)
                res["errtxt"] = err if res["ok"] else ""
                res["errlen"] = len(err.encode("utf-8", "replace"))
            else:
                res["out"] = got
        except Hang:
            MON.on = False
            signal.setitimer(signal.ITIMER_REAL, 0)
            raise
        except Exception as exc:          # every refusal is an exception of some kind
            res["ok"] = False
            res["raised"] = True
            res["err"] = type(exc).__name__
        finally:
            MON.on = False
            signal.setitimer(signal.ITIMER_REAL, 0)
        res["ev"] = self.events
        res["spawn"] = MON.spawns
        hits = MON.hits
        if MON.spawns:
            hits = [h for h in hits if self.tmp not in h]
        res["host"] = hits[:5]
        res["calls"] = self.calls
        res["arm"] = [[i, w] for i, a in self.ad.items() for w in sorted(a.armed)]
        for o in range(len(res["out"])):
            if not isinstance(res["out"][o], str):
                res["out"][o] = "~not-a-string " + repr(res["out"][o])
        self.events = []
        self.calls = []
        signal.setitimer(signal.ITIMER_REAL, BUDGET_S)
        try:
            obs = self.observe() if look else {"has": False, "same": False, "t": [], "cwd": [], "ad": []}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return {"op": op, "res": res, "obs": obs}
