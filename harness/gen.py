"""Random histories: chooses operations guided by the last observed state.

The choice only decides what is tried; what must happen is decided by the specification.
"""
import random

NAMES = ["a", "ab", "b", "c", "x.txt", "A", "d1", "n.md", "\u00e9.txt", "w s", "a.b", "B1", "tmp", "etc"]
TEXTS = ["", "foo", "foo\n", "foo\nbar\n", "foo bar\nFoo baz\n", "one\ntwo\nthree", "x1\nx2\nfoo\n", "\n\n",
         "l1\r\nl2 foo\r\n", "h\u00e9llo\nw\u00d6rld\n", "a\tb\n", "foo\x0bbar\u2028baz", "FOO foo\n", "12\n345\n",
         "\u6f22\u5b57\n\u20ac", "tail\n\n", "bar", "z" * 30 + "\n", "a.b\n", "last\r", "\ufefffoo\n", "f(x) [x*\n*+"]
WORDS = ["foo", "bar", "o", "Foo", "f", "ba", "1", "l2", "\u00e9", "x", "a.b", "zz", "", "two"]
LITERALS = WORDS + ["(x", "[x", "*"]      # texts to look for that are not regular expressions, too
REGEX = ["fo+", "^foo", "o$", "[fF]oo", "b.r", "\\d", "^$", "a\\.b", "[^a-z]", "x?1", "l\\d", "o*"]
NOREGEX = ["(", "+x", "fo)", "a\\", "[a", "*"]     # not regular expressions
CLASSES = ["public", "internal", "secret"]
PRINS = ["alice", "bob"]
KEYS = ["team", "kind"]
VALS = ["red", "blue"]
TEXTTOOLS = ["cat", "head", "tail", "wc", "grep"]

NOVIEW = {"full": True, "cls": {"on": False, "s": []}, "prn": {"on": False, "s": []},
          "pfx": {"on": False, "s": []}, "md": {"on": False, "s": []}}


def pol(r=True, w=True, a=False, cls="public", pr=()):
    return {"r": r, "w": w, "a": a, "cls": cls, "pr": list(pr)}


def node(k, c="", p=None, md=(), prv="", lz=""):
    d = {"k": k, "c": c, "v": 0, "md": [list(m) for m in md], "prv": prv, "lz": lz, "ct": 0, "mt": 0}
    d.update(p or pol())
    return d


def pstr(p):
    return "/" + "/".join(p)


SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./-=:,@%+^~!*?[]{}$&;#\u00e9")


def quote(rng, tok):
    """Render a word for the shell in one of several equivalent ways."""
    raw_ok = tok != "" and all(c in SAFE for c in tok)
    r = rng.random()
    if raw_ok and r < 0.6:
        return tok
    if "'" not in tok and r < 0.8:
        return "'" + tok + "'"
    if r < 0.95 or tok == "":
        return '"' + tok.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return "".join(c if c.isalnum() else "\\" + c for c in tok)


BUILTIN = ["abs", "all", "any", "bool", "dict", "enumerate", "float", "int", "list", "map", "max", "min", "repr", "reversed", "round", "set", "sum", "tuple", "zip", "shout"]


class Gen:
    def __init__(self, seed, prof, canon=False):
        self.rng = random.Random(seed)
        self.srng = random.Random(seed + "/spelling")   # how paths are spelled, independent of what is done
        self.canon = canon                              # always the plain absolute path
        self.p = prof
        self.tree = {(): {"k": "d"}}
        self.cwd = ()
        self.shells = {}
        self.ads = {}
        self.mounts = {}
        self.snaps = []
        self.provs = []
        self.dprovs = []
        self.hooks = 0
        self.sview = None
        self.extra = []          # paths worth naming although not (known to be) there
        self.n = 0

    # ------------------------------------------------------------------
    def see(self, obs):
        if not obs["has"]:
            return
        if not obs["same"]:
            self.tree = {tuple(x["p"]): x["n"] for x in obs["t"]}
        self.cwd = tuple(obs["cwd"])

    def pick(self, seq):
        return self.rng.choice(list(seq))

    def chance(self, x):
        return self.rng.random() < x

    def names(self):
        return NAMES[: self.p.get("names", 8)]

    # paths --------------------------------------------------------------
    def dirs(self):
        return [p for p, n in self.tree.items() if n["k"] == "d"]

    def files(self):
        return [p for p, n in self.tree.items() if n["k"] == "f"]

    def some(self, want="any"):
        """A location: existing of the wanted kind, new below a directory, or odd."""
        r = self.rng.random()
        if self.extra and r < 0.12:
            return self.pick(self.extra)
        if want == "new" or (want == "any" and r < 0.3):
            d = self.pick(self.dirs())
            if self.mounts and self.chance(0.4):
                d = self.pick(self.mounts)
            return d + (self.pick(self.names()),) if r > 0.05 else d + (self.pick(self.names()), self.pick(self.names()))
        pool = {"f": self.files(), "d": self.dirs()}.get(want) or list(self.tree)
        if not pool or r > 0.95:
            pool = list(self.tree)
        if self.mounts and self.chance(0.4):
            inside = [p for p in pool if any(p[: len(m)] == m for m in self.mounts)]
            pool = inside or pool
        p = self.pick(pool)
        if r > 0.97:
            p = p + (self.pick(self.names()),)
        return p

    def schance(self, x):
        return self.srng.random() < x

    def spick(self, seq):
        return self.srng.choice(list(seq))

    def spell(self, path, prob=None):
        prob = self.p.get("spell", 0.25) if prob is None else prob
        path = tuple(path)
        if not self.schance(prob) or self.canon:
            return pstr(path)
        parts = list(path)
        rel = self.schance(0.6)
        if rel:
            common = 0
            while common < len(self.cwd) and common < len(path) and self.cwd[common] == path[common]:
                common += 1
            if self.schance(0.15) and common > 0:
                common -= 1
            parts = [".."] * (len(self.cwd) - common) + list(path[common:])
        out = []
        for i, c in enumerate(parts):
            if self.schance(0.12):
                out.append(".")
            if self.schance(0.1):
                out.append("")
            if self.schance(0.12):
                out += [self.spick(self.names()), ".."]
            out.append(c)
        if not rel and self.schance(0.15):
            out = [".."] * self.srng.randint(1, 3) + out
        if self.schance(0.15):
            out.append(self.spick(["", ".", "..  "[:2] and "."]))
        if rel:
            s = "/".join(out)
            if s == "" or s.startswith("/"):
                s = "./" + s if s else "."
            return s
        return "/" + "/".join(out)

    def raw(self, want="any", prob=None):
        return self.spell(self.some(want), prob)

    # policies, views ------------------------------------------------------
    def policy(self):
        w = self.p.get("pol", {})
        return pol(r=not self.chance(w.get("r", 0.15)), w=not self.chance(w.get("w", 0.2)),
                   a=self.chance(w.get("a", 0.15)),
                   cls=self.pick(CLASSES) if self.chance(w.get("cls", 0.3)) else "public",
                   pr=[self.pick(PRINS)] if self.chance(w.get("pr", 0.1)) else [])

    def view(self, strict=True):
        rng = self.rng
        v = {"full": False}
        on = self.chance(0.6)
        v["cls"] = {"on": on, "s": sorted(rng.sample(CLASSES, rng.randint(0 if self.chance(.1) else 1, 2))) if on else []}
        on = self.chance(0.35)
        v["prn"] = {"on": on, "s": sorted(rng.sample(PRINS, rng.randint(1, 2))) if on else []}
        on = self.chance(0.4)
        ds = self.dirs() + ([self.some("new")] if self.chance(0.2) else [])
        deep = [d for d in ds if d] or ds
        v["pfx"] = {"on": on, "s": sorted({tuple(self.pick(deep if self.chance(0.9) else ds + self.files()))
                                           for _ in range(rng.randint(1, 2))}) if on else []}
        v["pfx"]["s"] = [list(x) for x in v["pfx"]["s"]]
        on = self.chance(0.25)
        keys = rng.sample(KEYS, 2 if self.chance(.25) else 1)
        v["md"] = {"on": on, "s": [[k, self.pick(VALS) if self.chance(.8) else "~none"] for k in keys] if on else []}
        return v

    def anyview(self):
        return self.view() if self.chance(self.p.get("apiview", 0.2)) else NOVIEW

    # shell text -----------------------------------------------------------
    def word(self):
        return self.pick(WORDS)

    def q(self, tok):
        return quote(self.rng, tok)

    def search_path(self):
        """A path into the search view."""
        sv = pstr(self.sview)
        if self.chance(self.p.get("regex", 0.25)):
            qs = "q=" + self.pick(REGEX if self.chance(.95) else ["%28", "%2Bx"]).replace("+", "%2B").replace("\\", "%5C").replace("^", "%5E") + "&regex=1"
        else:
            qs = "q=" + (self.word() or "foo").replace(" ", "+").replace("\u00e9", "o")
        if self.chance(0.3):
            qs += "&ignore_case=" + self.pick(["1", "true", "yes", "0"])
        if self.chance(0.3):
            d = self.some("d")
            if len(d) <= 1 and "=" not in pstr(d) and "\u00e9" not in pstr(d):
                qs += "&path=" + (d[0] if d else "%2F").replace(" ", "+")
        nav = ""
        if self.chance(0.75):
            f = self.some("f") if self.chance(0.7) else self.some("d")
            nav = "/" + "/".join(f)
        if self.sview == self.cwd[: len(self.sview)] and self.chance(0.2):
            return sv + "?" + qs + nav
        return sv + "?" + qs + nav

    def farg(self, want="f"):
        """A file argument."""
        if self.sview is not None and self.chance(self.p.get("svarg", 0.25)):
            return self.search_path()
        r = self.rng.random()
        if r < self.p.get("globarg", 0.06):
            d = self.some("d")
            return self.pick(["*", "*.txt", "?", "[ab]", "[!a]*", pstr(d).rstrip("/") + "/*", "*/*", "a*"])
        if r < self.p.get("globarg", 0.06) + self.p.get("vararg", 0.06):
            return self.pick(["$V", "${V}", "$V/a", "$HOME", "/$N", "$MISSING"])
        return self.raw(want)

    def grepflags(self, search=False):
        out = []
        if self.chance(0.3):
            out.append(self.pick(["-i", "--ignore-case"]))
        if self.chance(0.4):
            out.append(self.pick(["-n", "--line-number"]))
        if search and self.chance(0.2):
            out.append("--no-line-number")
        rx = self.chance(self.p.get("regex", 0.25))
        if rx:
            out.append(self.pick(["-e", "--regex"]))
        pat = self.pick(REGEX) if rx else (self.word() or "foo") if self.chance(.96) else "(x"
        if rx and self.chance(.05):
            pat = self.pick(NOREGEX[:4])
        if rx and pat in ("^$", "o*") and "-i" in out:
            pat = "fo+"
        return out, pat

    def filt(self):
        """A stage that works on its input."""
        k = self.pick(["head", "tail", "wc", "grep", "cat", "cat", "keep", "star", "warn"] + (["say"] if self.chance(.3) else []))
        if k in ("head", "tail"):
            a = [k]
            if self.chance(0.8):
                a += [self.pick(["-n", "-n", "-c"]), str(self.pick([0, 1, 1, 2, 3, 5, 7, 40]))]
            return a + (["-"] if self.chance(.15) else [])
        if k == "wc":
            return [k] + self.rng.sample(["-l", "-c"], self.rng.randint(0, 2)) + (["-"] if self.chance(.1) else [])
        if k == "grep":
            fl, pat = self.grepflags()
            return [k] + fl + [pat]
        if k == "cat":
            return [k] + ([] if self.chance(.7) else ["-"] if self.chance(.5) else ["-", self.farg()])
        if k in ("say", "warn", "star"):
            return [k, self.word()]
        return [k]

    def source(self):
        """A stage that produces determined text."""
        k = self.pick(self.p.get("sources", ["echo", "echo", "printf", "cat", "cat", "head", "tail", "wc", "grep", "ls",
                                             "pwd", "tree", "say", "warn"]))
        if k == "echo":
            return [k] + (["-n"] if self.chance(.2) else []) + [self.pick(WORDS + ["$V", "${N}x", "a $V", "$", "${", "$1x"])
                                                              for _ in range(self.rng.randint(0, 3))]
        if k == "printf":
            return [k, self.pick(["foo\\nbar\\n", "%s\\n", "%s-%s\\n", "a\\tb", "100%", "x\\\\n", "%s%%", "l1\\nl2\\nl3\\n",
                                  "no newline", "%d"])] + [self.word() for _ in range(self.rng.randint(0, 2))]
        if k == "cat":
            return [k] + [self.farg() for _ in range(self.rng.choice([1, 1, 1, 2, 3]))]
        if k in ("head", "tail"):
            a = [k]
            if self.chance(0.8):
                a += [self.pick(["-n", "-c"]), str(self.pick([0, 1, 2, 3, 9]))]
            return a + [self.farg() for _ in range(self.rng.choice([1, 1, 2]))]
        if k == "wc":
            return [k] + self.rng.sample(["-l", "-c"], self.rng.randint(0, 2)) + [self.farg() for _ in range(self.rng.choice([1, 1, 2]))]
        if k == "grep":
            fl, pat = self.grepflags()
            return [k] + fl + [pat, self.raw("f")]
        if k == "ls":
            return [k] + ([self.pick(["-l", "-l", "-l", "--long", "-R", "-a"])] if self.chance(.3) else []) + [self.farg("any") for _ in range(self.rng.choice([0, 1, 1, 2]))]
        if k == "tree":
            return [k] + ([self.farg("d")] if self.chance(.7) else [])
        if k in ("say", "warn", "star"):
            return [k, self.word(), self.word()]
        return [k]

    def lister(self):
        """Commands whose output order is not fixed: only as a last stage."""
        k = self.pick(["find", "rg", "search", "grep", "stat", "ls", "tree"])
        if k == "find":
            a = [k] + [self.farg("d") for _ in range(self.rng.choice([0, 1, 1, 2]))]
            if self.chance(.4):
                a += ["-name", self.pick(["*.txt", "a*", "?", "[ab]*", "x.txt", "*"])] if self.chance(.5) else ["-name", "ab"]
            if self.chance(.4):
                a += ["-type", self.pick(["f", "d", "f", "d", "q"])]
            return a
        if k in ("rg", "grep"):
            fl, pat = self.grepflags()
            rec = [self.pick(["-r", "-R", "--recursive"])] if k == "grep" and self.chance(.7) else []
            return [k] + rec + fl + [pat] + [self.farg("any") for _ in range(self.rng.choice([1, 1, 2]))]
        if k == "search":
            fl, pat = self.grepflags(True)
            return [k] + fl + [pat] + [self.raw("any") for _ in range(self.rng.choice([0, 1, 1, 2]))]
        if k == "stat":
            return [k, self.farg("any")]
        if k == "ls":
            return [k] + ([self.pick(["-l", "--long"])] if self.chance(.3) else []) + [self.farg("d") for _ in range(self.rng.choice([0, 1, 1, 2]))]
        return [k] + ([self.farg("d")] if self.chance(.7) else [])

    def changer(self):
        k = self.pick(self.p.get("changers", ["write", "write", "append", "touch", "mkdir", "rm", "cp", "mv", "cd"]))
        if k in ("write", "append"):
            a = [k, self.raw("any") if self.chance(.95) or self.sview is None else self.search_path()]
            if k == "write" and self.chance(.3):
                a.append("--append")
            if k == "write" and self.chance(.3):
                a += ["--text", self.pick(["foo bar", "x", ""])]
            return a + [self.word() for _ in range(self.rng.randint(0 if self.chance(.2) else 1, 2))]
        if k == "touch":
            return [k] + [self.raw("any") for _ in range(self.rng.choice([1, 1, 2]))]
        if k == "mkdir":
            return [k] + ([self.pick(["-p", "--parents"])] if self.chance(.4) else []) + [self.raw("new") for _ in range(self.rng.choice([1, 1, 2]))]
        if k == "rm":
            return [k] + ([self.pick(["-r", "-rf", "-R", "--recursive"])] if self.chance(.5) else []) + [self.raw("any") for _ in range(self.rng.choice([1, 1, 2]))]
        if k == "cp":
            fl = [self.pick(["-r", "-R", "--recursive"])] if self.chance(.6) else []
            ps = [self.raw("any") if self.chance(.97) or self.sview is None else self.search_path() for _ in range(2)]
            return [k] + (fl + ps if self.chance(.7) else ps[:1] + fl + ps[1:] if self.chance(.5) else ps + fl)
        if k == "mv":
            return [k] + [self.raw("any") if self.chance(.97) or self.sview is None else self.search_path() for _ in range(2)]
        return [k, self.raw("d") if self.chance(.9) or self.sview is None else self.search_path()]

    def line(self, kinds):
        k = self.pick(kinds)
        stages, redir_ok = [], True
        if k == "pipe":
            stages = [self.source()] + [self.filt() for _ in range(self.rng.choice([0, 1, 1, 2, 3]))]
        elif k == "list":
            stages, redir_ok = [self.lister()], False
        elif k == "change":
            stages = [self.changer()]
        elif k == "weird":
            return self.weird()
        elif k == "assign":
            return self.pick(["V=/a", "V=foo", "N=a", "V=", "V=$N", "N=${V}b", "V='a b'", "V=1 N=$V"])
        if k == "pipe" and self.chance(.08):
            i = self.rng.randrange(len(stages))
            stages.insert(i, self.pick([["nosuch"], ["boom"], ["half"], ["neg"], ["loud"], ["cat", "/nope"], ["cd"], ["quiet"]]))
        if k == "pipe" and self.chance(.1):
            stages.insert(self.rng.randrange(len(stages) + 1), self.changer())
        out = []
        for i, s in enumerate(stages):
            txt = " ".join([s[0] if self.chance(.95) else self.q(s[0])] + [self.q(a) for a in s[1:]])
            if self.chance(self.p.get("stageasg", .06)):
                txt = self.pick(["V=/a ", "V=foo ", "N=ab V=$N "]) + txt
            if redir_ok and self.chance(.08 if i else .04) and s[0] not in ("find", "search", "rg"):
                txt += " < " + self.q(self.farg())
            if redir_ok and self.chance(self.p.get("redir", .3) if i == len(stages) - 1 else .05):
                op = self.pick([">", ">>"])
                tgt = self.q(self.raw("any"))
                txt += (" " + op + " " + tgt) if self.chance(.8) else (op + tgt)
                if self.chance(.06):
                    txt += " " + self.pick([">", ">>"]) + " " + self.q(self.raw("any"))
            out.append(txt)
        sep = self.pick([" | ", " | ", "|"])
        return sep.join(out)

    def weird(self):
        w = ["|", "| cat", "echo a |", "echo 'open", 'echo "open', "echo a >", "< a", "> a", "cat <", "echo a | | cat",
             "nosuch", "nosuch arg | cat", "\\", "echo \\", "", "   ", "V=1 > a", "V=1 | cat", "cd", "cd a b", "cat", "rm",
             "head -n", "head -n x", "head -c", "head -c x /a", "tail -n", "tail -n 1x /a", "tail -c", "find -type", "find / -type", "find / -name", "find -type q", "cp -r /a", "cp /a /b /c", "mv /a /b /c", "grep -n", "grep -i -e", "rg", "rg -i", "search -i", "search --no-line-number", "python", "python3", "host", "host -p", "host -p /", "host --path / --", "host --", "write --append", "write /a --text", "append", "rm -r", "mkdir -p", "cat -x", "wc -x", "find /a -name b -depth",  "tail -c q /a", "cp a", "mv a", "mkdir", "touch", "grep", "search", "rg", "find -bad",
             "find -name", "stat", "ls -z", "boom", "boom | cat", "half", "half | cat", "neg", "neg | cat > /never", "echo a > /o\nneg\necho n > /never", "warn a | cat", "warn b > /o", "loud", "ls -R", "ls -la /", "ls -1", "ls --all", "echo a > /o1 >> /o2 > /o3", "echo ok\nboom\necho never > /never",
             "echo x > /a/b/c/d/e", "cat /nope | wc", "$V", "${V}", "'' a", "echo a >> ", "echo a > ''", "cat < ''",
             "printf", "printf %s", "help", "quiet", "wc /nope", "write", "append a", "python 1/0", "echo \"a\\\"b\"",
             "grep foo < /nope", "cat /", "write / x", "rm -r /", "mv / /a", "cp -r / /a", "ls /nope", "tree /nope",
             "find /nope", "rg foo /nope", "cat '<' a", "echo a b>>c>d", "cat a<b", "head a -n", "cd /nope",
             "mkdir a/b/c/d", "touch /", "echo '|'x", "nosuch; echo", "echo a && echo b", "# comment", "echo a # b"]
        x = self.pick(w)
        if self.chance(.3):
            x = x + self.pick(["\n", "\r\n", "\n\n  "]) + self.line(["change", "pipe"])
        return x

    def script(self, kinds):
        n = self.rng.choice([1, 1, 1, 1, 2, 3]) if self.p.get("multi", True) else 1
        return self.pick(["\n", "\n", "\r\n", "\n\n", "\n  "]).join(self.line(kinds) for _ in range(n))

    # ----------------------------------------------------------------------
    def shell_cfg(self):
        w = self.p.get("shell", {})
        allow = {"on": False, "s": []}
        if self.chance(w.get("allow", 0.1)):
            allow = {"on": True, "s": sorted(self.rng.sample(["cat", "echo", "ls", "grep", "wc", "head", "write", "pwd", "cd",
                                                              "rm", "tail", "search", "find", "say", "nosuch", "/bin/ls"], self.rng.randint(0, 8)))}
        v = self.view() if self.chance(w.get("view", 0.3)) else dict(NOVIEW, full=False)
        return {"view": v, "allow": allow, "lim": self.pick([0, 1, 4, 8, 20]) if self.chance(w.get("lim", 0.1)) else -1,
                "env": [["V", self.pick(["/a", "foo", "a", ""])], ["N", self.pick(["a", "ab", "x.txt"])]] if self.chance(.7) else [],
                "fb": self.chance(w.get("fb", 0.0))}

    def setup(self):
        """Operations that prepare a history."""
        p, ops = self.p, []
        rng = self.rng
        paths = [()]
        kinds = {(): "d"}

        def add_dir(d):
            ops.append({"k": "mkdir", "p": pstr(d), "parents": True, "exok": True})
            for i in range(1, len(d) + 1):
                if d[:i] not in kinds:
                    kinds[d[:i]] = "d"
                    paths.append(d[:i])

        def add_file(f, text):
            ops.append({"k": "write", "p": pstr(f), "data": text, "app": False, "ver": -1})
            kinds[f] = "f"
            paths.append(f)

        for _ in range(rng.randint(*p.get("dirs", (1, 4)))):
            d = self.pick([x for x in paths if kinds[x] == "d" and len(x) < p.get("deep", 3)] or [()]) + (self.pick(self.names()),)
            if kinds.get(d) != "f":
                add_dir(d)
        for _ in range(rng.randint(*p.get("files", (1, 5)))):
            f = self.pick([x for x in paths if kinds[x] == "d"]) + (self.pick(self.names()),)
            if kinds.get(f) != "d":
                add_file(f, self.pick(TEXTS))
        for i in range(rng.randint(*p["mem"]) if "mem" in p else 0):
            kind = "fs" if self.chance(p.get("fs", 0.25)) else "mem"
            ident = f"s{i}"
            init = {}
            for _ in range(rng.randint(0, 3)):
                rel = self.pick(["a", "ab", "b", "d1/a", "d1/x.txt", "x.txt", "d1/c/a"])
                if not any(r == rel or r.startswith(rel + "/") or rel.startswith(r + "/") for r in init):
                    init[rel] = self.pick(TEXTS)
            ops.append({"k": "newad", "p": "", "id": ident, "kind": kind, "init": [[a, b] for a, b in init.items()]})
            self.ads[ident] = kind
            at = self.pick([("m",), ("m2",), ("m", "sub"), ("ma",), ("a",)] + [x for x in paths if kinds[x] == "d" and x])
            if kinds.get(at) == "f" or any(kinds.get(at[:j]) == "f" for j in range(len(at))):
                at = ("m",)
            ops.append({"k": "mount", "p": pstr(at), "id": ident,
                        "pol": [self.policy()] if self.chance(p.get("mountpol", 0.1)) else []})
            self.mounts[at] = ident
            for j in range(1, len(at) + 1):
                if at[:j] not in kinds:
                    kinds[at[:j]] = "d"
                    paths.append(at[:j])
            for rel in init:
                f = at + tuple(rel.split("/"))
                kinds[f] = "f"
                paths.append(f)
        for i in range(rng.randint(*p["prov"]) if "prov" in p else 0):
            ident = f"p{i}"
            ops.append({"k": "provset", "p": "", "id": ident, "txt": self.pick(["live", "foo\nlive", "two\nlines foo\n"]), "bad": self.chance(.15)})
            self.provs.append(ident)
            f = self.pick([x for x in paths if kinds[x] == "d"]) + (self.pick(self.names()),)
            if kinds.get(f) == "d":
                f = ("pv%d" % i,)
            ops.append({"k": "mountfile", "p": pstr(f), "id": ident,
                        "md": [[self.pick(KEYS), self.pick(VALS)]] if self.chance(.5) else []})
            kinds[f] = "f"
            paths.append(f)
        for i in range(rng.randint(*p["lazy"]) if "lazy" in p else 0):
            ident = f"l{i}"
            ops.append({"k": "dprovset", "p": "", "id": ident, "bad": self.chance(.1), "nodes": self.lazy_nodes(i)})
            self.dprovs.append(ident)
            d = self.pick([("lz",), ("lz", "in"), ("a",), ("lz2",)] + [x for x in paths if kinds[x] == "d" and x])
            if kinds.get(d) != "f" and not any(kinds.get(d[:j]) == "f" for j in range(1, len(d))):
                ops.append({"k": "mountdir", "p": pstr(d), "id": ident,
                            "md": [[self.pick(KEYS), self.pick(VALS)]] if self.chance(.3) else []})
                kinds[d] = "d"
                paths.append(d)
                for n in ops[-2]["nodes"]:
                    self.extra.append(d + tuple(n["p"]))
        if self.chance(p.get("index", 0)):
            ops.append({"k": "index", "p": ""})
        if self.chance(p.get("sview", 0)):
            at = self.pick([("@search",), ("@search",), ("sv", "find")])
            ops.append({"k": "sview", "p": pstr(at), "dflt": self.chance(.5)})
            self.sview = at
        for _ in range(rng.randint(*p.get("policies", (0, 0)))):
            ops.append({"k": "setpol", "p": pstr(self.pick([x for x in paths if x or self.chance(.1)])), "pol": self.policy()})
        for _ in range(rng.randint(*p.get("mds", (0, 0)))):
            ops.append({"k": "pokemd", "p": pstr(self.pick(paths)), "key": self.pick(KEYS), "val": self.pick(VALS)})
        for i in range(rng.randint(*p.get("hooks", (0, 0)))):
            ops.append(self.hook_op([x for x in paths]))
        self.tree = {x: {"k": kinds[x]} for x in kinds}
        for i in range(rng.randint(*p.get("shells", (0, 0)))):
            ops.append({"k": "shell", "p": "", "id": f"h{i}", "cfg": self.shell_cfg()})
            self.shells[f"h{i}"] = ops[-1]["cfg"]
        return ops

    def hook_op(self, paths):
        self.hooks += 1
        at = self.pick(paths) if self.chance(.7) else self.pick([(), ("a",), ("ab",), ("b",)])
        return {"k": "hook", "p": self.spell(at, .3), "id": f"k{self.hooks - (self.hooks > 1 and self.chance(.2))}", "kind": self.pick(["w", "p"])}

    def lazy_nodes(self, i):
        out = []
        used = set()
        for _ in range(self.rng.randint(0, 4)):
            nm = self.pick(["a", "ab", "x.txt", "sub", "c"])
            if nm in used:
                continue
            used.add(nm)
            md = [[self.pick(KEYS), self.pick(VALS)]] if self.chance(.4) else []
            if nm == "sub":
                if self.chance(.3) and self.dprovs[:i]:
                    out.append({"p": [nm], "n": node("d", p=self.policy(), md=md, lz=self.pick(self.dprovs[:i]))})
                else:
                    out.append({"p": [nm], "n": node("d", p=self.policy(), md=md)})
                    out.append({"p": [nm, "in"], "n": node("f", self.pick(TEXTS), p=self.policy())})
            else:
                prv = self.pick(self.provs) if self.provs and self.chance(.25) else ""
                out.append({"p": [nm], "n": node("f", "" if prv else self.pick(TEXTS), p=self.policy(), md=md, prv=prv)})
        return out

    # ----------------------------------------------------------------------
    def op(self):
        for _ in range(50):
            kinds = self.p["ops"]
            k = self.rng.choices(list(kinds), weights=list(kinds.values()))[0]
            o = getattr(self, "g_" + k)()
            if o is not None:
                if self.schance(self.p.get("pp", 0.1)) and o["k"] not in ("search", "sh") and not self.canon:
                    o["pp"] = True
                return o
        return {"k": "pwd", "p": ""}

    def version_guess(self, path):
        r = self.rng.random()
        if r > self.p.get("ver", 0.25):
            return -1
        n = self.tree.get(path)
        cur = n.get("v", 0) if n else 0
        return self.pick([cur, cur, cur, max(0, cur - 1), cur + 1, 0, 1])

    def g_write(self):
        path = self.some("f" if self.chance(.5) else "any")
        return {"k": "write", "p": self.spell(path), "data": self.pick(TEXTS), "app": False, "ver": self.version_guess(path)}

    def g_append(self):
        path = self.some("f" if self.chance(.6) else "any")
        return {"k": "write", "p": self.spell(path), "data": self.pick(TEXTS), "app": True, "ver": self.version_guess(path),
                "via": self.pick(["append", "write"])}

    def g_mkdir(self):
        return {"k": "mkdir", "p": self.raw("new" if self.chance(.7) else "any"), "parents": self.chance(.5), "exok": self.chance(.5)}

    def g_touch(self):
        return {"k": "touch", "p": self.raw()}

    def g_remove(self):
        return {"k": "remove", "p": self.raw("any" if self.chance(.5) else "f"), "rec": self.chance(.5)}

    def g_move(self):
        return {"k": "move", "p": self.raw("any"), "p2": self.raw("any")}

    def g_copy(self):
        return {"k": "copy", "p": self.raw("any"), "p2": self.raw("any"), "rec": self.chance(.7)}

    def g_cd(self):
        return {"k": "cd", "p": self.raw("d")}

    def g_read(self):
        return {"k": "read", "p": self.raw("f")}

    def g_query(self):
        k = self.pick(["pwd", "exists", "isdir", "isfile", "version", "ls", "ls", "tree", "glob", "walk", "files"])
        o = {"k": k, "p": self.raw({"version": "f", "ls": "d", "tree": "d"}.get(k, "any"))}
        if k in ("ls", "tree", "walk", "files") and self.chance(.12):
            o["p"] = ""
        if k in ("ls", "tree", "glob"):
            o["view"] = self.anyview()
        if k == "glob":
            o["p"] = "" if self.chance(.5) else self.raw("d")
            d = pstr(self.some("d")).rstrip("/")
            o["pat"] = self.pick(["*", "a*", "?", "[a-c]", "*.txt", "*/*", d + "/*", "/*", "/**/a", "./*", "../*", d + "/?b", ""])
        if k == "files":
            o["rec"] = self.chance(.6)
            o["skip"] = [pstr(self.pick(list(self.tree))) for _ in range(self.rng.randint(1, 2))] if "lazy" not in self.p and self.chance(.4) else []
        return o

    def g_search(self):
        rx = self.chance(self.p.get("regex", 0.25))
        return {"k": "search", "q": self.pick(REGEX if self.chance(.95) else NOREGEX) if rx else self.pick(LITERALS) or "foo", "regex": rx,
                "ic": self.chance(.3) , "pre": self.chance(.5), "p": self.raw("any"), "view": self.anyview()}

    def g_snap(self):
        self.n += 1
        ident = f"z{self.n}" if self.chance(.7) or not self.snaps else self.pick(self.snaps)
        if ident not in self.snaps:
            self.snaps.append(ident)
        return {"k": "snap", "p": "", "id": ident}

    def g_restore(self):
        return {"k": "restore", "p": "", "id": self.pick(self.snaps)} if self.snaps else None

    def g_setpol(self):
        return {"k": "setpol", "p": self.raw("any" if self.chance(.5) else "f"), "pol": self.policy()}

    def g_pokepol(self):
        return {"k": "pokepol", "p": self.raw("any"), "f": self.pick(["r", "w", "a"]), "b": self.chance(.5)}

    def g_pokeprin(self):
        return {"k": "pokeprin", "p": self.raw("any"), "x": self.pick(PRINS)}

    def g_pokemd(self):
        return {"k": "pokemd", "p": self.raw("any"), "key": self.pick(KEYS), "val": self.pick(VALS)}

    def g_sync(self):
        return {"k": "sync", "p": self.spell(self.pick(self.mounts) if self.chance(.9) else self.some("d"))} if self.mounts else None

    def rels(self, ident):
        at = [m for m, i in self.mounts.items() if i == ident]
        out = ["a", "b", "new", "d1/a", "x.txt"]
        for m in at:
            out += ["/".join(f[len(m):]) for f in self.files() if f[: len(m)] == m and len(f) > len(m)] * 2
        return out

    def ext_ok(self, ident, rel):
        """An entry that would need a file as a directory cannot exist next to it."""
        known = self.rels(ident)[5:]
        return not any(r.startswith(rel + "/") or rel.startswith(r + "/") for r in known)

    def g_extw(self):
        if not self.ads:
            return None
        i = self.pick(self.ads)
        rel = self.pick(self.rels(i))
        if not self.ext_ok(i, rel):
            return None
        return {"k": "extw", "p": "", "id": i, "rel": rel, "data": self.pick(TEXTS)}

    def g_extd(self):
        if not self.ads:
            return None
        i = self.pick(self.ads)
        return {"k": "extd", "p": "", "id": i, "rel": self.pick(self.rels(i))}

    def g_arm(self):
        if not self.ads:
            return None
        return {"k": "arm", "p": "", "id": self.pick(self.ads), "what": self.pick(["write", "write", "delete", "list"])}

    def g_disarm(self):
        return {"k": "disarm", "p": ""} if self.ads else None

    def g_hook(self):
        return self.hook_op(list(self.tree))

    def g_index(self):
        return {"k": "index", "p": ""}

    def g_provset(self):
        if not self.provs:
            return None
        return {"k": "provset", "p": "", "id": self.pick(self.provs), "txt": self.pick(["live", "new\nfoo", "3rd"]), "bad": self.chance(.3)}

    def g_dprovset(self):
        if not self.dprovs:
            return None
        i = self.pick(self.dprovs)
        return {"k": "dprovset", "p": "", "id": i, "bad": self.chance(.25), "nodes": self.lazy_nodes(int(i[1:]))}

    def g_mountfile(self):
        if not self.provs:
            return None
        return {"k": "mountfile", "p": self.raw("any"), "id": self.pick(self.provs), "md": [[self.pick(KEYS), self.pick(VALS)]] if self.chance(.4) else []}

    def g_remountdir(self):
        if not self.dprovs:
            return None
        d = self.pick([e[:-1] for e in self.extra] or [("lz",)])
        return {"k": "mountdir", "p": pstr(d), "id": self.pick(self.dprovs), "md": []}

    def g_export(self):
        return {"k": "export", "p": self.raw("d") if self.chance(.9) else self.raw("any"),
                "how": self.pick(["export", "export-deep", "export-over", "materialize", "materialize-error"])}

    def g_mountmore(self):
        """Mount another back end, or an existing one again."""
        ident = f"t{len(self.ads)}"
        if self.ads and self.chance(.3):
            ident = self.pick(self.ads)
            if self.ads[ident] == "new":
                return None
            d = self.some("new")
            self.mounts[d] = ident
            return {"k": "mount", "p": pstr(d), "id": ident, "pol": []}
        return None

    def _sh(self, kinds):
        if not self.shells:
            return None
        return {"k": "sh", "p": "", "id": self.pick(self.shells), "text": self.script(kinds)}

    def g_sh(self):
        return self._sh(self.p.get("lines", ["pipe", "list", "change", "assign"]))

    def g_sh_read(self):
        return self._sh(["pipe", "list"])

    def g_sh_change(self):
        return self._sh(["change"])

    def g_sh_list(self):
        return self._sh(["list"])

    def g_sh_weird(self):
        return self._sh(["weird"])

    # host commands and snippets ---------------------------------------------
    def g_host(self):
        edits = []
        for _ in range(self.rng.choice([0, 1, 1, 2, 3])):
            r = self.rng.random()
            p = self.some("any") or ("n",)
            if r < .3 and self.files():
                p = self.pick(self.files())
                old = self.tree[p].get("c", "")
                edits.append(["put", pstr(p), self.pick(TEXTS + [old, old, old + "\n", old.replace("\r\n", "\n")])])
            elif r < .55:
                edits.append(["put", pstr(p if self.chance(.8) else p + ("in",)), self.pick(TEXTS)])
            elif r < .7:
                edits.append(["dir", pstr(p), ""])
            elif r < .88:
                edits.append(["del", pstr(p), ""])
            else:
                edits.append(["mv", pstr(p), pstr(self.some("new"))])
        if any("~error" == e[2] for e in edits):
            edits = []
        args = []
        for _ in range(self.rng.randint(0, 3)):
            p = self.some("any")
            t = self.raw("any", .3) if self.chance(.3) else pstr(p) + self.pick(["", "", "/"] if p else [""])
            t = self.pick([t, t, t, "--out=" + t, "-I" + t, "x" + t, "http:/" + t, "cat " + t + " " + pstr(self.some("any")), t + "," + t, "'" + t + "'", "s/a/b/", "-v", "/usr/bin/env", "/etc", "/"])
            if self.chance(.1):
                t = self.pick(["$V", "x${N}y", "-c", "$N/" + t])
            if not any(c in t for c in "*?[]\n") and t not in ("|", "<", ">", ">>"):
                args.append(t)
        via = self.pick(["host", "host", "host--", "bash", "fb", "ls"])
        ident = self.pick(list(self.shells))
        if via in ("fb", "ls") and not self.shells[ident]["fb"]:
            via = "host"
        if via == "ls":
            args.insert(self.rng.randint(0, len(args)), "-a")
        return {"k": "host", "p": "", "asg": [["V", self.pick(["one", "two words", "$N"])]] if self.chance(.25) else [], "flag": self.pick(["-p", "-C", "--path"]),
                "id": ident, "via": via, "cmd": {"ls": "ls", "fb": "tool", "bash": self.pick(["bash", "sh"])}.get(via, self.pick(["tool", "grep"])),
                "dir": (self.raw("d", .4) if self.chance(.6) else "") if via.startswith("host") else "", "args": args, "edits": edits, "code": self.pick([0, 0, 0, 7]),
                "say": self.pick(["", "said", "l1\nl2\n", "\u00e9"]), "stdin": self.pick(["", "", "given", "a  b \u00e9"]), "real": via not in ("bash", "ls") and self.chance(self.p.get("real", 0))}

    def g_py(self):
        code = []
        how = self.pick(["python", "python3", "api", "api", "redir", "words", "cwords"])
        for _ in range(self.rng.randint(1, 5)):
            s = self.pick(["print", "print", "len", "bi", "sorted", "set", "get", "get", "lam", "comp", "shadow", "drop", "wreck", "lose", "both", "read", "read", "pwd",
                           "exists", "write", "write", "append", "remove", "mkdir", "move", "cd"] + (["raise", "import", "from", "import2", "open", "undef", "recur", "syntax"] if self.chance(.3) else []))
            a, b, h = "", "", self.pick(["vfs", "fs"])
            if s in ("print", "len", "lam", "comp"):
                a = self.pick(["hi", "two words", "\u00e9", "x"])
            elif s == "set":
                a, b = self.pick(["x", "y", "tool", "extra"]), self.pick(["1", "val"])
            elif s == "get":
                a = self.pick(["x", "y", "tool", "extra", "q"])
            elif s == "bi":
                a = self.pick(BUILTIN)
            elif s in ("shadow", "drop"):
                a = self.pick(["print", "len", "sorted", "str", "range"])
            elif s == "lose":
                a = self.pick(["vfs", "fs"])
            elif s in ("read", "exists", "cd", "mkdir", "remove", "write", "append", "move"):
                a = self.raw("any", .3)
                b = self.raw("any", .2) if s == "move" else self.pick(["w", "two\nlines", "\u00e9\r\n"])
            if how != "api" and any(c in a + b for c in "*?[]$\n\r\u2028"):
                s, a, b = "print", "plain", ""
            code.append({"s": s, "a": a, "b": b, "h": h})
        return {"k": "py", "p": "", "id": self.pick(list(self.shells)), "how": how, "code": code,
                "extra": [["extra", self.pick(["E", "F"])]] if how == "api" and self.chance(.6) else []}
