"""Bounded exhaustive models: prepared state, menu of operations and depth for each property."""
import itertools

from gen import NOVIEW, node, pol

FULL = dict(NOVIEW, full=False)


def W(p, d, ver=-1):
    return {"k": "write", "p": p, "data": d, "app": False, "ver": ver}


def A(p, d, ver=-1):
    return {"k": "write", "p": p, "data": d, "app": True, "ver": ver, "via": "append"}


def D(p, parents=True, exok=True):
    return {"k": "mkdir", "p": p, "parents": parents, "exok": exok}


def T(p):
    return {"k": "touch", "p": p}


def R(p, rec=True):
    return {"k": "remove", "p": p, "rec": rec}


def M(p, q):
    return {"k": "move", "p": p, "p2": q}


def C(p, q, rec=True):
    return {"k": "copy", "p": p, "p2": q, "rec": rec}


def Q(k, p="/", **kw):
    o = {"k": k, "p": p}
    if k in ("ls", "tree", "glob", "search"):
        o["view"] = NOVIEW
    if k == "files":
        o["skip"] = []
    o.update(kw)
    return o


def CD(p):
    return {"k": "cd", "p": p}


def POL(p, **kw):
    return {"k": "setpol", "p": p, "pol": pol(**kw)}


def POKE(p, f, b):
    return {"k": "pokepol", "p": p, "f": f, "b": b}


def PRIN(p, x):
    return {"k": "pokeprin", "p": p, "x": x}


def MD(p, key, val):
    return {"k": "pokemd", "p": p, "key": key, "val": val}


def HOOK(p, ident, kind):
    return {"k": "hook", "p": p, "id": ident, "kind": kind}


def IDX():
    return {"k": "index", "p": ""}


def SV(p="/@search"):
    return {"k": "sview", "p": p, "dflt": False}


def view(cls=None, prn=None, pfx=None, md=None):
    return {"full": False, "cls": {"on": cls is not None, "s": cls or []}, "prn": {"on": prn is not None, "s": prn or []},
            "pfx": {"on": pfx is not None, "s": pfx or []}, "md": {"on": md is not None, "s": md or []}}


def SHELL(ident="h0", v=None, allow=None, lim=-1, env=(), fb=False):
    return {"k": "shell", "p": "", "id": ident, "cfg": {
        "view": v or FULL, "allow": {"on": allow is not None, "s": allow or []}, "lim": lim, "env": [list(e) for e in env], "fb": fb}}


RO = ("cat", "ls", "tree", "find", "rg", "grep", "search", "head", "tail", "wc", "echo", "printf", "stat", "pwd", "say", "nosuch")


def S(text, ident="h0", ro=None):
    if ro is None:
        ro = ">" not in text and "\n" not in text and all(part.split()[:1] and part.split()[0] in RO for part in text.split("|"))
    return {"k": "sh", "p": "", "id": ident, "text": text, "ro": ro}


def AD(ident, init, kind="mem"):
    return {"k": "newad", "p": "", "id": ident, "kind": kind, "init": [list(x) for x in init]}


def MNT(p, ident, *pl):
    return {"k": "mount", "p": p, "id": ident, "pol": list(pl)}


def SYNC(p):
    return {"k": "sync", "p": p}


def EXTW(ident, rel, data):
    return {"k": "extw", "p": "", "id": ident, "rel": rel, "data": data}


def EXTD(ident, rel):
    return {"k": "extd", "p": "", "id": ident, "rel": rel}


def ARM(ident, what):
    return {"k": "arm", "p": "", "id": ident, "what": what}


def SNAP(i):
    return {"k": "snap", "p": "", "id": i}


def REST(i):
    return {"k": "restore", "p": "", "id": i}


def SEARCH(q, p=None, regex=False, ic=False, v=NOVIEW):
    return {"k": "search", "q": q, "regex": regex, "ic": ic, "pre": p is not None, "p": p or "/", "view": v}


def PROV(i, txt, bad=False):
    return {"k": "provset", "p": "", "id": i, "txt": txt, "bad": bad}


def MF(p, i, md=()):
    return {"k": "mountfile", "p": p, "id": i, "md": [list(x) for x in md]}


def EXPORT(p, how="export"):
    return {"k": "export", "p": p, "how": how}


TREE = [D("/a/d"), W("/a/b", "foo\nbar\n"), W("/a/d/c", "Foo baz"), D("/e"), W("/f", "x")]
SPOTS = ["/a", "/a/b", "/a/d", "/f", "/e", "/g"]
LOOK = [Q("walk"), Q("ls", "/a"), Q("tree"), Q("files", "/", rec=True), Q("files", "/", rec=True, skip=["/a/d", "/a/b"]), Q("files", "", rec=False), Q("glob", "", pat="/*/*"), Q("exists", "/a/b"),
        Q("isdir", "/a"), Q("isfile", "/f"), Q("read", "/f"), Q("version", "/f")]


def pairs(mk, spots=SPOTS):
    return [mk(a, b) for a in spots for b in spots]


MODELS = {}


def norm(path, cwd):
    """The plain absolute spelling of a path."""
    out = []
    for c in (path if path.startswith("/") else cwd + "/" + path).split("/"):
        if c == "..":
            out = out[:-1]
        elif c not in ("", "."):
            out.append(c)
    return "/" + "/".join(out)


def plain(op, cwd):
    """The same call with its paths written out."""
    o = dict(op)
    if o["k"] == "sh":
        if "%" in op.get("tmpl", ""):
            t = op["tmpl"]
            for a in op["args"]:
                t = t.replace("%", norm(a, cwd), 1)
            o["text"] = t
    elif o["k"] == "glob":
        pass
    else:
        for key in ("p", "p2"):
            if key in o and o["k"] not in ("pwd", "shell", "newad", "index", "snap", "restore", "extw", "extd", "arm", "provset"):
                o[key] = norm(o[key], cwd)
    o.pop("pp", None)
    return o


def P(tmpl, *args):
    """A shell line with its path arguments marked."""
    t = tmpl
    for a in args:
        t = t.replace("%", a, 1)
    return dict(S(t), tmpl=tmpl, args=list(args))


def model(pid, name, setup, menu, quick, thorough, keep=0):
    """Every state within the depth, expanded again for every different choice of the last `keep` operations that led there."""
    MODELS.setdefault(pid, []).append({"name": name, "setup": setup, "menu": menu, "depth": {"quick": quick, "thorough": thorough},
                                       "keep": keep})


ALLSEQ = {}


def sequences(pid, name, setup, menu, quick, thorough):
    """Every sequence of exactly that many operations, recorded and judged step by step."""
    ALLSEQ.setdefault(pid, []).append({"name": name, "setup": setup, "menu": menu, "depth": {"quick": quick, "thorough": thorough}})


# C01 ------------------------------------------------------------------------------------------------
model("C01", "host-like names", TREE + [D("/etc"), W("/etc/passwd", "root"), D("/tmp"), SHELL(), SHELL("h1", allow=["id", "nosuch", "/bin/ls", "cat", "bash"]), SV()], [
    S("id", "h1"), S("nosuch", "h1"), S("/bin/ls", "h1"), S("cat /etc/hosts", "h1"), S("ls /", "h1"), S("echo x | id", "h1"),
    W("/etc/passwd", "1"), W("../../etc/x", "2"), A("/tmp/../etc/y", "3"), T("../../../t"), D("/tmp/x"), R("/tmp"), R("/etc/.."),
    CD("/tmp"), CD(".."), M("/etc", "/tmp"), C("/etc", "/tmp/q"), Q("read", "/etc/passwd"), Q("read", "/etc/hosts"),
    Q("exists", "/bin/sh"), Q("glob", "", pat="/*/*"), Q("ls", "../.."), SEARCH("root"),
    S("cat /etc/passwd"), S("cat /etc/hosts"), S("ls /.."), S("ls -l .."), S("echo x > /tmp/z"), S("echo x > ../../tmp/z"),
    S("cat < /etc/passwd"), S("cat < /etc/hostname"), S("cp -r /etc /tmp"), S("find .."), S("rg root /"), S("touch ../../t"),
    S("mkdir -p /tmp/x/y"), S("rm -rf /tmp"), S("cd .."), S("nosuch"), S("ls*"), S("cat /*/*"), S("mv /etc /tmp/e"),
    S("cat '/@search?q=root/etc/passwd'"), S("id"), S("tree /"), S("stat /etc"), S("grep -r root /etc"), S("search root /etc"),
    S("/bin/ls"), S("./ls"), S("touch ~"), S("cat ~/.bashrc"), S("echo $HOME")], 2, 3)

# C02 ------------------------------------------------------------------------------------------------
model("C02", "spellings", TREE, [
    W("/a/b", "1"), W("a/../a/./b", "2"), W("b", "3"), W("../f", "4"), W("//a//b/", "5"), W("/../../f", "6"), A("./f", "7"),
    CD("/a"), CD("a/d"), CD(".."), CD("../.."), CD("."), CD(""), CD("/a/d/../../e"), CD("d"), CD("/"),
    M("/a", "/e"), M("a", "g"), M(".", "/e"), M("..", "/e"), M("/e/../a/d", "/g"), C("d", "../e"), C("./a/b", "e/../k"), R("d"), R("../a/d"),
    R("."), D("x/y"), D("../x/./y"), T("t"), T("/a/d/../t"),
    Q("read", "b"), Q("read", "c"), Q("read", "./a/d/../b"), Q("read", "/a/b/"), Q("read", "../../../f"), Q("pwd", ""), Q("exists", ".."),
    Q("exists", "zz/../f"), Q("isdir", "d/"), Q("ls", "."), Q("ls", ".."), Q("tree", "."), Q("glob", "", pat="*"), Q("glob", "", pat="../*"),
    Q("glob", ".", pat="/*"), Q("version", "./b")], 2, 3)
model("C02", "spellings in the shell", TREE + [SHELL(), IDX()], [
    CD("/a"), CD("d"), CD("/"), M("/a", "/e"), P("cd %", "a"), P("cd %", ".."), P("cd %", "../e"), S("pwd"), P("cat %", "b"), P("cat %", "./b"), P("cat %", "../a/b"),
    P("cat %", "/a/../a/b"), P("ls %", "."), P("ls %", ".."), P("ls %", "a/"), P("tree %", "."), P("find %", "."), P("find %", ".."), P("find %", "d/.."), P("grep foo %", "b"),
    P("rg foo %", "."), P("rg foo %", "a/../a"), P("search foo %", "."), P("search foo %", "../a"), P("echo z > %", "t"), P("echo z >> %", "../f"), P("cat < %", "./b"),
    P("cp % %", "b", "../k"), P("mv % %", "d", "../g"), P("mv % %", "./b", "d/.."), P("rm %", "./b"), P("rm -r %", "../a/d"), P("mkdir %", "x"), P("touch %", "../x/../t"), P("stat %", "."),
    P("stat %", ".."), P("write % 1", "./w"), P("append % 2", "b"), SEARCH("foo", "a"), SEARCH("foo", "."), SEARCH("foo", "/a/../a"), SEARCH("foo", "/a/b/"),
    SEARCH("foo", "..")], 2, 3)

# C03 ------------------------------------------------------------------------------------------------
_c03 = pairs(M) + pairs(C) + [C("/a", "/g", False), C("/a", "/e", False), W("/a", "1"), W("/a/b", "1"), W("/g/h/i", "2"), W("/f/x", "3"), A("/a/b", "4"),
    A("/g", "5"), A("/e", "6"), D("/a"), D("/a", exok=False), D("/g/h"), D("/g/h", parents=False), D("/f"), D("/f/x"), T("/a/b"), T("/g"), T("/a"),
    T("/g/h"), R("/a"), R("/a", False), R("/e", False), R("/f", False), R("/f"), R("/g"), R("/"), R("/", False), M("/", "/e"), M("/a", "/"),
    M("/a/b", "/"), C("/", "/e"), C("/", "/g"), C("/a/b", "/"), M("/a", "/a/d/k"), C("/a", "/a/d/k"), M("/a/b", "/g/h"), C("/a/b", "/g/h"),
    CD("/a"), CD("/a/d"), CD("/f"), CD("/g"), CD("..")] + LOOK
model("C03", "tree operations", TREE, _c03, 2, 2)
model("C03", "longer histories", [D("/a"), W("/a/b", "1"), W("/f", "2")], [
    M("/a", "/g"), M("/g", "/a"), M("/a/b", "/f"), M("/f", "/a"), M("/f", "/g"), C("/a", "/g"), C("/a/b", "/f"), C("/f", "/a/b"), C("/g", "/a"),
    W("/a/b", "x"), A("/f", "y"), A("/a/b", "z"), R("/a"), R("/f"), R("/g"), D("/a"), T("/g"), CD("/a"), CD("/"), T("b")], 3, 4)

_nm = ["/a", "/ab", "/a/a", "/a/ab", "/ab/a", "/a/ab/a", "/aa"]
model("C03", "names within names", [D("/a/a"), D("/ab"), W("/a/ab", "1"), W("/ab/a", "2"), W("/aa", "3"), MD("/ab/a", "team", "red")], pairs(M, _nm) + pairs(C, _nm) + [W(p, "w") for p in _nm] + [R(p) for p in _nm] + [A("/ab/a", "x"), T("/a/ab"), D("/ab/a"), Q("walk"), Q("ls", "/a"), Q("ls", "/ab")], 2, 2)

# every copy stands alone; listings in the documented order
_own = [D("/a"), W("/a/b", "1"), POL("/a/b", pr=["bob"]), MD("/a", "team", "red"), D("/e")]
_ownops = [C("/a", "/c"), C("/a/b", "/c"), C("/c", "/e"), C("/a/b", "/e"), C("/e/b", "/c"), M("/a", "/e"), M("/c", "/a"), POKE("/a/b", "w", False), POKE("/a/b", "r", False), POKE("/a", "w", False), POKE("/a", "r", False), POKE("/c", "w", False), POKE("/c", "a", True), POKE("/c/b", "r", False), POKE("/c/b", "w", False), PRIN("/a/b", "alice"), PRIN("/c/b", "alice"), PRIN("/a", "alice"),
           PRIN("/c", "alice"), MD("/a", "kind", "x"), MD("/a/b", "kind", "y"), MD("/c", "kind", "z"), MD("/c/b", "team", "w"), W("/a/b", "2"), W("/c/b", "3"), A("/c", "4"), W("/e/b", "5"), R("/a/b"), R("/c")]
for _p in ("C03", "C05", "C06"):
    model(_p, "copies stand alone", _own, _ownops + [Q("read", "/c"), Q("read", "/c/b")], 2, 3)
_odd = ["B", "a", "b", "Z", "_", "a.b", "a b", "a-b", "A", "\u00e9", "E", "10", "9"]
model("C03", "listing order", [W("/" + n, "x") for n in _odd[::-1]] + [D("/d" + n) for n in _odd[::2]] + [D("/a0/B"), W("/a0/b/c", "1"), D("/a0/C"), W("/a0/a", "2"), W("/a0-", "3"), SHELL()],
      [Q("ls", "/"), Q("ls", "/a0"), Q("tree"), Q("tree", "/a0"), Q("walk"), Q("glob", "", pat="*"), Q("glob", "", pat="/*"), Q("glob", "", pat="/a0*/*"), Q("files", "/", rec=True), S("ls"), S("ls -l"), S("tree"), S("find"), S("echo *"), S("echo /*/*"), S("cat *"), M("/B", "/a0"), C("/a0", "/A0"), D("/A1"), W("/a1", "z"), R("/a"), W("/a", "again")], 2, 2)

# C04 ------------------------------------------------------------------------------------------------
model("C04", "refusals", [AD("s0", [["a", "1"], ["d/b", "2"]]), AD("s1", [["x", "1"], ["x/y", "2"]]), D("/a/d"), W("/a/b", "foo"), W("/f", "x"), MNT("/m", "s0"),
                           POL("/a/d", w=False), W("/ro", "r"), POL("/ro", w=False), HOOK("/", "k1", "p"), HOOK("/m", "k2", "w"), D("/e")], [
    W("/a/d/n", "1"), W("/a", "2"), W("/ro", "3"), A("/ro", "4"), W("/f/x/y", "5"), W("/n/x", "6", 3), W("/f", "7", 9), W("/f", "8", 1), A("/f", "9", 5),
    W("/m/a", "10"), W("/m/a", "11", 7), A("/m/a", "12"), W("/m/n/o", "13"), W("/m/d", "14"), W("/m/a/x", "15"), D("/f"), D("/a/d/n"), D("/n/o", False), D("/a", exok=False),
    D("/f/x"), T("/a/d/n"), T("/ro"), T("/a"), T("/f/x"), R("/a"), R("/a", False), R("/a/d"), R("/ro"), R("/"), R("/zz"), R("/m"), R("/m/a"), R("/m/d", False),
    MNT("/k/o", "s1"), MNT("/e", "s1", pol(w=False)), EXTW("s0", "a/z", "9"), SYNC("/m"), M("/ro", "/e"), M("/f", "/a/d"), M("/f", "/a/b"), M("/a/b", "/f"), M("/a", "/e"), M("/f", "/zz/y"), M("/zz", "/f"), M("/e", "/e/k"), M("/m/a", "/e"),
    C("/f", "/a/d"), C("/f", "/ro"), C("/a", "/e", False), C("/f", "/e"), C("/a", "/f"), C("/f", "/zz/y"), C("/e", "/e/k"), C("/m/a", "/m/d"),
    CD("/f"), CD("/zz"), CD("/a"), SYNC("/m"), SYNC("/a"), EXTW("s0", "a", "ext"), EXTD("s0", "a"), ARM("s0", "write"), ARM("s0", "delete"), ARM("s0", "list"),
    MNT("/f", "s0"), MNT("/e", "s0"), Q("read", "/a"), Q("read", "/zz"), Q("ls", "/zz"), Q("version", "/a"), SEARCH("foo", "/zz")], 2, 3)

for _p in ("C04", "C21"):
    model(_p, "provided files below a mount", [AD("s0", [["a", "1"]]), MNT("/m", "s0"), PROV("p0", "live"), PROV("p1", "x", True), MF("/m/pv", "p0", [["team", "red"]]), MF("/m/bad", "p1"), MF("/pv", "p0"), IDX(), HOOK("/", "k1", "w")], [
        W("/m/pv", "w"), A("/m/pv", "a"), W("/m/pv", "w", 5), A("/m/pv", "a", 0), EXTW("s0", "pv", "ext"), ARM("s0", "write"), ARM("s0", "delete"), PROV("p0", "two"), PROV("p1", "good"), A("/m/bad", "a"), W("/m/bad", "w"), C("/m/bad", "/k"), C("/m/bad", "/pv"), C("/m", "/k"), Q("read", "/m/pv"), Q("read", "/m/bad"),
        R("/m/pv"), R("/m"), SYNC("/m"), SNAP("z"), REST("z"), A("/pv", "q"), POL("/pv", w=False)], 2, 3)

# C05 ------------------------------------------------------------------------------------------------
_c05 = [D("/a/d"), W("/a/b", "foo\n"), W("/a/d/c", "c"), W("/ro", "r\n"), POL("/ro", w=False), W("/ao", "log\n"), POL("/ao", a=True),
        D("/rd/s"), W("/rd/f", "1"), W("/rd/s/g", "2"), POL("/rd", w=False), D("/ad"), W("/ad/f", "3"), POL("/ad", a=True), W("/f", "x"), D("/e"),
        W("/a/d/p", "pp"), POL("/a/d/p", w=False)]
model("C05", "API", _c05, sum(([W(p, "1"), A(p, "2"), T(p), R(p), M(p, "/e"), M("/f", p), C("/f", p), C(p, "/g"), C("/ro", p)] for p in
      ["/ro", "/ao", "/rd/f", "/rd/n", "/rd", "/rd/s", "/rd/s/g", "/ad", "/ad/f", "/ad/n", "/a/d/p", "/a"]), []) +
      [D("/rd/x"), D("/rd/s/x"), D("/ad/x"), D("/rd", exok=True), R("/"), R("/a", False), M("/rd/f", "/rd/h"), M("/ad/f", "/ad/h"), POL("/ro"), POL("/rd"), POL("/ad"),
       POKE("/ro", "w", True), POKE("/f", "w", False), POKE("/f", "a", True), SNAP("z"), REST("z"), CD("/rd"), W("n", "rel")], 1, 2)
model("C05", "shell", _c05 + [SHELL()], sum(([S(f"echo n > {p}"), S(f"echo n >> {p}"), S(f"write {p} z"), S(f"append {p} z"), S(f"touch {p}"), S(f"rm -r {p}"),
      S(f"mv {p} /e"), S(f"cp -r /f {p}"), S(f"mv /f {p}"), S(f"cp /ro {p}")] for p in ["/ro", "/ao", "/rd/f", "/rd/n", "/ad/f", "/ad/n", "/a/d/p", "/a", "/rd", "/ad"]), []) +
      [S("mkdir /rd/x"), S("mkdir /ad/x"), S("rm -r /"), S("cd /rd"), S("echo z > n"), POL("/ro"), POKE("/f", "w", False), S("write /ao --append zz"), S("cp -r /rd /g"),
       S("cp /ao /g"), S("write /ao --text zz"), S("cat /ro > /ro"), S("cat /ao >> /ao")], 1, 2)
model("C05", "combined", [W("/ro", "r\n"), POL("/ro", w=False), W("/ao", "log\n"), POL("/ao", a=True), D("/rd"), W("/rd/f", "1"), POL("/rd", w=False), D("/e"), SHELL()], [
    W("/ro", "1"), A("/ro", "2"), W("/ao", "3"), A("/ao", "4"), M("/ro", "/e"), M("/ao", "/e"), C("/ro", "/ao"), C("/ao", "/ro"), C("/ro", "/e"), C("/rd", "/e"),
    M("/rd", "/e"), M("/rd/f", "/e"), R("/rd"), R("/e"), R("/ro"), R("/ao"), M("/e", "/rd"), M("/e", "/g"), W("/rd/n", "5"), W("/e/ro", "6"), W("/e/ao", "7"), A("/e/ao", "8"),
    W("/e/rd/f", "9"), R("/e/ro"), R("/e/rd"), T("/ro"), T("/rd/n"), CD("/e"), M("/e/ro", "/k"), S("echo q > /e/ro"), S("rm -r /e")], 2, 3)

# C06 ------------------------------------------------------------------------------------------------
_c06reads = sum(([S(f"cat {p}"), S(f"head {p}"), S(f"tail -n 2 {p}"), S(f"wc {p}"), S(f"grep key {p}"), S(f"grep -n key {p} /f"), S(f"rg key {p}"), S(f"search key {p}"),
                  S(f"cat < {p}"), S(f"cat {p} | wc"), S(f"cp {p} /k"), S(f"stat {p}"), S(f"ls -l {p}"), Q("read", p), SEARCH("key", p), A(p, "more"), W(p, "new key"), C(p, "/k")]
                 for p in ["/u", "/a/v"]), [])
model("C06", "unreadable", [W("/u", "secret key\n2"), POL("/u", r=False), D("/a"), W("/a/v", "key in a\n"), POL("/a/v", r=False), D("/ud"), W("/ud/w", "inside key"), POL("/ud", r=False),
                            W("/f", "plain key"), SHELL(), IDX(), SV()], _c06reads + [
    SEARCH("key"), SEARCH("KEY", ic=True), SEARCH("k.y", regex=True), S("rg key /"), S("grep -r key /"), S("search key"), S("cat '/@search?q=key/u'"), S("cat '/@search?q=key/f'"),
    S("ls '/@search?q=key'"), S("rg key '/@search?q=key'"), S("cat /*"), S("ls /ud"), S("cd /ud"), CD("/ud"), Q("ls", "/ud"), Q("tree", "/ud"), Q("tree"), Q("walk", "/ud"),
    Q("files", "/ud", rec=True), S("find /ud"), S("tree /ud"), S("cat /ud/w"), S("grep key /a"), S("grep -n key /ud /a"), S("rg key /ud"), S("cp -r /a /k"), S("cp -r /ud /k"), C("/ud", "/k"), C("/a", "/k"), S("mv /u /k"), M("/u", "/k"),
    S("cat /k"), Q("read", "/k"), S("mv /a /e"), POKE("/u", "r", True), POKE("/f", "r", False), POL("/f", r=False), POL("/u"), S("cat u f"), S("cat < /u | grep key"), S("echo z >> /u")], 1, 2)
model("C06", "policy changes after indexing", [W("/u", "key one\n"), W("/f", "key two\n"), D("/a"), W("/a/v", "key three"), SHELL(), IDX(), SV()], [
    POKE("/u", "r", False), POKE("/u", "r", True), POL("/a/v", r=False), POL("/a/v"), POKE("/a", "r", False), SEARCH("key"), SEARCH("key", "/a"), S("rg key /"), S("search key"), S("search key /a"),
    S("ls '/@search?q=key'"), S("cat '/@search?q=key/u'"), S("cat '/@search?q=key/a/v'"), W("/u", "key new\n"), A("/u", "key app\n"), M("/u", "/a"), C("/u", "/k"), M("/a", "/g"), SNAP("z"), REST("z"),
    S("cat /u"), S("grep -r key /"), S("cat /k"), R("/u")], 3, 4)

_deep = "/" + "/".join("abcdefghijkl")
for _p, _d in (("C02", (2, 3)), ("C03", (2, 3)), ("C20", (1, 2))):
    model(_p, "deep trees", [D(_deep), W(_deep + "/f", "deep foo"), W("/x", "x"), SHELL(), SV()], [CD(_deep), CD("../.."), CD("/a/b/c/d/e/f/g/h"), CD("/"), Q("pwd", ""), W("n", "n"), A("f", "+"), Q("read", _deep + "/f"), Q("read", "f"), Q("walk", ""), Q("walk", "/a/b/c"), Q("tree", ""), Q("ls", _deep),
          M(_deep, "/z"), M("/a/b/c/d", "/z"), C("/a", "/z"), R("/a/b/c/d/e/f/g/h/i"), R("k"), D("q/r/s"), M("/x", _deep), C("/x", "../.."), SEARCH("foo"), SEARCH("foo", "/a/b/c/d/e/f/g/h/i/j"), S("find /"), S("rg foo"), S("cat '/@search?q=foo" + _deep + "/f'"), S("pwd"), EXPORT("/"), EXPORT("")], *_d)

# C07 / C08 --------------------------------------------------------------------------------------------
_vset = [D("/a/d"), W("/a/p", "key pub\n"), W("/a/s", "key sec\n"), POL("/a/s", cls="secret"), W("/a/d/al", "key alice\n"), POL("/a/d/al", cls="secret", pr=["alice"]), D("/sd"), W("/sd/in", "key in\n"),
         POL("/sd", cls="secret"), D("/b"), W("/b/q", "key b\n"), W("/ab", "key ab\n"), MD("/b/q", "team", "red"), MD("/b", "team", "red"), MD("/a/p", "team", "blue"), W("/a/d/bo", "key bob\n"), POL("/a/d/bo", pr=["bob"])]
_views = [("h0", view(cls=["public"])), ("h1", view(pfx=[["a"]])), ("h2", view(prn=["alice"])), ("h3", view(md=[["team", "red"]])), ("h4", view(cls=["public", "internal"], prn=["bob"], pfx=[["a", "d"], ["b"]])),
          ("h5", view(pfx=[["a", "s"]])), ("h6", FULL)]


def vreads(h):
    out = ["ls /", "ls /a", "ls -l /a", "ls /a/d", "ls /sd", "ls /a/s", "tree /", "tree /a", "tree", "find /", "find /a -name '*'", "find /sd", "find / -type f", "cat /a/p", "cat /a/s", "cat /a/d/al", "cat /sd/in", "cat /b/q",
           "cat /a/*", "cat /*/*", "cat /ab", "grep key /a", "grep -n key /sd /b", "head /a/s", "tail /a/s", "wc /a/s", "wc /a/p", "grep key /a/s", "grep key /a/p", "grep -r key /", "rg key /", "rg key /a", "rg key /a/s", "search key", "search key /a", "search key /sd",
           "cat < /a/s", "cat < /a/p", "stat /a/s", "stat /a/p", "stat /sd", "ls '/@search?q=key'", "tree '/@search?q=key'", "find '/@search?q=key/'", "cat '/@search?q=key/a/s'", "cat '/@search?q=key/a/p'", "cat < '/@search?q=key/a/s'",
           "ls '/@search?q=key/a'", "rg key '/@search?q=key'", "cat /a/p /a/s", "echo /a/*", "cat < /sd/in", "grep -r key /b", "ls", "cat ab", "find", "cd /sd", "cd /a"]
    return [S(x, h) for x in out]


model("C07", "views", _vset + [SHELL(h, v) for h, v in _views] + [SV()], sum((vreads(h) for h, _ in _views), []) +
      [CD("/a"), CD("/sd")], 1, 1)
model("C07", "views and change", _vset + [SHELL(h, v) for h, v in _views[:3]] + [SV(), IDX()], sum(([S(x, h) for x in
      ["ls /a", "cat /a/s", "cat /a/p", "rg key /", "search key", "cat '/@search?q=key/a/s'", "ls '/@search?q=key'", "cat < /a/s", "find /", "tree"]] for h, _ in _views[:3]), []) +
      [POL("/a/s"), POL("/a/p", cls="secret"), M("/a/s", "/b"), W("/a/s", "key new\n"), CD("/a"), CD("/sd"), C("/a/s", "/a/k"), MD("/a/s", "team", "red"), POL("/a", cls="secret"),
       Q("ls", "/a", view=view(cls=["public"])), Q("tree", "/", view=view(pfx=[["a"]])), Q("glob", "", pat="/*/*", view=view(prn=["alice"])), SEARCH("key", v=view(cls=["public"]))], 2, 3)
_left = ["cd '/@search?q=key'", "cd '/@search?q=key/a'", "cd '/@search?q=nothing'", "cd /", "cat /@search/a/s", "cat /@search/a/p", "cat s", "cat a/s", "ls", "ls /@search", "ls /@search/a", "tree /@search", "find /@search", "rg key /@search", "grep key /@search/a", "search key /@search", "cat < /@search/a/s", "stat /@search/a/s",
         "cat /@search/b/q", "cat /@search/a/d/al", "cat /@search/a/d/bo", "cat /@search/*/*", "cat '/@search?q=key/a/p'"]
model("C07", "results another shell left open", _vset + [SHELL(h, v) for h, v in _views if h in ("h0", "h2", "h3", "h6")] + [SV()], [S(x, "h6") for x in _left] + [S(x, h) for h in ("h0", "h2", "h3") for x in _left] + [POL("/a/s"), POL("/a/p", cls="secret")], 2, 2)
_odd = [("h0", view(cls=[])), ("h1", view(prn=[])), ("h2", view(pfx=[])), ("h3", view(md=[["team", "red"], ["kind", "x"]])), ("h4", view(md=[["team", "~none"]])), ("h5", view(md=[])), ("h6", view(pfx=[[]], prn=["bob", "carol"]))]
_oddset = _vset + [W("/b/r", "key r\n"), MD("/b/r", "team", "red"), MD("/b/r", "kind", "x"), W("/b/s", "key s\n"), MD("/b/s", "kind", "x"), POL("/a/d/bo", cls="secret", pr=["alice", "bob"])]
model("C07", "odd views", _oddset + [SHELL(h, v) for h, v in _odd] + [SV()], [S(x, h) for h, _ in _odd for x in ["ls /b", "ls /", "tree /", "cat /b/r", "cat /b/q", "cat /b/s", "cat /ab", "cat /a/d/bo", "cat /a/d/al", "rg key /",
      "search key /b", "find /", "cat < /b/q", "stat /b/s", "cat '/@search?q=key/b/r'", "ls '/@search?q=key/b'", "cd /b", "cat /b/*"]] + [CD("/b")], 1, 2)
model("C08", "odd views", _oddset + [SHELL(h, v) for h, v in _odd], [S(x, h) for h, _ in _odd for x in ["echo z > /b/r", "write /b/q z", "append /b/s z", "rm /ab", "rm -r /b", "mv /b/q /b/z", "cp /b/s /b/z", "mkdir /b/n", "touch /a/d/bo",
      "rm /a/d/al", "mv /a/d/bo /b", "echo z > /b/new"]], 1, 2)
_vch = sum(([f"write {p} z", f"append {p} z", f"echo z > {p}", f"echo z >> {p}", f"touch {p}", f"rm {p}", f"rm -r {p}", f"cp -r {p} /a/k", f"mv {p} /a/k", f"cp -r /a/p {p}", f"mv /a/p {p}", f"mkdir {p}/x"]
            for p in ["/a/s", "/a/d/al", "/sd", "/sd/in", "/b/q", "/ab", "/a/p"]), []) + \
       ["touch /a/p /a/s", "touch /a/new /sd/new", "rm /a/p /a/s", "rm -r /b /sd /a/d", "mkdir /a/n /sd/n", "mkdir -p /a/n/m /b/n /sd/n/m", "mkdir /a/n", "mkdir /b/n", "mkdir -p /sd/x/y", "cp -r /a /b/k", "mv /a /b", "cp -r /a /a/d/k", "mv /a/d /b", "rm -r /a", "rm -r /", "cp -r / /a/z", "cp -r /a/d /a/e", "mv /a/d /a/e", "cp -r /b /a", "mv /b /a"]
model("C08", "views", _vset + [SHELL(h, v) for h, v in _views], [S(x, h) for h, _ in _views[:5] for x in _vch] + [CD("/a"), CD("/sd")], 1, 1)
_pv = [("h0", view(pfx=[["q", "r", "s"]])), ("h1", view(pfx=[["q", "r", "s", "t"], ["z"]])), ("h2", view(pfx=[["q", "r", "s", "t", "k"]], cls=["public"]))]
model("C08", "deep prefixes", [D("/q/r/s/t"), W("/q/r/s/t/k", "k"), W("/q/r/s/o", "o"), W("/q/r/hid", "h"), D("/z"), W("/z/y", "y")] + [SHELL(h, v) for h, v in _pv], [S(x, h) for h, _ in _pv for x in sum(([f"mv {p} /z", f"cp -r {p} /z", f"rm -r {p}", f"mv {p} /q/r/s/n", f"cp -r {p} /q/r/s/n"]
      for p in ("/q", "/q/r", "/q/r/s", "/q/r/s/t", "/q/r/s/t/k", "/q/r/hid", "/z")), [])] + [R("/q/r/hid"), R("/q/r/s/o"), M("/q/r/hid", "/q/r/s")], 1, 2)
model("C08", "views and change", _vset + [SHELL(h, v) for h, v in _views[:3]], [S(x, h) for h in ("h0", "h1", "h2") for x in
      ["echo z > /a/s", "write /a/p z", "rm -r /a/d", "rm /a/s", "cp -r /a /b/k", "mv /a /b", "cp -r /a/d /a/e", "mv /a/d /a/e", "cp /a/s /a/k", "mv /a/p /a/s", "mkdir /a/n", "touch /sd/x", "cd /a", "mv s k", "rm -r d"]] +
      [POL("/a/s"), POL("/a/p", cls="secret"), POL("/a/d", cls="secret"), POL("/a/d/al"), M("/a/s", "/a/d"), CD("/"), R("/a/s")], 2, 3)

# C09 ------------------------------------------------------------------------------------------------
model("C09", "versions", [W("/f", "1"), D("/a")], [W(p, "w", v) for p in ("/f", "/a/g") for v in (-1, 0, 1, 2, 3)] + [A(p, "x", v) for p in ("/f", "/a/g") for v in (-1, 0, 1, 2)] +
      [R("/f"), M("/f", "/a"), M("/a/g", "/f"), C("/f", "/a/g"), C("/a/g", "/f"), T("/f"), T("/a/g"), Q("read", "/f"), Q("version", "/f"), Q("version", "/a/g"), SNAP("z"), REST("z")], 3, 4)
model("C09", "versions in the shell and below mounts", [AD("s0", [["a", "1"]]), MNT("/m", "s0"), W("/f", "1"), SHELL(), W("/p", "0"), PROV("p0", "live"), MF("/v", "p0")], [
      W("/m/a", "w", v) for v in (-1, 0, 1, 2)] + [A("/m/a", "x", v) for v in (-1, 1)] + [W("/m/n", "w", v) for v in (0, 1)] + [W("/v", "w", v) for v in (-1, 0, 1)] + [A("/v", "x", 0), Q("read", "/v"), EXTW("s0", "a", "e"), SYNC("/m"),
      S("echo z > /f"), S("echo z >> /f"), S("write /f q"), S("append /f q"), S("touch /f"), S("cp /f /m/a"), S("mv /f /m/n"), S("cat /f > /f"), Q("version", "/m/a"), Q("version", "/f"), W("/f", "k", 1), W("/f", "k", 2), S("cat /f | wc"), S("rg z /"),
      POL("/f", w=False), R("/m/a")], 2, 3)

# C10 / C11 --------------------------------------------------------------------------------------------
_c10 = [AD("s0", [["a", "1"], ["d/b", "2\r\n"]]), AD("s1", [["x", "in"]]), AD("s2", [["a", "fs"], ["sub/y", "y\n"]], "fs"), MNT("/m", "s0"), MNT("/m/in", "s1"), MNT("/ma", "s2"), W("/f", "x"), D("/e")]
model("C10", "write-through", _c10, sum(([W(p, "1\n"), A(p, "2\r")] for p in ["/m/a", "/m/d/b", "/m/n", "/m/q/r", "/m/in/x", "/m/in/k", "/ma/a", "/ma/sub/y", "/ma/n/o", "/f"]), []) +
      [R("/m/a"), R("/m/d"), R("/m/in/x"), R("/m/in"), R("/m"), R("/ma/sub"), R("/ma/a"), R("/ma"), R("/f"), SYNC("/m"), SYNC("/m/in"), SYNC("/ma"), SYNC("/e"), EXTW("s0", "a", "e1"), EXTW("s0", "new/z", "e2"), EXTW("s1", "x", "e3"),
       EXTW("s2", "a", "e4"), EXTW("s2", "new", "e5"), EXTD("s0", "a"), EXTD("s2", "a"), EXTD("s1", "x"), D("/m/k"), W("/m/a", "v", 0), W("/m/a", "v", 1), MNT("/e", "s0"), MNT("/m2", "s1"), MNT("/m/d", "s1"), SNAP("z"), REST("z"), ARM("s0", "write"),
       ARM("s0", "delete")], 2, 3)
model("C10", "shell", _c10 + [SHELL()], [S(x) for x in ["echo z > /m/a", "echo z >> /m/a", "write /m/in/x q", "append /ma/a q", "rm -r /m/d", "rm /m/a", "rm -r /ma", "echo z > /m/new", "cd /m", "echo r > a", "cat /m/a > /ma/a", "mkdir /m/k", "rm -r /"]] +
      [SYNC("/m"), SYNC("/ma"), EXTW("s0", "a", "e1"), EXTW("s2", "a", "e4"), EXTD("s0", "d/b"), R("/m/in"), W("/m/d/b", "u")], 2, 3)
model("C11", "conflicts", [AD("s0", [["a", "1"], ["b", "2"]]), AD("s2", [["a", "fs"], ["b", "fb"]], "fs"), MNT("/m", "s0"), MNT("/n", "s2"), SHELL(), W("/m/a", "w1"), W("/m/a", "w2")], sum(([W(p, "w"), A(p, "x")] for p in ["/m/a", "/m/k", "/n/a", "/n/k"]), []) +
      [EXTW("s0", "a", "e"), EXTW("s0", "k", "e"), EXTW("s2", "a", "e"), EXTD("s0", "a"), EXTD("s2", "a"), SYNC("/m"), SYNC("/n"), R("/m/a"), R("/n/a"), S("echo z > /m/a"), S("echo z >> /n/a"), Q("read", "/m/a"), SNAP("z"), REST("z"), W("/m/a", "v", 1)], 3, 4)

model("C11", "changes to files on disk", [AD("s2", [["a", "fs"], ["b", "fb"], ["d/c", "fc"]], "fs"), MNT("/n", "s2"), SHELL(), W("/n/a", "w1"), W("/n/a", "w2"), A("/n/d/c", "+")],
      [EXTW("s2", "a", "e"), EXTW("s2", "a", "w2"), EXTW("s2", "d/c", "e2"), EXTW("s2", "b", "e3"), EXTD("s2", "a"), EXTD("s2", "d/c"), SYNC("/n"), W("/n/a", "v"), A("/n/a", "y"), W("/n/b", "z"), A("/n/d/c", "q"), R("/n/a"), R("/n/d"), M("/n/a", "/n/b"),
       S("echo z > /n/a"), S("cp /n/b /n/a"), C("/n/a", "/n/d/c"), MNT("/n2", "s2"), W("/n2/a", "2")], 3, 5)

# C13 ------------------------------------------------------------------------------------------------
model("C13", "snapshots taken while a mount's directory is gone", [D("/e"), AD("s0", [["a", "1"]]), MNT("/m", "s0"), R("/m"), SNAP("g"), D("/m"), SHELL()], [REST("g"), D("/m"), W("/m/a", "w"), SYNC("/m"), MNT("/e", "s0"), SNAP("g"), R("/m"), W("/e/a", "v")], 3, 5)
model("C13", "query results after a restore", [W("/f", "foo\n"), D("/a"), W("/a/b", "foo b"), SV(), SHELL(), SNAP("y")], [S(x, ro=False) for x in ["ls '/@search?q=foo'", "cat '/@search?q=foo/a/b'", "cd '/@search?q=foo'", "cat f", "cat /@search/f", "cd /", "ls /@search", "tree '/@search?q=b'"]] + [SNAP("z"), REST("y"), REST("z"), W("/f", "bar"), R("/a")], 3, 4)
model("C13", "mounts whose directory is gone", [D("/e"), AD("s0", [["a", "1"], ["d/b", "2"]]), MNT("/m", "s0"), W("/f", "f"), SHELL()], [SNAP("y"), SNAP("z"), REST("y"), REST("z"), R("/m"), D("/m"), W("/m/a", "w"), SYNC("/m"), M("/m", "/e"),
      MNT("/m", "s0"), EXTW("s0", "a", "e"), S("rm -r /m"), W("/m/new", "n"), R("/m/a")], 4, 5)
model("C13", "snapshots", [D("/a/d"), W("/a/b", "foo\n"), W("/a/d/c", "c", 0), D("/e"), POL("/a/d", w=False, cls="secret", pr=["bob"]), MD("/a/b", "team", "red"), AD("s0", [["a", "1"]]), MNT("/m", "s0"), HOOK("/a", "k1", "p"), IDX(), SHELL()], [
    SNAP("y"), SNAP("z"), REST("y"), REST("z"), W("/a/b", "new"), A("/a/b", "app"), W("/a/n", "n"), R("/a/b"), R("/e"), M("/a", "/e"), M("/a/b", "/e"), C("/a", "/k"), CD("/a"), CD("/e"), CD("/"), POL("/a/b", r=False, a=True), POKE("/a/d", "w", True),
    POKE("/a/b", "w", False), POKE("/", "w", False), {"k": "pokeprin", "p": "/a/d", "x": "alice"}, {"k": "pokeprin", "p": "/a/b", "x": "alice"}, MD("/a/b", "team", "blue"), MD("/e", "kind", "new"), W("/m/a", "st"), R("/m/a"), MNT("/e", "s0"), SYNC("/m"),
    EXTW("s0", "a", "ex"), SEARCH("foo"), SEARCH("new"), S("rg foo /"), D("/a"), T("/t")], 3, 3)
model("C13", "longer", [D("/a"), W("/a/b", "1"), POL("/a", w=False), MD("/a/b", "team", "red"), IDX()], [SNAP("y"), SNAP("z"), REST("y"), REST("z"), W("/a/b", "2"), W("/f", "3"), R("/f"), POKE("/a", "w", True), R("/a"), MD("/a/b", "team", "blue"), CD("/a"), M("/f", "/g"),
    SEARCH("2"), SEARCH("3"), {"k": "pokeprin", "p": "/a", "x": "bob"}], 4, 5)

model("C13", "where one stands", [D("/a/b/c"), W("/a/f", "1"), SV(), SHELL()], [SNAP("y"), REST("y"), CD("/a/b"), CD("/a/b/c"), CD("/"), POL("/a/b", r=False), POL("/a", r=False), R("/a/b"), R("/a"), M("/a/b", "/z"), D("/a/b"), W("g", "x"), Q("pwd", "")], 4, 5, 2)
model("C13", "mounts and snapshots", [D("/a"), W("/a/b", "1"), AD("s0", [["a", "1"]]), AD("s1", [["x", "2"]])], [SNAP("y"), REST("y"), MNT("/m", "s0"), MNT("/a", "s1"), W("/m/a", "w"), W("/m/n", "w"), W("/a/b", "w"), SYNC("/m"), SYNC("/a"), R("/m")], 4, 5, 2)

# C14 ------------------------------------------------------------------------------------------------
model("C14", "hooks", [D("/a/d"), W("/a/b", "1"), D("/ab"), W("/ab/x", "2"), HOOK("/", "k1", "w"), HOOK("/a", "k2", "p"), HOOK("/a", "k3", "w"), HOOK("/a/b", "k4", "p"), HOOK("/ab", "k5", "p"), HOOK("/a/d", "k6", "w"), HOOK("/a", "k3", "w"), HOOK("a/d/..", "k7", "p"), HOOK("/", "k2", "p"),
                       AD("s0", [["a", "1"]]), MNT("/a/m", "s0"), SHELL()], [
    W("/a/b", "n"), A("/a/b", "n"), W("/a/n", "n"), W("/a/d/x", "n"), A("/a/d/x", "m"), W("/ab/x", "n"), W("/f", "n"), W("/a/b", "n", 0), W("/a/b", "n", 1), W("/a/m/a", "n"), A("/a/m/z", "n"), R("/a/b"), R("/a"), R("/a/d"), R("/ab"), R("/a/m"), R("/"), D("/a/k"),
    Q("read", "/a/b"), SNAP("z"), REST("z"), SYNC("/a/m"), HOOK("/a/d", "k8", "p"), POL("/a/b", w=False), ARM("s0", "write"), ARM("s0", "delete"), EXTW("s0", "a", "e"), CD("/a"), W("d/x", "rel"), SEARCH("n"),
    S("echo z > /a/b"), S("echo z >> /a/b"), S("write /a/n q"), S("append /a/b q"), S("rm -r /a"), S("rm /a/b"), S("cat /a/b"), S("echo a > /a/b\necho b > /a/b")], 2, 3)

# C15 ------------------------------------------------------------------------------------------------
_qs = [SEARCH("foo"), SEARCH("foo", "/a"), SEARCH("FOO", ic=True), SEARCH("^fo+", regex=True), SEARCH("foo", "/a/b"), SEARCH("bar", "/e")]
_qsh = [S("grep -r foo /"), S("rg foo /"), S("search foo"), S("search foo /a"), S("rg foo /a"), S("grep -rn foo /a"), S("rg -i FOO /"), S("search -i FOO"), S("rg -e '^fo+' /"), S("search -e '^fo+' /a"), S("cat '/@search?q=foo/a/b'"), S("ls '/@search?q=foo'"),
        S("cat '/@search?q=foo&path=a/f'"), S("cat '/@search?q=FOO&ignore_case=1/a/b'")]
_sq = ["q=foo", "q=FOO", "q=FOO&ignore_case=1", "q=FOO&ignore_case=yes", "q=FOO&ignore_case=0", "q=%5Efo%2B&regex=1", "q=FO%2B&regex=true&ignore_case=on", "q=%28&regex=1", "q=", "q=foo&path=a", "q=foo&path=/a", "q=foo&path=%2Fa%2Fd", "q=foo&path=/a/b", "q=foo&path=zz", "regex=1&q=b.r", "path=a&q=foo", "q=foo+bar", "q=foo%20bar", "q=a%26b", "ignore_case=1&q=Foo", "q=foo&q=bar", ""]
_sform = [S(c % ("/@search?" + q + n), ro=False) for q in _sq for c, n in (("ls '%s'", ""), ("find '%s'", ""), ("cat '%s'", "/a/b"), ("cat '%s'", "/f"), ("cat < '%s'", "/a/b"), ("tree '%s'", "/a"), ("stat '%s'", "/f"), ("wc '%s'", "/f"), ("rg o '%s'", ""), ("cd '%s'", ""))]
_sapi = [SEARCH(q, p, regex=r, ic=i) for q in ("foo", "FOO", "b.r", "^fo+", "o$", "[fF]oo", "(", "fo+") for p in ("", "/a", "/a/b", "/f", "a", "/zz", "/@search") for r in (False, True) for i in (False, True)] + [SEARCH(q, regex=True) for q in ("(", "[", "*a", "a\\")]
for ix in (True, False):
    model("C15", "query forms " + ("with" if ix else "without") + " index", [D("/a/d"), W("/a/b", "foo bar\nFoo\nx foo"), W("/a/d/c", "a&b foo\n"), W("/f", "foo bar\nb.r\n"), W("/b", "fo+\nFOO ("), SV(), SHELL()] + ([IDX()] if ix else []),
          _sform + _sapi + [S(f"{c}{f} {q}{p}") for c in ("search", "rg", "grep -r") for f in ("", " -i", " -e", " -i -e", " -n") for q in ("FOO", "b.r", "'fo+'") for p in (" /", " /a", " /a /f", " a/..", " /zz")], 1, 1)
for ix in (True, False):
    model("C15", "front ends " + ("with" if ix else "without") + " index", TREE + [AD("s0", [["s", "foo s\n"]]), MNT("/m", "s0"), SV(), SHELL()] + ([IDX()] if ix else []), _qs + _qsh + [
        W("/a/b", "bar\nfoo x\n"), A("/a/b", "foo y"), W("/f", "FOO\r\nfoo\u2028foo"), R("/a/b"), R("/a"), M("/a", "/e"), M("/a/b", "/a/z"), C("/a", "/e"), W("/m/s", "none"), SYNC("/m"), EXTW("s0", "s2", "foo new"), SNAP("z"), REST("z"), POL("/a/b", r=False),
        IDX(), T("/a/b"), S("echo foo > /f"), S("mv /a/b /e"), S("rm -r /a")], 2, 3)
for ix in (True, False):
    model("C15", "blanks, places and protections " + ("with" if ix else "without") + " index", [D("/a/a"), W("/a/b", "foo  \n foo\t\nfoo"), W("/a/a/c", "\tfoo x "), D("/ud/in"), W("/ud/w", "foo w"), W("/ud/in/v", "foo v"), POL("/ud", r=False), W("/f", "foo f"), SV(), SHELL()] + ([IDX()] if ix else []),
          [SEARCH("foo"), SEARCH("foo", "/ud"), SEARCH("foo", "/ud/in"), SEARCH("foo ", regex=True), SEARCH("foo", "a"), CD("/a"), CD("/a/a"), CD("/ud"), CD("/"), POL("/ud/in", r=False), POKE("/ud", "r", True), POL("/ud/w", r=False), SNAP("z"), REST("z"), M("/ud/w", "/a"), M("/ud", "/a"), C("/f", "/ud")] +
          [S(x) for x in ["ls '/@search?q=foo&path=a'", "ls '/@search?q=foo&path=/a'", "find '/@search?q=foo&path=a/a'", "cat '/@search?q=foo&path=a/a/c'", "rg foo", "rg foo .", "search foo", "search foo /", "search foo /ud", "grep -r foo /ud", "cat '/@search?q=foo/ud/w'", "cat '/@search?q=foo/a/b'", "tree '/@search?q=foo'"]], 2, 3)
model("C15", "index maintenance", [D("/a"), W("/a/b", "foo\n"), W("/f", "foo bar"), IDX(), AD("s0", [["s", "foo s"]]), MNT("/m", "s0")], [
    SEARCH("foo"), SEARCH("foo", "/a"), SEARCH("o", "/f"), W("/a/b", "bar"), A("/f", "foo"), R("/a/b"), R("/a"), M("/a", "/g"), M("/f", "/a"), M("/a/b", "/f"), C("/a", "/g"), C("/f", "/a"), C("/f", "/a/b"), SYNC("/m"), EXTW("s0", "s", "none"), W("/m/t", "foo t"),
    SNAP("z"), REST("z"), R("/m"), R("/g")], 3, 4)

model("C15", "index across restore", [D("/a"), SNAP("y"), W("/a/b", "foo\n"), W("/x", "foo"), IDX(), SNAP("z")], [SEARCH("foo"), REST("y"), REST("z"), T("/x"), T("/a/b"), W("/x", "foo n"), R("/x"), M("/x", "/y"), T("/y")], 4, 5, 9)
model("C15", "letters that change when folded", [W("/s", "Stra\u00dfe\nSTRASSE\nfu\u00dfball \ufb01x\nFIX"), SHELL()], [SEARCH(q, ic=i) for q in ("strasse", "stra\u00dfe", "SS", "fix", "\ufb01x", "STRASSE") for i in (True, False)] +
      [S(f"rg -i {q} /") for q in ("strasse", "stra\u00dfe", "fix")] + [IDX()], 2, 2)
model("C15", "places emptied and filled again", [D("/a"), W("/a/b", "foo\n"), IDX()], [SEARCH("foo"), M("/a", "/g"), M("/g", "/a"), D("/a"), T("/a/b"), C("/g", "/a"), R("/a"), W("/a/b", "bar")], 4, 5, 9)

# C16 / C17 / C18 ---------------------------------------------------------------------------------------
_bad = ["nosuch", "boom", "half", "neg", "loud", "ls -R /", "ls -la", "cat /nope", "echo x > /f/y", "cat < /nope", "echo x > /zz/", "ls [", "head -n x /f", "rm /nope", "| cat", "echo a |", "echo 'open", "cd /nope", "mkdir /a", "cat /a", "write /a z", "cp /nope /k", "find -name", "printf", "> /r", "< /f", "V=1 > /r", "V=1 < /f", "'' a", "rm -r /", "quiet"]
model("C16", "failures", TREE + [SHELL(), SHELL("h1", fb=True)], [S(x, ro=False) for b in _bad for x in [b, b + " | write /never", "echo a | " + b, b + "\necho n > /never", "echo ok > /ok\n" + b + "\necho n > /never", b + " > /r", "echo a | cat | " + b + " | cat > /never",
      "V=1 " + b, b + " < /f"]] + [S("nosuch", "h1", False), S("nosuch | write /never", "h1", False), S("echo x | nosuch > /never", "h1", False), S("", ro=False), S("  \n ", ro=False), S("# c", ro=False), CD("/a"), R("/a"), S("cat < /", ro=False), S("V=1", ro=False), S("$V", ro=False), S("echo $V")], 1, 1)
model("C16", "providers that fail", [PROV("p0", "x", True), PROV("p1", "fine foo"), MF("/bad", "p0"), MF("/good", "p1"), D("/d"), MF("/d/bad", "p0"), W("/f", "foo"), SV(), SHELL()], [S(x, ro=False) for x in ["cat < /bad", "cat < /good", "cat /bad", "wc < /bad | cat", "echo x > /o\ncat < /bad\necho y > /never", "cat < '/@search?q=foo/bad'", "cat < '/@search?q=%28&regex=1/f'", "cat '/@search?q=%28&regex=1/f'", "ls '/@search?q=%2Bx&regex=1'", "cat /f | wc < '/@search?q=%28&regex=1/f'", "cat /f < /bad",
      "cat /good | wc < /bad", "cat < /bad > /o", "echo z >> /bad", "echo z > /bad", "cp /bad /k", "cp -r /d /k", "mv /bad /k", "rg foo /", "grep foo /bad", "head /bad", "tail -n 1 /bad", "wc /bad", "stat /bad", "ls -l /bad", "touch /bad", "append /bad z", "write /bad z", "cat /* > /o", "V=1 cat < /bad", "search foo", "ls '/@search?q=foo'"]] +
      [PROV("p0", "now fine foo"), PROV("p0", "x", True)], 2, 3)
model("C16", "failures after changes", TREE + [SHELL(), POL("/f", w=False), SV()], [S(x, ro=False) for x in ["nosuch", "boom", "echo x > /f", "echo x > /f\necho y > /never", "cat /a/b | boom | write /never", "cat /a/* > /o", "rm -r /a", "cat /a/* | wc", "cd /a", "cd ..", "V=/a", "cat $V/b", "ls $V", "half > /o",
      "half | cat", "cat '/@search?q=foo/a/b'", "cat < '/@search?q=/a/b'", "echo > '/@search?q=foo/x'", "cd '/@search?q=foo'", "rm -r '/@search'", "ls", "cat b\ncat nope\nrm b", "mv /a /e\ncat /e/a/b\nboom\nrm -r /e", "write /o x\ncat /o\ncat /oo\nwrite /p y"]] + [CD("/a"), R("/a"), POL("/a", r=False)], 2, 3)
_lines = ["echo foo", "cat /a/b", "cat /a/b | wc", "cat /a/b | head -n 1", "ls /", "pwd", "write /k z", "rm /f", "echo \u00e9\u00e9", "cat /u", "cat /u | wc", "cat /u > /k", "echo foo > /k", "nosuch", "$C /f", "C=rm $C /f", "C=cat $C /a/b", "${C}", "'rm' /f", "echo a | rm /f", "rm /f | cat", "\"cat\" /f",
          "say 12345678", "warn 1", "warn 12", "warn 1 | warn 2", "warn x | cat", "warn x > /k", "loud", "loud | cat", "neg", "ls -R", "say 123456789 > /k", "say 123456789 | wc", "keep < /u", "tree /", "find /", "rg foo /", "search foo", "grep foo /a/b", "cd /a", "python 1", "bash -c 'x'", "sh -c 'x'", "host ls", "help", "boom", "half", "V=1", "cat < /a/b", "printf '12345678'", "printf '123456789' | cat", "echo -n 1234567\u00e9",
          "echo -n 123456\u00e9", "head -c 8 /u", "tail -c 9 /u", "cat /a/b /u | head -n 1", "rm /f\necho a", "echo a\nrm /f", "mkdir /x", "cp /f /k", "mv /f /k", "touch /k", "append /f z", "stat /f", "wc /f"]
_shells = [SHELL("h0", allow=["cat", "echo", "wc"]), SHELL("h1", allow=[]), SHELL("h2", lim=8), SHELL("h3", allow=["cat", "echo", "rm"], lim=9, env=[["C", "rm"]]), SHELL("h4", allow=["ls"], fb=True, env=[["C", "rm"]]), SHELL("h5", lim=0), SHELL("h6", allow=[], fb=True), SHELL("h7", fb=True, lim=20)]
model("C17", "guards", TREE + [W("/u", "\u00e9\u00e9\u00e9\u00e9\u00e9")] + _shells, [S(x, s["id"], False) for s in _shells for x in _lines] + [S(x, h, False) for h in ("h0", "h1", "h3", "h4", "h6") for x in ["/bin/ls", "/bin/cat /f", "./ls", "LS", "Cat /f", "ls.", "cat/ /f", "/ls", "RM /f", "l"]], 1, 1)
model("C17", "guards after changes", TREE + [W("/u", "1234567")] + _shells, [S(x, s, False) for s in ("h0", "h2", "h3", "h4") for x in ["cat /u", "cat /u | wc", "rm /f", "echo zz", "$C /f", "C=rm", "C=cat", "$C /u", "echo x | $C /f", "cat /u > /k", "nosuch"]] + [A("/u", "8"), A("/u", "9"), W("/u", "\u20ac\u20ac\u20ac"), CD("/a")], 2, 3)
_src = ["echo foo bar", "echo -n foo", "printf 'l1\\nl2\\nl3\\n'", "printf '%s-%s\\n' a b", "cat /t", "cat /t /f", "head -n 2 /t", "tail -n 2 /t", "tail -c 4 /t", "head -c 5 /t", "wc /t", "wc -l /t /f", "grep o /t", "grep -n o /t", "echo", "echo $V ${N}x $Z", "V=q echo $V", "cat /crlf", "cat /u", "cat < /t", "say a b",
        "grep -i FOO /t", "grep -e '^t' /t", "echo \"a  b\"  'c d'", "echo a\\ b", "ls /a", "pwd", "printf 'a\\tb'", "printf '100%%'"]
_flt = ["cat", "head -n 1", "tail -n 1", "head -n 0", "tail -n 0", "wc", "wc -l", "wc -c", "grep o", "grep -n o", "cat - /f", "keep", "head -c 3", "tail -c 3", "cat > /o", "cat >> /f", "wc -l > /o", "V=2 say $V", "write /w x", "tail -n 2 | head -n 1", "cat | cat > /o | cat", "grep -i O", "cat < /f", "head -n 50"]
_c18 = [D("/a"), W("/a/b", "1"), W("/f", "x\ny"), W("/t", "foo\ntwo\n\nFOO o\nlast"), W("/crlf", "a\r\nb\u2028c\x0bd\r\n"), W("/u", "h\u00e9llo\n\u6f22\u5b57\n"), SHELL("h0", env=[["V", "val"], ["N", "n"]])]
model("C18", "pipelines", _c18, [S(x, ro=False) for x in _src] + [S(a + " | " + b, ro=False) for a in _src for b in _flt] + [S(a + r, ro=False) for a in _src for r in (" > /o", " >> /f", " > /a/b")], 1, 1)
model("C18", "redirections and variables", _c18, [S(x, ro=False) for x in ["echo a > /o", "echo b >> /o", "cat /o", "cat < /o", "cat /o > /o", "cat /o >> /o", "V=/o", "cat $V", "echo n > $V", "V=z echo $V", "V=/t", "echo $V", "N=${V}b", "echo $N", "wc /o", "cat /o | tail -n 1 >> /o", "head -n 1 < /o", "V=1 N=$V", "echo -n x > /o", "echo $V > /o",
      "V=b cat /o | cat", "cat /o | wc > /o2", "write $V hi", "cat < $V", "say a > /o", "append /o zz"]] + [W("/o", "w1\nw2"), R("/o")], 3, 3)
model("C18", "names in order", [W("/B", "B;"), W("/a", "a;"), W("/C", "C;"), W("/_", "_;"), W("/b1", "1;"), W("/b10", "10;"), W("/b2", "2;"), W("/\u00e9", "e;"), D("/D"), W("/D/z", "z;"), W("/D/Z", "Z;"), SHELL()], [S(x) for x in
      ["cat /b*", "cat /?", "echo /*", "echo *", "echo [a-z]*", "echo [A-Z]*", "cat D/*", "echo D/* *", "ls", "ls /D", "tree", "find", "cat /[aB]", "wc /b?", "echo B* b* b*", "cd /D"]] + [W("/A", "A;"), R("/B"), T("/b3"), M("/a", "/E")], 2, 3)
model("C18", "assignments", _c18 + [SHELL("h0", env=[["V", "/t"], ["E", ""]])], [S(x, ro=False) for x in ["V=$V/x", "B=$A A=1", "A=1 B=$A", "A=2", "A=", "A=''", "V=$V$V A=$V", "echo $A-$B-$V-$E", "V= echo [$V]", "V='' cat $V", "V=$A echo $V", "A=$V B=$A echo $A$B", "V=${V}/y",
      "echo ${A}x${B}", "A=1 | cat", "A=1 echo a | echo $A", "E=q echo $E | cat", "A=b=c", "echo a=b c=d", "A=1 echo x > /o$A", "A=3 cat < $A", "V=/f cat < $V", "A==", "A=\nB=$A", "A='x y' B=\"$A z\"", "echo $V > $V", "_x1=q", "echo $_x1", "1a=q", "echo $1a ${1a}", "A=$ echo $", "echo $$ ${} $-"]], 2, 3)
model("C18", "several redirections", _c18, [S("echo z" + "".join(" " + a + " " + t for a, t in zip(c, ("/f", "/o", "/a/b"))), ro=False) for n in (1, 2, 3) for c in itertools.product((">", ">>", "<"), repeat=n)] + [S("cat" + "".join(" " + a + " " + t for a, t in zip(c, ("/f", "/t", "/o"))) + " | wc", ro=False) for n in (1, 2, 3) for c in itertools.product((">", ">>", "<"), repeat=n)], 1, 2)

# every command with every way to give its options and operands
_forms = (["head -c $N /t", "tail -n $N /t", "wc -c $V", "head -c${N} $V", "cat /t | head -c $N", "grep -c $N", "pwd", "pwd x", "cd", "cd /a", "cd /a /e", "cd a/d", "cd '/@search?q=foo'", "cd '/@search?q=foo/a'"]
    + ["ls" + f + t for f in ("", " -l", " --long", " -z", " -l --long") for t in ("", " /a", " /a /e", " /f", " /f /a /zz", " '/@search?q=foo' /a", " a/d a/b")]
    + ["cat" + t for t in ("", " -", " /f", " /f -", " - /f -", " /f /a/b /f", " -x", " /a", " '/@search?q=foo/a/b' /f")]
    + ["append", "append /f", "append /f x y", "append /n 'a b' c", "append /a x", "append '/@search?q=foo/x' y", "touch", "touch /f", "touch /n /n2", "touch /n /a /n2", "touch '/@search?q=foo'"]
    + ["mkdir", "mkdir -p", "mkdir /n", "mkdir /a", "mkdir -p /a", "mkdir --parents /n/o /n/o/p", "mkdir /n/o", "mkdir /n /n/o", "mkdir /n -p /m/o", "mkdir '/@search?q=x'", "mkdir -x"]
    + ["rm", "rm -r", "rm /f", "rm /a", "rm /e", "rm '/@search?q=foo'"] + ["rm %s /a" % f for f in ("-r", "-rf", "-R", "--recursive", "-f")] + ["rm /a -r", "rm /f /a/b", "rm -r /a /e /f"]
    + ["cp", "cp /f", "cp /f /n", "cp /f /e", "cp /f /a/b", "cp /a /n", "cp /f /a/b /n", "cp '/@search?q=foo/f' /n", "cp /f '/@search?q=foo/n'"] + ["cp %s /a /n" % f for f in ("-r", "-R", "--recursive", "-a")] + ["cp /a -r /n", "cp /a /n -r"]
    + ["mv", "mv /f", "mv /f /n", "mv /f /e", "mv /a /n", "mv /f /e /n", "mv '/@search?q=foo/f' /n", "mv /f '/@search?q=foo/n'"]
    + ["tree", "tree /", "tree /a", "tree /a /e", "tree /f", "tree '/@search?q=foo'"]
    + ["write", "write /n", "write /n a b", "write /f --append x", "write /f x --append y", "write /f --text", "write /f --text 'a b' --text c d", "write /f --append --text x", "write --append /f", "write /a x", "write '/@search?q=foo/n' x", "write --text x"]
    + ["echo", "echo -n", "echo -n a  b", "echo a -n", "echo '' a", "printf", "printf a", "printf '%s'", "printf '%s %s' a", "printf '%s' a b", "printf '%d' a", "printf '%s%%' a", "printf 'a\\\\nb'", "printf '\\r\\t|'", "printf 'a\\qb' c"]
    + ["wc" + f + t for f in ("", " -l", " -c", " -l -c", " -c -l") for t in ("", " /t", " /t /f", " -", " /t -", " /zz", " /a", " /t -l", " '/@search?q=foo/t'")]
    + [g + f + t for g in ("grep", "rg") for f in ("", " -i", " --ignore-case", " -n", " --line-number", " -e", " --regex", " -r", " -R", " --recursive", " -i -n", " -n -e -i", " -i --regex") for t in (" FOO /t", " foo /t /a/b", " fo+ /a", "")]
    + ["grep -r foo / -n", "grep foo /t -i", "grep foo", "grep foo -", "grep foo - /t", "grep foo /zz", "grep -r foo /a /t", "rg foo /a /t", "rg foo", "grep -v foo /t", "grep '' /t", "grep 'a.c' /t", "grep -e 'a.c' /t", "grep -e '[' /t", "rg foo '/@search?q=foo'"]
    + ["search" + f + t for f in ("", " -i", " --ignore-case", " -n", " --line-number", " --no-line-number", " -e", " --regex", " -i -e", " --no-line-number -n", " -n --no-line-number") for t in (" FOO", " fo+ /a", " foo /a /t", "")]
    + ["search foo /zz", "search foo /t", "search -r foo", "search foo a --no-line-number", "search -e '[' /"]
    + ["stat", "stat /f", "stat /a", "stat /u", "stat /zz", "stat /f /a", "stat '/@search?q=foo/t'"]
    + [h + f + t for h in ("head", "tail") for f in ("", " -n 2", " -c 3", " -n 0", " -c 0", " -n 9", " -n 2 -c 3", " -c 3 -n 2", " -n x", " -c", " -n", " -c 1x") for t in ("", " /t", " /t /f", " -", " /f - /t", " /zz", " /a", " '/@search?q=foo/t'")] + ["head /t -n 1", "tail /t -c 2", "head -3 /t"]
    + ["find" + f for f in ("", " /", " /a", " /a /e", " /f", " /zz", " /a /zz", " -type f", " -type d", " /a -type f -name b", " /a -name 'b*' -type d", " -name", " / -type", " / -type q", " -bad", " / -name '[ab]'", " / -name '?'", " a -name b", " a", " / -name ''", " '/@search?q=foo'", " '/@search?q=foo/a' -type f", " / -name 'B'", " / -type f -type d")]
    + ["help", "help x", "python", "python3", "host", "host -p", "host --path /", "host -C / --", "host --", "say", "quiet", "keep", "star", "star a b", "warn"])
_formset = [D("/a/d"), W("/a/b", "foo b\n"), D("/e"), W("/f", "x\ny"), W("/t", "foo\nabc\nFOO a.c\n1"), W("/u", "h\u00e9\n\u6f22"), SV(), SHELL("h0", env=[["N", "1"], ["V", "/t"]])]
for _p in ("C16", "C18"):
    model(_p, "command forms", _formset, [S(x, ro=False) for x in dict.fromkeys(_forms + ["cat /t | " + x for x in _forms if x.split()[0] in ("star", "cat", "wc", "grep", "rg", "head", "tail", "keep", "write", "say")])] + [CD("/a")], 1, 1)

# C20 / C21 ---------------------------------------------------------------------------------------------
model("C20", "export", TREE + [W("/a/\u00e9 x", "h\u00e9\r\n\u2028z\r"), D("/a/em"), MD("/a/em", "team", "red"), PROV("p0", "live"), MF("/pv", "p0"), POL("/f", r=False), POL("/a/d", r=False)], [EXPORT(p, h) for p in ["/", "/a", "/a/d", "/e", "/f", "/zz", "/a/b", "."] for h in ("export", "materialize", "materialize-error")] + [EXPORT(p, h) for p in ["", "/a"] for h in ("export-deep", "export-over")] + [EXPORT("/", "export-over"), W("/a/b", ""), T("/e/t")] + [EXPORT("", "materialize")] +
      [W("/a/b", "x\r\ny"), A("/f", "\r"), D("/e/k"), R("/a/d"), M("/a", "/e"), C("/a", "/g"), PROV("p0", "n", True), PROV("p0", "new\n"), CD("/a"), W("/a/etc", "q"), W("/..x", "q"), POL("/e", w=False), D("/tmp/x")], 2, 3)
model("C21", "answers that come and go", [PROV("p0", "live"), MF("/v", "p0"), W("/f", "f"), SHELL(), Q("read", "/v"), S("cat /v"), S("wc /v")], [PROV("p0", ""), PROV("p0", "two\n"), PROV("p0", "x", True), Q("read", "/v"), S("cat /v"), S("wc /v"), A("/v", "+"), A("/v", ""), C("/v", "/k"), Q("read", "/k"), T("/v"), SNAP("z"), EXPORT("/")], 3, 4)
model("C21", "provided files", [PROV("p0", "live"), PROV("p1", "foo\nx"), D("/a"), MF("/v", "p0", [["team", "red"]]), MF("/a/w", "p1"), W("/f", "f"), AD("s0", [["a", "1"]]), MNT("/m", "s0"), HOOK("/", "k1", "w"), SHELL()], [
    PROV("p0", "two"), PROV("p0", ""), PROV("p0", "x", True), PROV("p1", "3rd"), Q("read", "/v"), Q("read", "/a/w"), W("/v", "w"), A("/v", "x"), A("/a/w", "y"), W("/v", "w", 0), A("/v", "x", 1), M("/v", "/a"), M("/a", "/b"), C("/v", "/k"), C("/a", "/k"), R("/v"), Q("read", "/a/v"), Q("read", "/b/w"),
    Q("read", "/k"), MD("/v", "kind", "k"), MF("/v", "p1"), MF("/f", "p0"), MF("/n/o", "p0"), MF("/a", "p0"), S("cat /v"), S("cp /v /f"), S("wc /a/w"), S("cat /v > /v"), S("echo z >> /v"), SNAP("z"), REST("z"), POL("/v", w=False), POL("/v", r=False), A("/k", "q"), T("/v"), M("/v", "/m"),
    EXPORT("/")], 2, 3)

# every sequence, recorded: nodes that come from a directory provider (which entries are loaded when is the implementation's choice)
def DPROV(i, nodes, bad=False):
    return {"k": "dprovset", "p": "", "id": i, "bad": bad, "nodes": nodes}


def MDIR(p, i, md=()):
    return {"k": "mountdir", "p": p, "id": i, "md": [list(x) for x in md]}


def PN(path, kind="f", text="", lz="", **kw):
    return {"p": path, "n": node(kind, text, p=pol(**kw), lz=lz)}


_l0 = [PN(["a"], "f", "foo\nA"), PN(["sub"], "d", w=False), PN(["sub", "in"], "f", "deep foo", r=False), PN(["s"], "f", "sec", cls="secret")]
_lz = [DPROV("l0", _l0), DPROV("l1", [PN(["in"], "d", lz="l0")]), MDIR("/lz", "l0", [["team", "red"]]), MDIR("/o/l2", "l1"), SHELL(), W("/f", "x")]
_both = [DPROV("l0", _l0), DPROV("l2", [PN(["b"], "d", lz="l0", cls="secret"), PN(["b", "a"], "f", "given"), PN(["b", "own"], "d"), PN(["b", "own", "x"], "f", "x"), PN(["f"], "f", "ff")]), MDIR("/lz", "l2"), SHELL()]
sequences("C21", "given children and a provider", _both, [DPROV("l0", _l0, True), DPROV("l0", [PN(["own"], "f", "new"), PN(["z"], "f", "z")]), Q("read", "/lz/b/a"), Q("ls", "/lz/b"), Q("read", "/lz/b/own/x"), W("/lz/b/s", "w"), R("/lz/b/a"), C("/lz/b", "/cp"), M("/lz/b", "/mv"),
    Q("read", "/lz/b/sub/in"), Q("walk", "/lz"), R("/lz/b"), S("cat /lz/b/*")], 2, 3)
sequences("C21", "provided directories", _lz, [DPROV("l0", _l0, True), DPROV("l0", [PN(["n"], "f", "new")]), Q("read", "/lz/a"), Q("ls", "/lz"), W("/lz/a", "w"), W("/lz/k", "k"), Q("exists", "/lz/sub/in"), R("/lz/a"), R("/lz"), M("/lz", "/mv"), C("/lz", "/cp"),
    Q("walk"), MDIR("/lz", "l0"), S("cat /lz/a"), Q("read", "/o/l2/in/a"), SNAP("z")], 3, 4)
sequences("C04", "failing providers", _lz, [DPROV("l0", _l0, True), DPROV("l0", _l0), W("/lz/a", "w"), A("/lz/k", "k"), M("/f", "/lz"), M("/lz/a", "/f2"), C("/lz", "/cp"), C("/f", "/lz"), R("/lz"), D("/lz/q"), T("/lz/t"), CD("/lz")], 3, 4)


# C19 / C22 ---------------------------------------------------------------------------------------------
def H(edits=(), args=(), dir="", via="host", code=0, cmd="tool", stdin="", ident="h0", say="said", real=False, asg=(), flag="-p"):
    return {"asg": [list(x) for x in asg], "flag": flag, "k": "host", "p": "", "id": ident, "via": via, "cmd": {"bash": "bash", "ls": "ls"}.get(via, cmd), "dir": dir, "args": list(args), "edits": [list(e) for e in edits],
            "code": code, "say": say, "stdin": stdin, "real": real}


_c19 = [D("/a/d"), W("/a/b", "foo\r\nbar\r"), W("/a/d/c", "\u00e9\u2028"), D("/e"), W("/f", ""), W("/a/ro", "keep"), POL("/a/ro", w=False), MD("/a/b", "team", "red"), POL("/a/d", cls="secret"), HOOK("/", "k1", "w"), HOOK("/a", "k2", "p"),
        AD("s0", [["s", "1"]]), MNT("/m", "s0"), SHELL("h0", fb=True), SHELL("h1", fb=True, env=[["V", "v1"], ["N", "n1"]])]
_ed = [[("put", "/a/b", "foo\r\nbar\r")], [("put", "/a/b", "new")], [("put", "/a/n", "n")], [("put", "/a/b", "foo\nbar\r")], [("del", "/a/b", "")], [("del", "/a/d", "")], [("del", "/e", "")], [("dir", "/n/k", "")], [("put", "/n/k", "")], [("put", "/f", "\r\n")],
       [("del", "/f", ""), ("dir", "/f", "")], [("put", "/f/in", "x")], [("put", "/e", "was a directory")], [("put", "/a/d", "was a directory")], [("mv", "/a/d", "/e/d")], [("mv", "/f", "/g")], [("put", "/a/ro", "changed")], [("del", "/a/ro", "")], [("del", "/a", "")],
       [("put", "/a/ro", "changed"), ("put", "/f", "z")], [("put", "/m/s", "2")], [("del", "/m/s", "")], [("put", "/m/t/u", "3")], [("del", "/m", "")], [("put", "/f", "a"), ("put", "/f", "")], [("del", "/f", ""), ("put", "/f", "")], [("put", "/f", "a"), ("del", "/a/b", ""), ("dir", "/q/r", "")],
       [("put", "/a/d/c", "\u00e9\n")], [("put", "/.env", "k=v")], [("put", "/a/.git/x", "h"), ("dir", "/.d", "")], [("del", "/m", ""), ("del", "/e", ""), ("del", "/f", ""), ("del", "/a/d", ""), ("del", "/a/b", "")]]
model("C19", "edits", _c19, [H(e) for e in _ed] + [H(e, dir="/a", via="host--", code=7) for e in _ed[:12]] + [H(e, via="bash") for e in _ed[1:6]] + [CD("/a/d"), CD("/e"), W("/f", "x"), POL("/a/ro"), POL("/a", w=False), POL("/e", a=True), R("/a/d"), M("/a", "/z"), EXTW("s0", "s", "ext"), ARM("s0", "write"), ARM("s0", "delete")], 2, 3)
_args = ["/", "/a", "/a/", "/a/b", "/a/new", "/new", "/zz/y", "a/b", "x/a/b", "./a", "..", "/a/../f", "/f/x", "-I/a", "--out=/a/b", "-o/zz", "http://a/b", "http:///a", "//a/b", "cat /a/b /f", "/a/b,/f", "'/a/b'", "s/a/b/", "/a/d/c:/f", "/usr/bin/env", "/e", "/e/k/l", "-v", "", "/\u00e9", "/a/\u00e9", "\u00e9/a", "-/a", "a-/a",
         "/a b", "/a.b", "_/a", "@/a", "/a/b/", "/./a", "/...", "x:/a", "x://a", "://a"]
model("C19", "arguments", _c19 + [W("/\u00e9", "1"), W("/a b", "2"), W("/b", "3")], [H(args=[x]) for x in _args] + [H(args=[x], via="fb", cmd="/a/b" if x == "/" else "run") for x in _args[:0]] + [H(args=["/a/b", "/f", "-"], dir=d) for d in ["", "/", "/a", "a/d", "/a/d/", "..", "./e", "/zz", "/f", "/a/../e"]] +
      [H(args=["-q"], via=v, stdin=i, asg=a, ident=n) for v in ("host", "host--", "bash", "fb", "ls") for i in ("", "given", "a  b \u00e9") for a in ((), (("V", "one"),), (("V", "$N"), ("N", "x y"))) for n in ("h0", "h1")] +
      [H(args=a, via=v, ident="h1", asg=g) for v in ("host", "bash", "fb") for a in (["$V", "a${N}b", "-c", "$V"], ["-c", "echo $V /a/b", "$N"], ["-lc", "$N"]) for g in ((), (("V", "/a"),))] + [H(args=["/a/b", "-a"], via="ls"), H(args=["-R", "/a", "/zz"], via="ls", edits=_ed[1]), H(dir="/a", flag="--path"), H(dir="/a", flag="-C"), H(dir="/a", flag="--path", via="host--"), S("V=9"), S("N=", "h1")] + [CD("/a"), CD("/a/d"), R("/a"), M("/a", "/zz"), W("/new", "x")], 2, 2)


def PY(*code, how="python", extra=(), ident="h0"):
    return {"k": "py", "p": "", "id": ident, "how": how, "extra": [list(x) for x in extra],
            "code": [dict({"a": "", "b": "", "h": "vfs"}, **(c if isinstance(c, dict) else {"s": c})) for c in code]}


def X(s, a="", b="", h="vfs"):
    return {"s": s, "a": a, "b": b, "h": h}


_py = [[X("print", "hi")], [X("set", "x", "1"), X("get", "x")], [X("get", "x")], [X("get", "q")], [X("lam", "v")], [X("comp", "v")], [X("shadow", "len"), X("print", "s")], [X("shadow", "print")], [X("drop", "len"), X("print", "d")], [X("drop", "print"), X("print", "d")], ["wreck"],
       [X("wreck"), X("write", "/w", "w")], [X("len", "abc")], ["sorted"], [X("lose", "vfs"), X("read", "/f", h="fs")], [X("lose", "vfs"), X("read", "/f")], [X("lose", "fs")], ["both"], [X("read", "/f")], [X("read", "/a/b", h="fs")], [X("read", "/nope")], [X("write", "/f", "n1"), X("read", "/f")],
       [X("write", "/f", "n2"), X("raise"), X("write", "/g", "no")], [X("append", "/f", "+")], [X("remove", "/a"), X("exists", "/a/b")], [X("mkdir", "/k/l")], [X("move", "/a", "/z")], [X("cd", "/a"), X("pwd")], ["pwd"], ["raise"], ["import"], ["from"], ["import2"], ["open"], ["undef"], ["recur"],
       [X("write", "/s", "s"), X("syntax")], [X("print", "a"), X("print", "b"), X("raise")], [X("write", "/ro", "x")], [X("read", "/hid")], [X("set", "vfs", "mine"), X("get", "vfs")]]
from gen import BUILTIN as _bi   # noqa: E402
_py += [[X("bi", b) for b in _bi[:-1]], [X("bi", _bi[-1])]]
_pyb = [x for x in _py if not (isinstance(x[0], dict) and x[0]["a"] == "vfs" and x[0]["s"] == "set")]
model("C22", "snippets", [D("/a"), W("/a/b", "1"), W("/f", "f0"), W("/ro", "r"), POL("/ro", w=False), W("/hid", "h"), POL("/hid", r=False), HOOK("/", "k1", "w"), SHELL("h0"), SHELL("h1")], [PY(*c) for c in _pyb] + [PY(*c, ident="h1") for c in _pyb[:14] + _pyb[-2:]] + [PY(X("get", "tool"), ident="h1"), PY(X("set", "tool", "bad"), ident="h1"), PY(X("get", "tool"))] + [PY(*c, how="api") for c in _pyb] +
      [PY(X("get", "extra"), how="api", extra=[("extra", "E")]), PY(X("set", "extra", "n"), X("get", "extra"), how="api", extra=[("extra", "E")]), PY(X("get", "extra"), how="api"), PY(X("get", "tool"), how="api"), PY(X("set", "tool", "bad"), how="api"), PY(X("get", "tool"), how="api", extra=[("tool", "mine")])] +
      [PY(*c, how=w) for c in _pyb[:6] + [[X("print", "a"), X("print", "b"), X("print", "c")]] for w in ("words", "cwords")] + [PY(*c, how="redir") for c in _pyb[:4]] + [S("cat /f"), S("pwd"), S("cat /rd"), CD("/a"), W("/f", "api"), R("/f")], 2, 2, 9)
