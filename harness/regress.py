"""Scripted histories: situations that once went wrong (see known_findings.txt), and corner cases worth fixing in place."""
from mcconf import (A, AD, ARM, C, CD, D, EXTW, H, HOOK, IDX, M, MD, MF, MNT, POKE, POL, PROV, Q, R, REST, S, SEARCH, SHELL, SNAP,
                    SV, SYNC, T, W, view)

HISTORIES = {
    "C01": [("fallback off", [SHELL(), S("ls -la /etc"), S("nosuch"), S("id"), S("echo x > ../../../tmp/x"), S("cat /etc/passwd")])],
    "C02": [("search path spellings", [W("/a/b", "foo"), CD("/a"), SEARCH("foo", "."), SEARCH("foo", "/a/../a/"), SEARCH("foo", "../a/b")])],
    "C03": [("move onto an occupied name", [D("/a"), W("/a/f", "old"), W("/f", "new"), M("/f", "/a"), Q("read", "/f"), Q("read", "/a/f")]),
            ("move a directory onto an occupied name", [D("/a/d"), W("/d/x", "1"), M("/d", "/a"), Q("walk")])],
    "C04": [("copy over a protected file", [W("/f", "1"), W("/g", "2"), POL("/g", w=False), C("/f", "/g"), C("/g", "/f")]),
            ("copy of a directory over a file", [D("/a"), W("/g", "2"), C("/a", "/g"), Q("read", "/g")]),
            ("refused writes", [W("/n/o/p", "1", 5), W("/f", "1"), W("/f", "2", 9), POL("/f", w=False), A("/f", "3"), W("/f/x", "4")]),
            ("storage failures", [AD("s0", [["a", "1"], ["d/b", "2"]]), MNT("/m", "s0"), HOOK("/", "k1", "p"), ARM("s0", "delete"), R("/m/a"), ARM("s0", "write"), W("/m/n/o", "x"),
                                  ARM("s0", "write"), A("/m/a", "x"), EXTW("s0", "a", "e"), W("/m/a", "y"), ARM("s0", "list"), SYNC("/m"), ARM("s0", "list"), MNT("/k", "s0"), Q("exists", "/k")]),
            ("entries below entries", [AD("s0", [["a", "1"], ["d/b", "2"]]), MNT("/m", "s0"), EXTW("s0", "a/z", "3"), W("/m/n", "x"), SYNC("/m"), AD("s1", [["x", "1"], ["x/y/z", "2"]]), MNT("/k/o", "s1"), D("/e"), W("/e/f", "1"), MNT("/e", "s1"),
                                       W("/e/g", "2")]),
            ("index with a failing provider", [PROV("p0", "t", True), MF("/v", "p0"), W("/a/f", "x"), IDX(), M("/a", "/b"), W("/b/f", "y"), C("/b", "/c"), R("/c")]),
            ("index and an unreadable root", [W("/a/f", "x"), IDX(), POL("/", r=False), M("/a", "/b"), W("/b/g", "y"), R("/b")])],
    "C05": [("new entries in a read-only directory", [D("/rd"), POL("/rd", w=False), W("/rd/n", "1"), T("/rd/n"), D("/rd/x"), W("/f", "1"), C("/f", "/rd"), M("/f", "/rd"), W("/rd/p/q", "1"), SHELL(), S("echo x > /rd/n")]),
            ("append-only", [W("/ao", "1"), POL("/ao", a=True), W("/ao", "2"), A("/ao", "3"), W("/f", "4"), C("/f", "/ao"), R("/ao"), M("/ao", "/g"), SHELL(), S("echo x > /ao"), S("echo x >> /ao"), S("cp /f /ao")]),
            ("append to a read-only provided file", [PROV("p0", "t"), MF("/v", "p0"), POL("/v", w=False), A("/v", "x"), Q("read", "/v")])],
    "C06": [("search", [W("/u", "key"), POL("/u", r=False), W("/f", "key"), SHELL(), SV(), SEARCH("key"), IDX(), SEARCH("key"), S("search key"), S("cat '/@search?q=key/u'"), S("rg key /")]),
            ("policy after indexing", [W("/u", "key"), IDX(), POKE("/u", "r", False), SEARCH("key"), SHELL(), S("search key"), S("grep -r key /")])],
    "C07": [("redirection through the search view", [W("/a/s", "key"), POL("/a/s", cls="secret"), SV(), SHELL("h0", view(cls=["public"])), SHELL("h1"), S("cat '/@search?q=key/a/s'", "h1"), S("cat < '/@search?q=key/a/s'", "h0"),
                                                    S("cat '/@search/a/s'", "h0"), S("tree /@search", "h0"), S("find /@search", "h0"), S("ls /@search/a", "h0")]),
            ("tree of a hidden current directory", [D("/sd"), W("/sd/x", "1"), POL("/sd", cls="secret"), SHELL("h0", view(cls=["public"])), CD("/sd"), S("tree", "h0"), S("ls", "h0"), S("find", "h0")])],
    "C08": [("relocation into a prefix", [D("/a"), W("/b/x", "1"), W("/b/c/y", "2"), SHELL("h0", view(pfx=[["a"]])), S("cp -r /b /a/k", "h0"), S("mv /b /a/k", "h0"), SHELL("h1", view(pfx=[["a"], ["b", "c"]])),
                                          S("cp -r /b /a/k", "h1"), S("mv /b /a/k", "h1"), S("cp -r / /a/k", "h1")])],
    "C09": [("copy over", [W("/f", "1"), A("/f", "2"), W("/f", "3"), W("/g", "x"), C("/g", "/f"), Q("version", "/f"), W("/f", "y", 1), W("/f", "y", 4), C("/f", "/g"), Q("version", "/g")])],
    "C10": [("list failure", [AD("s0", [["a", "1"]]), ARM("s0", "list"), MNT("/m", "s0"), W("/m/x", "1"), MNT("/m", "s0"), W("/m/x", "2"), SYNC("/m")])],
    "C13": [("read-only directories", [D("/rd"), W("/rd/f", "1"), POL("/rd", w=False), SNAP("z"), W("/f", "2"), REST("z"), Q("read", "/rd/f")]),
            ("removed current directory", [D("/a/d"), CD("/a/d"), SNAP("z"), CD("/"), R("/a"), REST("z"), Q("pwd"), D("/q"), CD("/q"), SNAP("y"), CD("/a"), M("/a", "/q"), REST("y"), Q("pwd")]),
            ("search view", [W("/f", "key"), SV(), SHELL(), S("cat '/@search?q=key/f'"), SNAP("z"), R("/f"), REST("z"), S("cat '/@search?q=key/f'"), S("ls '/@search?q=key'")])],
    "C15": [("missing path", [W("/a/b", "foo"), SEARCH("foo", "/nope"), IDX(), SEARCH("foo", "/nope"), SEARCH("foo", "/a/b/c")]),
            ("search command", [W("/a/b", "foo\nfoo\n"), W("/c", "foo"), SHELL(), S("search foo"), S("search foo /a /c"), S("search --no-line-number foo")])],
    "C16": [("failing redirections", [W("/f", "1"), POL("/f", w=False), D("/a"), SHELL(), S("echo x > /f"), S("echo x > /a"), S("cat < /nope"), S("cat < /a"), S("echo x > /f/y"), S("cat /nope/* /a/["), S("echo x > /f\necho y > /g"), S("echo z > ''")]),
            ("storage failure behind a host command", [AD("s0", [["a", "1"]]), MNT("/m", "s0"), SHELL(), ARM("s0", "delete"), H([("del", "/m/a", "")]), ARM("s0", "write"), H([("put", "/m/b", "2")])]),
            ("host fallback", [SHELL("h1", fb=True), SHELL("h2", fb=True, lim=3), S("nosuch", "h1"), S("nosuch | cat", "h1"), S("'no such' x", "h2"), S("./x", "h1")])],
    "C17": [("fallback and the empty list", [SHELL("h0", allow=[], fb=True), SHELL("h1", allow=["ls"], fb=True), S("nosuch", "h0"), S("ls", "h0"), S("nosuch", "h1"), S("rm -r /", "h1"), S("ls | nosuch", "h1")]),
            ("bytes", [W("/u", "\u00e9\u00e9\u00e9"), SHELL("h0", lim=5), SHELL("h1", lim=6), S("cat /u", "h0"), S("cat /u", "h1"), S("cat /u | wc", "h0")])],
    "C18": [("tail zero", [W("/t", "a\nb\n"), SHELL(), S("tail -n 0 /t"), S("tail -c 0 /t"), S("cat /t | tail -n 0"), S("head -n 0 /t")])],
    "C21": [("append", [PROV("p0", "live"), MF("/v", "p0"), A("/v", "+"), Q("read", "/v"), PROV("p0", "new"), Q("read", "/v"), MF("/w", "p0"), SHELL(), S("echo x >> /w"), Q("read", "/w")])],
}
