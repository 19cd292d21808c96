------------------------------- MODULE SandFS -------------------------------
(***************************************************************************)
(* The sandbox filesystem: a tree of nodes with policies, versions and     *)
(* metadata, a current directory, storage mounts with back ends, hooks,    *)
(* snapshots, content and directory providers, a search index flag and     *)
(* the search view.                                                        *)
(*                                                                         *)
(* A state is one record (see Init0); every operation is a deterministic   *)
(* function from state and arguments to a result record                    *)
(*    [st, ok, why, out, mode, ev, part, spawn]                            *)
(* why  - reason of a refusal (used to attribute disagreements)            *)
(* out  - sequence of strings, compared as mode says:                      *)
(*        "seq" exactly, "bag" in any order, "pre" prefix, "any" not       *)
(* ev   - hook calls in order                                              *)
(* part - a recursive remove stopped part-way below this path              *)
(* Paths are sequences of names, the root is <<>>.                         *)
(***************************************************************************)
EXTENDS Text

Fn(S, f(_)) == [x \in S |-> f(x)]
EmptyFn == [x \in {} |-> x]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]

-----------------------------------------------------------------------------
(* Paths *)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Rebase(p, from, to) == to \o SubSeq(p, Len(from) + 1, Len(p))
PathStr(p) == IF p = <<>> THEN "/" ELSE "/" \o Join(p, "/")
RECURSIVE NormFrom(_, _, _)
NormFrom(acc, comps, i) ==
  IF i > Len(comps) THEN acc
  ELSE IF comps[i] \in {"", "."} THEN NormFrom(acc, comps, i + 1)
  ELSE IF comps[i] = ".." THEN NormFrom(IF acc = <<>> THEN acc ELSE Parent(acc), comps, i + 1)
  ELSE NormFrom(Append(acc, comps[i]), comps, i + 1)
(* the location a spelling denotes, seen from directory base *)
Norm(base, raw) == NormFrom(IF raw # "" /\ Ch(raw, 1) = "/" THEN <<>> ELSE base, Split(raw, "/"), 1)

-----------------------------------------------------------------------------
(* Nodes *)
NewNode(k, c) == [k |-> k, c |-> c, v |-> 0, r |-> TRUE, w |-> TRUE, a |-> FALSE,
                  cls |-> "public", pr |-> {}, md |-> {}, prv |-> "", lz |-> "", ct |-> 0, mt |-> 0]
NewFile == NewNode("f", "")
NewDir == NewNode("d", "")
WithPol(n, pol) == [n EXCEPT !.r = pol.r, !.w = pol.w, !.a = pol.a, !.cls = pol.cls, !.pr = ToSet(pol.pr)]
IsD(t, p) == p \in DOMAIN t /\ t[p].k = "d"
IsF(t, p) == p \in DOMAIN t /\ t[p].k = "f"
Below(t, p) == {q \in DOMAIN t : IsPre(p, q)}        \* p and its descendants
Kids(t, p) == {q \in DOMAIN t : Len(q) = Len(p) + 1 /\ IsPre(p, q)}

Init0 == [t |-> [p \in {<<>>} |-> NewDir], cw |-> <<>>, cs |-> <<>>,
          mnt |-> EmptyFn, ad |-> EmptyFn, arm |-> {}, hk |-> <<>>, idx |-> FALSE,
          sv |-> [on |-> FALSE, p |-> <<>>], srl |-> FALSE, snap |-> EmptyFn,
          prov |-> EmptyFn, dprov |-> EmptyFn, sh |-> EmptyFn, blind |-> FALSE]

Cwd(st) == st.cw \o st.cs
At(st, raw) == Norm(Cwd(st), raw)

(* how resolving p ends: "ok", "nf" (missing) or "nd" (a file on the way) *)
Res(t, p) == IF p \in DOMAIN t THEN "ok"
             ELSE IF \E i \in 1..(Len(p) - 1) : IsF(t, SubSeq(p, 1, i)) THEN "nd" ELSE "nf"
(* where creating p adds its first new entry: [has, d] *)
Missing(t, p) == IF Res(t, p) # "nf" THEN [has |-> FALSE, d |-> <<>>]
                 ELSE LET i == CHOOSE i \in 0..(Len(p) - 1) :
                                 SubSeq(p, 1, i) \in DOMAIN t /\ SubSeq(p, 1, i + 1) \notin DOMAIN t
                      IN [has |-> TRUE, d |-> SubSeq(p, 1, i)]
(* t with directories p and all its missing ancestors *)
WithDirs(t, p) == LET new == {SubSeq(p, 1, i) : i \in 1..Len(p)} \ DOMAIN t
                  IN [q \in DOMAIN t \union new |-> IF q \in new THEN NewDir ELSE t[q]]
(* the node for file p at the end of a creating resolution, or a refusal *)
FileAt(t, p) == IF p = <<>> THEN "invalid"
                ELSE IF Res(t, p) = "nd" THEN "invalid"
                ELSE IF IsD(t, p) THEN "invalid" ELSE "ok"

CanWrite(n, append) == n.w /\ (append \/ ~n.a)

-----------------------------------------------------------------------------
(* Results *)
R(st, ok, why, out, mode, ev) == [st |-> st, ok |-> ok, why |-> why, out |-> out, mode |-> mode,
                                  ev |-> ev, part |-> <<FALSE, <<>>>>, spawn |-> 0, taint |-> FALSE, err |-> ""]
Good(st) == R(st, TRUE, "", <<>>, "seq", <<>>)
Out(st, out) == R(st, TRUE, "", out, "seq", <<>>)
Bag(st, out) == R(st, TRUE, "", out, "bag", <<>>)
Fail(st, why) == R(st, FALSE, why, <<>>, "seq", <<>>)

-----------------------------------------------------------------------------
(* Content, also of provider-backed files.  A provider answers with its    *)
(* current text tagged with the path and metadata it was asked for.        *)
RECURSIVE MdJoin(_)
MdJoin(S) == IF S = {} THEN ""
             ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ StrLt(x[1], y[1])
                  IN m[1] \o "=" \o m[2] \o ";" \o MdJoin(S \ {m})
BadAt(st, p) == st.t[p].prv # "" /\ st.prov[st.t[p].prv].bad
TextAt(st, p) == LET n == st.t[p] IN
  IF n.prv = "" THEN n.c
  ELSE IF st.prov[n.prv].txt = "" THEN ""      \* an empty answer
  ELSE st.prov[n.prv].txt \o "|" \o PathStr(p) \o "|" \o MdJoin(n.md)

-----------------------------------------------------------------------------
(* Visibility *)
Allows(view, n) == IF n.pr # {} THEN view.prn.on /\ n.pr \intersect view.prn.s # {}
                   ELSE ~view.cls.on \/ n.cls \in view.cls.s
InPrefixes(view, p) == ~view.pfx.on \/ \E q \in view.pfx.s : IsPre(q, p) \/ IsPre(p, q)
\* a filter value "~none" stands for None: the node must not carry the key
MdOk(view, n) == (~view.md.on) \/ (\A f \in view.md.s : IF f[2] = "~none" THEN \A m \in n.md : m[1] # f[1] ELSE f \in n.md)
AllowsNode(view, p, n) == Allows(view, n) /\ InPrefixes(view, p) /\ MdOk(view, n)
NoView == [cls |-> [on |-> FALSE, s |-> {}], prn |-> [on |-> FALSE, s |-> {}],
           pfx |-> [on |-> FALSE, s |-> {}], md |-> [on |-> FALSE, s |-> {}], full |-> TRUE]
(* full: no view at all was given (every node passes, also those naming principals) *)
Sees(view, p, n) == view.full \/ AllowsNode(view, p, n)

-----------------------------------------------------------------------------
(* Storage back ends.  ad[id] = [kind, e, hd], e: relative path -> [c, v, d, x]:
   content, version, changed-behind-our-back flag and presence (host directories only;
   v = -1: the adapter has not seen the file yet); hd: directories on the host (paths
   as names), which outlive the files in them.                                  *)
MountsOf(st, p) == {q \in DOMAIN st.mnt : IsPre(q, p)}
MountOf(st, p) == CHOOSE q \in MountsOf(st, p) : \A o \in MountsOf(st, p) : Len(o) <= Len(q)
Mounted(st, p) == MountsOf(st, p) # {}
Rel(st, p) == LET m == MountOf(st, p) IN IF p = m THEN "." ELSE Join(SubSeq(p, Len(m) + 1, Len(p)), "/")
AdOf(st, p) == st.mnt[MountOf(st, p)]
Entry(c, v) == [c |-> c, v |-> v, d |-> FALSE, x |-> TRUE]
(* a host directory adapter looks at the file again *)
Refresh(e, rel) ==
  IF rel \notin DOMAIN e THEN e
  ELSE IF ~e[rel].x THEN Drop(e, {rel})
  ELSE IF e[rel].v = -1 THEN [e EXCEPT ![rel].v = 0, ![rel].d = FALSE]
  ELSE IF e[rel].d THEN [e EXCEPT ![rel].v = @ + 1, ![rel].d = FALSE]
  ELSE e
(* relative path string of a back-end entry as names *)
RelPath(rel) == SelectSeq(Split(rel, "/"), LAMBDA c : c \notin {"", "."})
DirsOf(rel) == LET q == RelPath(rel) IN {SubSeq(q, 1, i) : i \in 0..(Len(q) - 1)}
(* the host directory has a directory where a file is wanted or the other way round *)
Clash(a, rel) == a.kind = "fs" /\ (RelPath(rel) \in a.hd
                   \/ \E r \in DOMAIN a.e : a.e[r].x /\ RelPath(r) \in DirsOf(rel))
VerOf(e, rel) == IF rel \in DOMAIN e /\ e[rel].v # -1 THEN e[rel].v ELSE 0
(* write through: [ok, why, st] *)
Persist(st, p, text, prev) ==
  IF ~Mounted(st, p) THEN [ok |-> TRUE, why |-> "", st |-> st]
  ELSE LET id == AdOf(st, p)
           rel == Rel(st, p)
           a == st.ad[id]
       IN IF <<id, "write">> \in st.arm
          THEN [ok |-> FALSE, why |-> "fault", st |-> [st EXCEPT !.arm = @ \ {<<id, "write">>}]]
          ELSE IF a.kind = "mem"
          THEN IF rel \in DOMAIN a.e /\ a.e[rel].v # prev
               THEN [ok |-> FALSE, why |-> "conflict", st |-> st]
               ELSE [ok |-> TRUE, why |-> "", st |-> [st EXCEPT !.ad[id].e = Put(@, rel, Entry(text, prev + 1))]]
          ELSE IF Clash(a, rel) THEN [ok |-> FALSE, why |-> "fault", st |-> st]
          ELSE LET e1 == Refresh(a.e, rel) IN
               IF VerOf(e1, rel) # prev
               THEN [ok |-> FALSE, why |-> "conflict", st |-> [st EXCEPT !.ad[id].e = e1]]
               ELSE [ok |-> TRUE, why |-> "", st |-> [st EXCEPT !.ad[id].e = Put(e1, rel, Entry(text, prev + 1)),
                                                                !.ad[id].hd = @ \union DirsOf(rel)]]
(* delete the entries of a set of removed files *)
Unstore(st, F) ==
  LET M == {p \in F : Mounted(st, p)}
      gone(id) == {Rel(st, p) : p \in {q \in M : AdOf(st, q) = id}}
  IN [st EXCEPT !.ad = [id \in DOMAIN st.ad |-> [st.ad[id] EXCEPT !.e = Drop(@, gone(id))]]]

-----------------------------------------------------------------------------
(* Hooks *)
Flag(b) == IF b THEN "true" ELSE "false"
WriteEv(st, p, text, v, append) ==
  LET ws == SelectSeq(st.hk, LAMBDA h : h.kind = "w" /\ IsPre(h.p, p))
      ps == SelectSeq(st.hk, LAMBDA h : h.kind = "p" /\ IsPre(h.p, p))
  IN [i \in 1..Len(ws) |-> <<"w", ws[i].id, PathStr(p), text, ToString(v), Flag(append)>>]
     \o [i \in 1..Len(ps) |-> <<"p", ps[i].id, PathStr(p), text, IF v = 1 THEN "create" ELSE "update", "">>]
DeleteEv(st, p) ==
  LET ps == SelectSeq(st.hk, LAMBDA h : h.kind = "p" /\ IsPre(h.p, p))
  IN [i \in 1..Len(ps) |-> <<"p", ps[i].id, PathStr(p), "~none", "delete", "">>]

-----------------------------------------------------------------------------
(* Tree operations *)
Write(st, p, data, append, expect) ==
  LET t == st.t
      miss == Missing(t, p)
      n == IF p \in DOMAIN t THEN t[p] ELSE NewFile
  IN IF miss.has /\ ~CanWrite(t[miss.d], TRUE) THEN Fail(st, "policy")
     ELSE IF FileAt(t, p) # "ok" THEN Fail(st, "invalid")
     ELSE IF ~CanWrite(n, append) THEN Fail(st, "policy")
     ELSE IF expect # -1 /\ n.v # expect THEN Fail(st, "version")
     ELSE IF append /\ p \in DOMAIN t /\ BadAt(st, p) THEN Fail(st, "provider")
     ELSE LET text == IF append /\ p \in DOMAIN t THEN TextAt(st, p) \o data ELSE data
              per == Persist(st, p, text, n.v)
          IN IF ~per.ok THEN Fail(per.st, per.why)
             ELSE LET t2 == Put(WithDirs(t, Parent(p)), p, [n EXCEPT !.c = text, !.v = @ + 1, !.prv = ""])
                  IN [Good([per.st EXCEPT !.t = t2]) EXCEPT !.ev = WriteEv(st, p, text, n.v + 1, append)]

Read(st, p) == IF Res(st.t, p) # "ok" \/ st.t[p].k = "d" THEN Fail(st, "invalid")
               ELSE IF ~st.t[p].r THEN Fail(st, "unreadable")
               ELSE IF BadAt(st, p) THEN Fail(st, "provider")
               ELSE Out(st, <<TextAt(st, p)>>)

Touch(st, p) ==
  LET miss == Missing(st.t, p) IN
  IF miss.has /\ ~CanWrite(st.t[miss.d], TRUE) THEN Fail(st, "policy")
  ELSE IF FileAt(st.t, p) # "ok" THEN Fail(st, "invalid")
  ELSE IF p \in DOMAIN st.t
       THEN IF st.t[p].w THEN Good(st) ELSE Fail(st, "policy")
       ELSE Good([st EXCEPT !.t = Put(WithDirs(@, Parent(p)), p, NewFile)])

Mkdir(st, p, parents, existok) ==
  LET miss == Missing(st.t, p) IN
  IF p = <<>> THEN Good(st)
  ELSE IF miss.has /\ ~CanWrite(st.t[miss.d], FALSE) THEN Fail(st, "policy")
  ELSE IF Res(st.t, p) = "nd" THEN Fail(st, "invalid")
  ELSE IF p \in DOMAIN st.t
       THEN IF st.t[p].k = "f" THEN Fail(st, "invalid") ELSE IF existok THEN Good(st) ELSE Fail(st, "exists")
  ELSE IF Parent(p) \notin DOMAIN st.t /\ ~parents THEN Fail(st, "missing")
  ELSE Good([st EXCEPT !.t = WithDirs(@, p)])

(* the current directory after the subtree at p left the tree *)
CwGone(st, p) == IF IsPre(p, st.cw) /\ p # <<>>
                 THEN [st EXCEPT !.cw = Parent(p), !.cs = SubSeq(st.cw, Len(p), Len(st.cw)) \o st.cs]
                 ELSE st

Protected(n) == ~n.w \/ n.a
(* sequence of the elements of S, parents after children *)
Files(t, S) == {q \in S : t[q].k = "f"}
Delete(st, p, rec) ==
  LET t == st.t
      sub == Below(t, p)
      bad == {q \in sub : Protected(t[q])}
      files == Files(t, sub)
      faulty == {q \in files : Mounted(st, q) /\ (<<AdOf(st, q), "delete">> \in st.arm
                    \/ (st.ad[AdOf(st, q)].kind = "fs" /\ RelPath(Rel(st, q)) \in st.ad[AdOf(st, q)].hd))}
  IN IF p = <<>> \/ Res(t, p) # "ok" THEN Fail(st, "invalid")
     ELSE IF Protected(t[p]) \/ Protected(t[Parent(p)]) THEN Fail(st, "policy")
     ELSE IF ~rec /\ sub # {p} THEN Fail(st, "notempty")
     ELSE IF bad = {} /\ faulty = {}
     THEN LET evs == FlattenSeq([i \in 1..Cardinality(files) |-> DeleteEv(st, SetToSeq(files)[i])])
          IN [Good(CwGone(Unstore([st EXCEPT !.t = Drop(t, sub)], files), p)) EXCEPT !.ev = evs]
     ELSE IF faulty = {p}
     THEN Fail([st EXCEPT !.arm = @ \ {<<AdOf(st, p), "delete">>}], "fault")
     ELSE [Fail(st, IF bad # {} THEN "policy" ELSE "fault") EXCEPT !.part = <<TRUE, p>>]

MoveTree(t, s, d) ==
  LET sub == Below(t, s)
      new == {Rebase(q, s, d) : q \in sub}
  IN [q \in (DOMAIN t \ sub) \union new |-> IF q \in new THEN t[Rebase(q, d, s)] ELSE t[q]]

Move(st, s, d) ==
  LET t == st.t
      into == IsD(t, d)
      dp == IF into THEN d ELSE Parent(d)
      dn == IF into THEN Name(s) ELSE Name(d)
      to == Append(dp, dn)
  IN IF s = <<>> \/ Res(t, s) # "ok" THEN Fail(st, "invalid")
     ELSE IF Protected(t[s]) \/ Protected(t[Parent(s)]) THEN Fail(st, "policy")
     ELSE IF IsF(t, d) THEN Fail(st, "exists")
     ELSE IF ~IsD(t, dp) THEN Fail(st, "invalid")
     ELSE IF Protected(t[dp]) THEN Fail(st, "policy")
     ELSE IF t[s].k = "d" /\ IsPre(s, dp) THEN Fail(st, "invalid")
     ELSE IF to = s THEN Good(st)
     ELSE IF to \in DOMAIN t THEN Fail(st, "exists")
     ELSE Good([st EXCEPT !.t = MoveTree(t, s, to),
                          !.cw = IF IsPre(s, @) THEN Rebase(@, s, to) ELSE @])

Clone(st, q) == LET n == st.t[q] IN
  [n EXCEPT !.c = IF n.k = "f" THEN TextAt(st, q) ELSE "", !.v = 0, !.prv = "", !.lz = ""]
Copy(st, s, d, rec) ==
  LET t == st.t
      into == IsD(t, d)
      over == IsF(t, d)
      dp == IF into THEN d ELSE Parent(d)
      dn == IF into THEN Name(s) ELSE Name(d)
      to == Append(dp, dn)
      sub == Below(t, s)
      new == {Rebase(q, s, to) : q \in sub}
      clone(q) == LET c == Clone(st, Rebase(q, to, s))
                  IN IF over /\ q = to /\ c.k = "f" THEN [c EXCEPT !.v = t[d].v + 1] ELSE c
  IN IF Res(t, s) # "ok" THEN Fail(st, "invalid")
     ELSE IF t[s].k = "d" /\ ~rec THEN Fail(st, "invalid")
     ELSE IF ~t[s].r THEN Fail(st, "unreadable")
     ELSE IF s = <<>> THEN Fail(st, "invalid")
     ELSE IF ~IsD(t, dp) THEN Fail(st, "invalid")
     ELSE IF Protected(t[dp]) \/ (over /\ Protected(t[d])) THEN Fail(st, "policy")
     ELSE IF t[s].k = "d" /\ IsPre(s, to) THEN Fail(st, "invalid")
     ELSE IF \E q \in Files(t, sub) : BadAt(st, q) THEN Fail(st, "provider")
     ELSE IF into /\ to \in DOMAIN t THEN Fail(st, "exists")
     ELSE Good([st EXCEPT !.t = [q \in DOMAIN t \union new |-> IF q \in new THEN clone(q) ELSE t[q]]])

Cd(st, p) == IF ~IsD(st.t, p) THEN Fail(st, "invalid")
             ELSE IF ~st.t[p].r THEN Fail(st, "unreadable")
             ELSE Out([st EXCEPT !.cw = p, !.cs = <<>>], <<PathStr(p)>>)

-----------------------------------------------------------------------------
(* Queries *)
EntryLt(t, a, b) == IF t[a].k # t[b].k THEN t[a].k = "d" ELSE StrLt(Name(a), Name(b))
SortedKids(t, K) == SetToSortSeq(K, LAMBDA a, b : EntryLt(t, a, b))
SeenKids(st, p, view) == {q \in Kids(st.t, p) : Sees(view, q, st.t[q])}
LsSeq(st, p, view) == SortedKids(st.t, SeenKids(st, p, view))
KindStr(n) == IF n.k = "d" THEN "d " ELSE "f "
Ls(st, p, view) ==
  IF ~IsD(st.t, p) THEN Fail(st, "invalid")
  ELSE IF ~st.t[p].r THEN Fail(st, "unreadable")
  ELSE LET q == LsSeq(st, p, view) IN Out(st, [i \in 1..Len(q) |-> KindStr(st.t[q[i]]) \o PathStr(q[i])])

RECURSIVE TreeLines(_, _, _, _)
TreeLines(st, p, view, pre) ==
  LET q == LsSeq(st, p, view)
      block(i) == LET last == i = Len(q)
                      n == st.t[q[i]]
                      con == IF last THEN TREE_LAST ELSE TREE_MID
                      ext == IF last THEN "    " ELSE TREE_BAR
                      label == pre \o con \o " " \o Name(q[i]) \o (IF n.k = "d" THEN "/" ELSE "")
                  IN <<label>> \o (IF n.k = "d" THEN TreeLines(st, q[i], view, pre \o ext) ELSE <<>>)
  IN FlattenSeq(TLCEval([i \in 1..Len(q) |-> TLCEval(block(i))]))
TreeText(st, p, view) ==
  IF ~IsD(st.t, p) THEN Fail(st, "invalid")
  ELSE IF ~st.t[p].r THEN Fail(st, "unreadable")
  ELSE Out(st, <<Join(<<PathStr(p)>> \o TreeLines(st, p, view, ""), LF)>>)

HasWild(s) == HasAny(s, {"*", "?", "[", "]"})
(* a pattern path: empty and "." components vanish, ".." stays *)
PatStr(base, pat) ==
  LET comps == SelectSeq(Split(pat, "/"), LAMBDA c : c \notin {"", "."})
      abs == Ch(pat, 1) = "/"
      all == IF abs THEN comps ELSE base \o comps
      lead == IF abs /\ StartsWith(pat, "//") /\ ~StartsWith(pat, "///") THEN "//" ELSE "/"
  IN lead \o Join(all, "/")
Glob(st, pat, base, view) ==
  IF pat = "" THEN Out(st, <<>>)
  ELSE IF ~Has(pat, "/")
  THEN IF ~IsD(st.t, base) THEN Fail(st, "invalid")
       ELSE IF ~st.t[base].r THEN Fail(st, "unreadable")
       ELSE LET q == SelectSeq(LsSeq(st, base, view), LAMBDA x : GlobMatch(pat, Name(x)))
            IN Out(st, [i \in 1..Len(q) |-> PathStr(q[i])])
  ELSE LET pp == PatStr(base, pat)
       IN Out(st, SortStr({PathStr(p) : p \in {p \in DOMAIN st.t :
                              Sees(view, p, st.t[p]) /\ GlobMatch(pp, PathStr(p))}}))

Walk(st, p) == IF p \notin DOMAIN st.t THEN Fail(st, "invalid")
               ELSE Bag(st, SetToSeq({KindStr(st.t[q]) \o PathStr(q) : q \in Below(st.t, p)}))

InSearchView(st, p) == st.sv.on /\ IsPre(st.sv.p, p)
(* matching lines of the file at p: sequence of <<number, text>> *)
FileHits(st, p, q, regex, ic) ==
  LET ls == SplitLines(TextAt(st, p))
  IN SelectSeq([i \in 1..Len(ls) |-> <<i, ls[i]>>], LAMBDA x : LineMatches(q, regex, ic, x[2]))
(* files a search below prefix reports on *)
SearchFiles(st, prefix, view) ==
  IF prefix \notin DOMAIN st.t \/ ~st.t[prefix].r THEN {}
  ELSE {p \in Files(st.t, Below(st.t, prefix)) :
          ~InSearchView(st, p) /\ st.t[p].r /\ Sees(view, p, st.t[p])}
(* the index keeps what providers answered when it was built *)
IdxStale(st, F) == st.idx /\ \E p \in F : st.t[p].prv # ""
HitStr(p, h, num) == IF num THEN PathStr(p) \o ":" \o ToString(h[1]) \o ":" \o h[2] ELSE PathStr(p) \o ":" \o h[2]
HitsOf(st, P, q, regex, ic, num) ==   \* P: sequence of files
  FlattenSeq([i \in 1..Len(P) |-> LET h == FileHits(st, P[i], q, regex, ic)
                                  IN [j \in 1..Len(h) |-> HitStr(P[i], h[j], num)]])
Search(st, q, regex, ic, prefix, view) ==
  LET F == SearchFiles(st, prefix, view) IN
  IF RxBad(regex, q) /\ prefix \in DOMAIN st.t /\ st.t[prefix].r THEN Fail(st, "pattern")
  ELSE IF IdxStale(st, F) THEN [Out(st, <<>>) EXCEPT !.mode = "any"]
  ELSE IF \E p \in F : BadAt(st, p) THEN Fail(st, "provider")
  ELSE Bag(st, HitsOf(st, SetToSeq(F), q, regex, ic, TRUE))

-----------------------------------------------------------------------------
(* Snapshots *)
Snapshot(st, id) ==
  IF \E p \in Files(st.t, DOMAIN st.t) : BadAt(st, p) THEN Fail(st, "provider")
  ELSE Good([st EXCEPT !.snap = Put(@, id,
         [t |-> [p \in DOMAIN st.t |-> IF st.t[p].k = "f"
                                       THEN [st.t[p] EXCEPT !.c = TextAt(st, p), !.prv = ""]
                                       ELSE [st.t[p] EXCEPT !.lz = ""]],
          cwd |-> Cwd(st), mnt |-> st.mnt])])
RECURSIVE NearestDir(_, _)
NearestDir(t, p) == IF IsD(t, p) THEN p ELSE NearestDir(t, Parent(p))
Restore(st, id) ==
  LET s == st.snap[id] IN
  Good([st EXCEPT !.t = s.t, !.mnt = s.mnt, !.cw = NearestDir(s.t, s.cwd), !.cs = <<>>])

-----------------------------------------------------------------------------
(* Administration *)
SetPol(st, p, pol) == IF p \notin DOMAIN st.t THEN Fail(st, "invalid")
                      ELSE Good([st EXCEPT !.t[p] = WithPol(@, pol)])
(* in-place changes of a node's policy or metadata *)
PokePol(st, p, f, b) ==
  IF p \notin DOMAIN st.t THEN Fail(st, "invalid")
  ELSE Good(CASE f = "r" -> [st EXCEPT !.t[p].r = b]
              [] f = "w" -> [st EXCEPT !.t[p].w = b]
              [] f = "a" -> [st EXCEPT !.t[p].a = b])
PokePrin(st, p, x) == IF p \notin DOMAIN st.t THEN Fail(st, "invalid")
                      ELSE Good([st EXCEPT !.t[p].pr = @ \union {x}])
SetMd(md, k, v) == {m \in md : m[1] # k} \union {<<k, v>>}
PokeMd(st, p, k, v) == IF p \notin DOMAIN st.t THEN Fail(st, "invalid")
                       ELSE Good([st EXCEPT !.t[p].md = SetMd(@, k, v)])
RECURSIVE Merge(_, _, _)
Merge(md, new, i) == IF i > Len(new) THEN md ELSE Merge(SetMd(md, new[i][1], new[i][2]), new, i + 1)

MountFile(st, p, id, md) ==
  IF FileAt(st.t, p) # "ok" THEN Fail(st, "invalid")
  ELSE LET n == IF p \in DOMAIN st.t THEN st.t[p] ELSE NewFile
       IN Good([st EXCEPT !.t = Put(WithDirs(@, Parent(p)), p, [n EXCEPT !.prv = id, !.md = Merge(@, md, 1)])])

MountDir(st, p, id, md) ==
  LET m == Mkdir(st, p, TRUE, TRUE) IN
  IF ~m.ok THEN m ELSE Good([m.st EXCEPT !.t[p].lz = id, !.t[p].md = Merge(@, md, 1)])

(* what listing a back end yields and how it changes the adapter *)
Listed(a) == IF a.kind = "mem" THEN a
             ELSE [a EXCEPT !.e = [r \in DOMAIN a.e |-> IF ~a.e[r].x THEN a.e[r]
                                     ELSE [a.e[r] EXCEPT !.v = IF @ = -1 THEN 0 ELSE IF a.e[r].d THEN @ + 1 ELSE @,
                                                         !.d = FALSE]]]
(* no tree holds these entries: one of them lies below another *)
Tangled(a) == LET rels == {RelPath(r) : r \in {x \in DOMAIN a.e : a.e[x].x}} IN
              (<<>> \in rels) \/ \E r, q \in rels : r # q /\ IsPre(r, q)
Load(st, m, id) ==
  LET a == Listed(st.ad[id])
      rels == {r \in DOMAIN a.e : a.e[r].x}
      fp(r) == m \o RelPath(r)
      files == {fp(r) : r \in rels}
      relof(p) == CHOOSE r \in rels : fp(r) = p
      dirs == UNION {{SubSeq(p, 1, i) : i \in (Len(m) + 1)..(Len(p) - 1)} : p \in files}
      old == Below(st.t, m) \ {m}
      t1 == Drop(st.t, old)
      t2 == [q \in DOMAIN t1 \union files \union dirs |->
               IF q \in files THEN [NewFile EXCEPT !.c = a.e[relof(q)].c, !.v = a.e[relof(q)].v]
               ELSE IF q \in dirs THEN NewDir ELSE t1[q]]
      st1 == [st EXCEPT !.ad[id] = a, !.t = [t2 EXCEPT ![m].lz = ""]]
  IN IF IsPre(m, st.cw) /\ st.cw # m
     THEN [st1 EXCEPT !.cw = m, !.cs = SubSeq(st.cw, Len(m) + 1, Len(st.cw)) \o st.cs]
     ELSE st1

MountStorage(st, p, id, pol) ==       \* pol: <<>> or <<policy>>
  IF <<id, "list">> \in st.arm THEN Fail([st EXCEPT !.arm = @ \ {<<id, "list">>}], "fault")
  ELSE IF Tangled(st.ad[id]) THEN Fail(st, "storage")
  ELSE LET m == Mkdir(st, p, TRUE, TRUE) IN
  IF ~m.ok THEN m
  ELSE LET s1 == IF pol = <<>> THEN m.st ELSE [m.st EXCEPT !.t[p] = WithPol(@, pol[1])]
       IN Good(Load([s1 EXCEPT !.mnt = Put(@, p, id)], p, id))
Sync(st, p) ==
  IF p \notin DOMAIN st.mnt THEN Fail(st, "invalid")
  ELSE LET id == st.mnt[p] IN
       IF <<id, "list">> \in st.arm THEN Fail([st EXCEPT !.arm = @ \ {<<id, "list">>}], "fault")
       ELSE IF ~IsD(st.t, p) THEN Fail([st EXCEPT !.ad[id] = Listed(@)], "invalid")
       ELSE IF Tangled(st.ad[id]) THEN Fail(st, "storage")
       ELSE Good(Load(st, p, id))

(* somebody else changes a back end *)
ExtWrite(st, id, rel, text) ==
  LET a == st.ad[id] IN
  IF Clash(a, rel) THEN Fail(st, "invalid")
  ELSE Good([st EXCEPT !.ad[id].hd = IF a.kind = "fs" THEN @ \union DirsOf(rel) ELSE @, !.ad[id].e =
    IF a.kind = "mem" THEN Put(a.e, rel, Entry(text, IF rel \in DOMAIN a.e THEN a.e[rel].v + 1 ELSE 1))
    ELSE IF rel \in DOMAIN a.e THEN Put(a.e, rel, [c |-> text, v |-> a.e[rel].v, d |-> a.e[rel].v # -1, x |-> TRUE])
    ELSE Put(a.e, rel, [c |-> text, v |-> -1, d |-> FALSE, x |-> TRUE])])
ExtDelete(st, id, rel) ==
  LET a == st.ad[id] IN
  IF rel \notin DOMAIN a.e \/ ~a.e[rel].x THEN Good(st)
  ELSE Good([st EXCEPT !.ad[id].e =
    IF a.kind = "mem" THEN Drop(a.e, {rel})
    ELSE IF a.e[rel].v = -1 THEN Drop(a.e, {rel})
    ELSE [a.e EXCEPT ![rel].x = FALSE, ![rel].d = TRUE, ![rel].c = ""]])

(* a directory provider's answer becomes part of the tree (existing entries win);
   dprov[id] = sequence of [p, n]: relative path (names) and node *)
LoadLazy(st, p) ==
  LET id == st.t[p].lz
      ns == st.dprov[id].nodes
      idx == {i \in DOMAIN ns : p \o <<ns[i].p[1]>> \notin DOMAIN st.t}
      new == {p \o ns[i].p : i \in idx}
      node(q) == ns[CHOOSE i \in idx : p \o ns[i].p = q].n
  IN [st EXCEPT !.t = [q \in DOMAIN st.t \union new |->
                         IF q \in new THEN node(q) ELSE IF q = p THEN [st.t[q] EXCEPT !.lz = ""] ELSE st.t[q]]]

EnableSearchView(st, p) ==
  LET m == Mkdir(st, p, TRUE, TRUE) IN
  IF ~m.ok THEN [m EXCEPT !.st.sv = [on |-> TRUE, p |-> p]] ELSE Good([m.st EXCEPT !.sv = [on |-> TRUE, p |-> p]])
=============================================================================
