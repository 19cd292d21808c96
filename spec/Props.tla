-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The listed properties stated directly, as relations between the state   *)
(* before and after one operation (not by way of Apply).  They are checked *)
(* on every transition of the bounded models (design) and on every         *)
(* recorded step of the implementation (conformance).                      *)
(* pre, post: states; op: the operation; ok: it succeeded; ev: hook calls. *)
(***************************************************************************)
EXTENDS Ops

Same(a, b) == a.k = b.k /\ a.c = b.c /\ a.v = b.v /\ a.r = b.r /\ a.w = b.w /\ a.a = b.a
              /\ a.cls = b.cls /\ a.pr = b.pr /\ a.md = b.md
(* what a provider currently answers is not part of the node *)
SameN(a, b) == IF a.prv # "" /\ b.prv # "" THEN Same([a EXCEPT !.c = ""], [b EXCEPT !.c = ""]) ELSE Same(a, b)
SameTree(t, u) == DOMAIN t = DOMAIN u /\ \A p \in DOMAIN t : SameN(t[p], u[p])
AdView(ad) == [id \in DOMAIN ad |-> [r \in {x \in DOMAIN ad[id].e : ad[id].e[x].x} |-> ad[id].e[r].c]]

(* where the node at q of the state before is after the operation *)
Follow(pre, op, ok, q) ==
  IF ok /\ op.k = "move"
  THEN LET s == At(pre, op.p)
           d == At(pre, op.p2)
           to == IF IsD(pre.t, d) THEN Append(d, Name(s)) ELSE d
       IN IF IsPre(s, q) THEN Rebase(q, s, to) ELSE q
  ELSE q
Mover(op) == op.k \in {"move", "sh"}

(* C04: a refused call leaves no trace (recursive removal may stop part-way; a command
   with several steps may have done the first ones) *)
C04Direct(pre, op, ok, post, ev) ==
  (~ok /\ op.k \notin {"sh", "py", "host", "cli", "fs"} /\ ~(op.k = "remove" /\ op.rec)) =>
     SameTree(pre.t, post.t) /\ Cwd(pre) = Cwd(post) /\ AdView(pre.ad) = AdView(post.ad) /\ ev = <<>>

(* C05: protected nodes *)
C05Direct(pre, op, ok, post) ==
  (op.k \notin ADMIN /\ op.k \notin {"sh", "py"}) =>
  \A q \in DOMAIN pre.t :
    LET n == pre.t[q]
        q2 == Follow(pre, op, ok, q)
        names(t, x) == {Name(y) : y \in Kids(t, x)}
    IN /\ (n.k = "f" /\ ~n.w /\ n.prv = "") => q2 \in DOMAIN post.t /\ post.t[q2].c = n.c /\ post.t[q2].v = n.v
       /\ (n.k = "f" /\ n.a /\ n.prv = "") => q2 \in DOMAIN post.t /\ StartsWith(post.t[q2].c, n.c)
       /\ (n.k = "d" /\ ~n.w /\ n.lz = "") => q2 \in DOMAIN post.t /\ names(post.t, q2) = names(pre.t, q)
       /\ (n.k = "d" /\ n.a /\ n.lz = "") => q2 \in DOMAIN post.t /\ names(pre.t, q) \subseteq names(post.t, q2)

(* the same for a shell command, which may move directories around: a protected file's
   text still exists somewhere under its name *)
C05Shell(pre, post) ==
  \A q \in DOMAIN pre.t :
    LET n == pre.t[q] IN
      (n.k = "f" /\ ~n.w /\ n.prv = "" /\ q # <<>>) =>
         \E q2 \in DOMAIN post.t : q2 # <<>> /\ Name(q2) = Name(q) /\ post.t[q2].k = "f" /\ post.t[q2].c = n.c /\ post.t[q2].v = n.v

(* C09: versions *)
C09Direct(pre, op, ok, post) ==
  (op.k \in QUERY => \A q \in DOMAIN pre.t : q \in DOMAIN post.t => post.t[q].v = pre.t[q].v)
  /\ (ok /\ op.k = "write" =>
        LET p == At(pre, op.p)
            old == IF p \in DOMAIN pre.t THEN pre.t[p].v ELSE 0
        IN p \in DOMAIN post.t /\ post.t[p].v = old + 1 /\ (op.ver # -1 => op.ver = old))
  /\ (op.k \notin ADMIN \union {"move", "remove", "sh", "py", "host"} =>
        \A q \in DOMAIN pre.t : (q \in DOMAIN post.t /\ pre.t[q].k = "f" /\ post.t[q].k = "f")
                                  => post.t[q].v >= pre.t[q].v)

(* C03: frame and effect of the tree operations *)
Touched(pre, op) ==      \* locations an API call may change
  LET p == At(pre, op.p) IN
  CASE op.k \in {"write", "touch", "mkdir"} -> {q \in {SubSeq(p, 1, i) : i \in 0..Len(p)} : q \notin DOMAIN pre.t} \union {p}
    [] op.k = "remove" -> Below(pre.t, p)
    [] op.k = "move" -> LET d == At(pre, op.p2) IN {q \in DOMAIN pre.t : IsPre(p, q)} \union {d, d \o <<IF p = <<>> THEN "" ELSE Name(p)>>}
    [] op.k = "copy" -> LET d == At(pre, op.p2) IN {d, d \o <<IF p = <<>> THEN "" ELSE Name(p)>>}
    [] OTHER -> {}
C03Direct(pre, op, ok, post) ==
  (op.k \in QUERY => SameTree(pre.t, post.t))
  /\ (op.k \in {"write", "touch", "mkdir", "remove"} =>
        \A q \in DOMAIN pre.t : q \notin Touched(pre, op) => q \in DOMAIN post.t /\ SameN(pre.t[q], post.t[q]))
  /\ (op.k \in {"write", "touch", "mkdir"} =>
        \A q \in DOMAIN post.t : q \notin Touched(pre, op) => q \in DOMAIN pre.t)
  /\ (ok /\ op.k = "write" => LET p == At(pre, op.p) IN
        p \in DOMAIN post.t /\ post.t[p].k = "f" /\ EndsWith(post.t[p].c, op.data)
        /\ (~op.app => post.t[p].c = op.data))
  /\ (op.k = "move" /\ ok =>
        LET s == At(pre, op.p) IN
        /\ \A q \in DOMAIN pre.t : LET q2 == Follow(pre, op, ok, q) IN q2 \in DOMAIN post.t /\ SameN(pre.t[q], post.t[q2])
        /\ Cardinality(DOMAIN post.t) = Cardinality(DOMAIN pre.t))
  /\ (op.k = "copy" =>
        \A q \in DOMAIN pre.t : (\A x \in Touched(pre, op) : ~IsPre(x, q)) => q \in DOMAIN post.t /\ SameN(pre.t[q], post.t[q]))
  /\ (op.k = "copy" /\ ok =>
        LET s == At(pre, op.p)
            d == At(pre, op.p2)
            to == IF IsD(pre.t, d) THEN Append(d, Name(s)) ELSE d
        IN \A q \in Below(pre.t, s) : LET q2 == Rebase(q, s, to) IN
             q2 \in DOMAIN post.t /\ post.t[q2].k = pre.t[q].k
             /\ (pre.t[q].prv = "" => post.t[q2].c = pre.t[q].c) /\ post.t[q2].md = pre.t[q].md)
  /\ (op.k = "remove" /\ ok => \A q \in DOMAIN post.t : ~IsPre(At(pre, op.p), q))

(* C10: write-through *)
C10Direct(pre, op, ok, post) ==
  /\ (ok /\ op.k = "write" /\ Mounted(pre, At(pre, op.p))) =>
       LET p == At(pre, op.p)
           id == AdOf(pre, p)
           rel == Rel(pre, p)
       IN rel \in DOMAIN post.ad[id].e /\ post.ad[id].e[rel].c = post.t[p].c
          /\ (post.ad[id].kind = "mem" => post.ad[id].e[rel].v = post.t[p].v)
  /\ (op.k \in {"write", "remove"}) =>
       \A id \in DOMAIN pre.ad : \A r \in DOMAIN pre.ad[id].e :
         (\A m \in DOMAIN pre.mnt : pre.mnt[m] = id => ~IsPre(At(pre, op.p), m \o RelPath(r)))
           => (pre.ad[id].e[r].x => r \in DOMAIN post.ad[id].e /\ post.ad[id].e[r].c = pre.ad[id].e[r].c)
  /\ (ok /\ op.k \in {"mount", "sync"}) =>
       LET m == At(pre, op.p)
           id == post.mnt[m]
           rels == {r \in DOMAIN post.ad[id].e : post.ad[id].e[r].x}
       IN /\ Files(post.t, Below(post.t, m)) = {m \o RelPath(r) : r \in rels}
          /\ \A r \in rels : post.t[m \o RelPath(r)].c = post.ad[id].e[r].c
          /\ \A q \in DOMAIN pre.t : (~IsPre(m, q)) => q \in DOMAIN post.t /\ SameN(pre.t[q], post.t[q])

(* C11: no write over a foreign change *)
C11Direct(pre, op, ok, post) ==
  (op.k = "write" /\ Mounted(pre, At(pre, op.p))) =>
    LET p == At(pre, op.p)
        id == AdOf(pre, p)
        rel == Rel(pre, p)
        a == pre.ad[id]
        foreign == rel \in DOMAIN a.e /\ a.e[rel].x
                   /\ (IF a.kind = "mem" THEN a.e[rel].v # (IF p \in DOMAIN pre.t THEN pre.t[p].v ELSE 0)
                       \* (a copy over the file, which is not written through (KF1), puts it out of step on its own)
                       ELSE a.e[rel].d /\ (p \in DOMAIN pre.t => pre.t[p].v <= a.e[rel].v))
    IN foreign => ~ok /\ post.ad[id].e[rel].c = a.e[rel].c
                  /\ (p \in DOMAIN pre.t => p \in DOMAIN post.t /\ post.t[p].c = pre.t[p].c)

(* C13: restore *)
C13Direct(pre, op, ok, post) ==
  (op.k = "restore" /\ op.id \in DOMAIN pre.snap) =>
     ok /\ LET s == pre.snap[op.id] IN
           DOMAIN post.t = DOMAIN s.t
           /\ \A p \in DOMAIN s.t : Same(s.t[p], post.t[p]) /\ s.t[p].ct = post.t[p].ct /\ s.t[p].mt = post.t[p].mt
           /\ (IsD(s.t, s.cwd) => Cwd(post) = s.cwd) /\ post.mnt = s.mnt

(* C14: hooks of an API call *)
C14Direct(pre, op, ok, ev) ==
  (op.k \notin {"write", "remove", "sh", "py", "host", "cli", "move", "copy", "touch"} => ev = <<>>)
  /\ (~ok /\ op.k \notin {"sh", "py", "host"} /\ ~(op.k = "remove" /\ op.rec) => ev = <<>>)
  /\ (ok /\ op.k = "write" =>
        LET p == At(pre, op.p)
            due == SelectSeq(pre.hk, LAMBDA h : IsPre(h.p, p))
        IN Len(ev) = Len(due)
           /\ \A i \in DOMAIN due : Cardinality({j \in DOMAIN ev : ev[j][2] = due[i].id})
                                      = Cardinality({j \in DOMAIN due : due[j].id = due[i].id}))

-----------------------------------------------------------------------------
(* The remaining properties relate an operation to another evaluation of the specification
   (two runs that must agree), or constrain its result. *)

(* every state is a tree: each node hangs in a directory, and so does the current directory *)
WF(s) == /\ IsD(s.t, <<>>)
         /\ \A p \in DOMAIN s.t : p # <<>> => IsD(s.t, Parent(p))
         /\ \A p \in DOMAIN s.t : s.t[p].v >= 0
         /\ IsD(s.t, s.cw)

(* C01: nothing is started on the host unless the shell was given the host fallback *)
C01Direct(pre, op, e) == e.spawn = 0 \/ op.k = "host" \/ (op.k = "sh" /\ pre.sh[op.id].fb)

(* C02: the spelling of a path does not matter *)
Spellings(s, p) ==
  LET abs == PathStr(p)
      rel == LET c == Cwd(s)
                 k == CHOOSE k \in 0..Len(c) : (k <= Len(p) /\ SubSeq(c, 1, k) = SubSeq(p, 1, k))
                        /\ \A m \in 0..Len(c) : (m <= Len(p) /\ SubSeq(c, 1, m) = SubSeq(p, 1, m)) => m <= k
             IN Join([i \in 1..(Len(c) - k) |-> ".."] \o SubSeq(p, k + 1, Len(p)), "/")
  IN {abs, "/" \o abs, abs \o "/", "/.." \o abs, "/." \o abs, "/zz/.." \o abs, abs \o "/.", abs \o "/q/..",
      IF rel = "" THEN "." ELSE rel, "./" \o rel, Join(<<"..", IF Cwd(s) = <<>> THEN "" ELSE Name(Cwd(s)), rel>>, "/")}
PATHOPS == {"read", "write", "mkdir", "touch", "remove", "move", "copy", "cd", "exists", "isdir", "isfile", "version", "ls",
            "tree", "walk", "files", "setpol"}
C02Direct(pre, op, e) ==
  (op.k \in PATHOPS) =>
     /\ \A sp \in Spellings(pre, At(pre, op.p)) : At(pre, sp) = At(pre, op.p) /\ Apply(pre, [op EXCEPT !.p = sp]) = e
     /\ op.k \in {"move", "copy"} => \A sp \in Spellings(pre, At(pre, op.p2)) : Apply(pre, [op EXCEPT !.p2 = sp]) = e

LineSet(r) == IF r.mode = "bag" THEN SeqSet(r.out)
            ELSE IF r.out \in {<<>>, <<"">>} THEN {} ELSE SeqSet(Split(r.out[1], LF))
BagSame(f, e) == f.out = e.out \/ (f.mode # "seq" /\ e.mode # "seq" /\ LineSet(f) = LineSet(e) /\ Len(f.out) = Len(e.out))

(* commands that only look *)
Looks(op) == op.k \in QUERY \/ (op.k = "sh" /\ op.ro)

(* C06: what an unreadable file contains makes no difference to what comes out *)
Blank(c) == Join([i \in 1..Len(c) |-> "#"], "")
Blinded(s) == [s EXCEPT !.t = [p \in DOMAIN @ |-> IF @[p].k = "f" /\ ~@[p].r THEN [@[p] EXCEPT !.c = Blank(@)] ELSE @[p]]]
C06Direct(pre, op, e) ==
  (Looks(op) /\ op.k # "export") => LET f == Apply(Blinded(pre), op) IN f.ok = e.ok /\ f.out = e.out

(* C07: what a view hides makes no difference to what comes out: hidden files may hold anything,
   hidden nodes without visible descendants may as well not be there *)
ViewOf(s, op) == IF op.k = "sh" THEN s.sh[op.id].view ELSE DecView(op.view)
Stripped(s, view) ==
  LET hid(p) == p # <<>> /\ ~AllowsNode(view, p, s.t[p])
                \* metadata filters leave directories navigable
                /\ ~(view.md.on /\ s.t[p].k = "d" /\ Allows(view, s.t[p]) /\ InPrefixes(view, p))
      gone == {p \in DOMAIN s.t : \A q \in Below(s.t, p) : hid(q)}
              \ {p \in DOMAIN s.t : IsPre(p, s.cw) \/ (s.sv.on /\ IsPre(p, s.sv.p))}
  IN [s EXCEPT !.t = [p \in DOMAIN @ \ gone |->
        IF @[p].k = "f" /\ hid(p) THEN [@[p] EXCEPT !.c = "", !.v = 0] ELSE @[p]]]
C07Direct(pre, op, e) ==
  ((op.k = "sh" /\ op.ro) \/ (op.k \in {"ls", "tree", "glob", "search"} /\ ~op.view.full)) =>
     LET f == Apply(Stripped(pre, ViewOf(pre, op)), op)
     IN (op.k = "sh" => f.ok = e.ok) /\ (e.ok /\ f.ok => BagSame(f, e))

(* C08: through a view no node it hides is changed, and nothing outside its prefixes *)
C08Direct(pre, op, e) ==
  op.k = "sh" =>
    LET v == pre.sh[op.id].view IN
    /\ \A q \in DOMAIN pre.t : (~AllowsNode(v, q, pre.t[q]) /\ q \in DOMAIN e.st.t /\ ~(v.md.on /\ pre.t[q].k = "d"))
                                 => SameN(pre.t[q], e.st.t[q])
    \* cp and mv into a directory that leads to a prefix put the node beside that prefix
    /\ (~HasSub(op.text, "cp ") /\ ~HasSub(op.text, "mv ")) =>
         \A q \in DOMAIN e.st.t : (q \notin DOMAIN pre.t /\ ~InSearchView(pre, q)) => InPrefixes(v, q)

(* C15: the front ends report the same lines for the same question (same view, same place);
   asked of every state the model reaches *)
C15Direct(pre, op, e) ==
  op.k = "search" =>
    \A id \in DOMAIN e.st.sh :
      LET s == e.st
          sh == s.sh[id]
          pat == op.q
          at == At(s, op.p)
          P == PathStr(at)
          flags == (IF op.regex THEN <<"-e">> ELSE <<>>) \o (IF op.ic THEN <<"-i">> ELSE <<>>) \o <<"-n">>
          api == Search(s, pat, op.regex, op.ic, at, sh.view)
          g == CmdGrep(s, sh, flags \o <<pat, P>>, "", TRUE)
          c == CmdSearch(s, sh, flags \o <<pat, P>>)
          ref == SetToSeq(UNION {LET h == FileHits(s, p, pat, op.regex, op.ic) IN {HitStr(p, h[j], TRUE) : j \in DOMAIN h} :
                    p \in {q \in Files(s.t, Below(s.t, at)) : s.t[q].r /\ AllowsNode(sh.view, q, s.t[q]) /\ ~InSearchView(s, q)}})
      IN (at \in DOMAIN s.t /\ s.t[at].r /\ ~IdxStale(s, DOMAIN s.t \ {p \in DOMAIN s.t : s.t[p].k = "d"}) /\ api.ok) =>
           /\ LineSet(api) = SeqSet(ref) /\ LineSet(c) = SeqSet(ref)
           /\ (g.ok /\ ~s.sv.on) => LineSet(g) = SeqSet(ref)

(* C16: a text of several lines is its first line followed by the rest, and nothing follows a failure *)
C16Direct(pre, op, e) ==
  (op.k = "sh" /\ ~pre.sv.on) =>
    LET L == SelectSeq([i \in 1..Len(SplitLines(op.text)) |-> Strip(SplitLines(op.text)[i])], LAMBDA l : l # "")
        one == Exec(pre, op.id, L[1])
        two == Exec(one.st, op.id, Join(Tail(L), LF))
    IN Len(L) > 1 =>
         IF ~one.ok THEN e = one
         ELSE e.ok = two.ok /\ e.st = two.st /\ e.out = two.out /\ e.err = two.err /\ e.ev = one.ev \o two.ev

(* C17: with an allow-list only listed commands ever run; a limit bounds the output *)
C17Direct(pre, op, e) ==
  op.k = "sh" =>
    LET sh == pre.sh[op.id]
        pl == ParseLine(op.text)
    IN /\ (sh.lim # -1 /\ e.ok /\ e.mode \in {"seq", "bag"}) => Utf8Len(TextOf(e)) + Utf8Len(e.err) <= sh.lim
       /\ (sh.allow.on /\ Len(SplitLines(op.text)) = 1 /\ pl.ok /\ e.ok) =>
            \A i \in DOMAIN pl.stages : pl.stages[i].name = <<>> \/ Expand(pl.stages[i].name[1], AsgEnv(sh.env, pl.stages[i].asg)) \in sh.allow.s
       /\ (sh.allow.on /\ sh.allow.s = {} /\ pl.ok) => e.st.t = pre.t /\ e.spawn = 0
(* C19: the tree afterwards is the one the command left, and what it did not touch is the same node *)
C19Direct(pre, op, e) ==
  (op.k = "host" /\ e.ok) =>
    LET H == HEdits(CopyOf(pre), op.edits, 1)
        C == CopyOf(pre)
    IN /\ CopyOf(e.st) = H
       /\ \A p \in DOMAIN H : (p \in DOMAIN C /\ C[p] = H[p] /\ ~\E i \in 0..Len(op.edits) : \E j \in 0..Len(p) :
              LET G == HEdits(C, SubSeq(op.edits, 1, i), 1)
                  q == SubSeq(p, 1, j)
              IN q \notin DOMAIN G \/ G[q].k # C[q].k) => p \in DOMAIN e.st.t /\ e.st.t[p] = pre.t[p]
       /\ \A k \in DOMAIN e.ev : \E p \in DOMAIN C \union DOMAIN H : PathStr(p) = e.ev[k][3] /\ ~(p \in DOMAIN C /\ p \in DOMAIN H /\ C[p] = H[p])
(* C22: what a snippet does to the tree is what its filesystem calls do, and nothing of it is left for the next one *)
FsCalls == {"write", "append", "remove", "mkdir", "move", "cd"}
C22Direct(pre, op, e) ==
  (op.k = "py" /\ ~\E i \in DOMAIN op.code : op.code[i].s \in FsCalls) =>
     (op.how # "redir" => e.st = pre /\ e.ev = <<>>)

=============================================================================
