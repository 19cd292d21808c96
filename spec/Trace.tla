-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: recorded histories of the implementation checked against   *)
(* the specification.  Every history is one behaviour; step i consumes the *)
(* i-th recorded call.  The state before the call is the observed one, so  *)
(* each call is judged on its own; every disagreement is written out with  *)
(* the names of the failing clauses, and the observed state is adopted so  *)
(* that the rest of the history is still checked.                          *)
(***************************************************************************)
EXTENDS Props, CSV

HistFile == IOEnv.SANDFS_TRACE
OutFile == IOEnv.SANDFS_OUT
Hist == JsonDeserialize(HistFile)

VARIABLES h, i, st
vars == <<h, i, st>>

TraceInit == h \in 1..Len(Hist) /\ i = 1 /\ st = Init0

-----------------------------------------------------------------------------
(* observed state *)
TreeOf(q) == [p \in {q[j].p : j \in DOMAIN q} |-> DecNode(q[CHOOSE j \in DOMAIN q : q[j].p = p].n)]
AdObs(id, ad) == LET j == CHOOSE j \in DOMAIN ad : ad[j].id = id IN ad[j].e
(* the back end as observed, keeping what only the adapter knows *)
AdMerge(exp, q) ==
  LET rels == {q[j][1] : j \in DOMAIN q}
      row(r) == q[CHOOSE j \in DOMAIN q : q[j][1] = r]
  IN IF exp.kind = "mem" THEN [exp EXCEPT !.e = [r \in rels |-> Entry(row(r)[2], row(r)[3])]]
     ELSE [exp EXCEPT !.e = [r \in rels \union {x \in DOMAIN exp.e : ~exp.e[x].x} |->
              IF r \in rels THEN IF r \in DOMAIN exp.e THEN [exp.e[r] EXCEPT !.c = row(r)[2], !.x = TRUE]
                                 ELSE [c |-> row(r)[2], v |-> -1, d |-> FALSE, x |-> TRUE]
              ELSE exp.e[r]]]
AdSame(a, b) == /\ {r \in DOMAIN a.e : a.e[r].x} = {r \in DOMAIN b.e : b.e[r].x}
                /\ \A r \in DOMAIN a.e : a.e[r].x => a.e[r].c = b.e[r].c /\ (a.kind = "mem" => a.e[r].v = b.e[r].v)

BagEq(a, b) == Len(a) = Len(b) /\ \A x \in SeqSet(a) \union SeqSet(b) :
                 Cardinality({j \in DOMAIN a : a[j] = x}) = Cardinality({j \in DOMAIN b : b[j] = x})
(* a bag of result lines against one text *)
TextBag(lines, txt) == BagEq(lines, IF txt = "" /\ lines = <<>> THEN <<>> ELSE Split(txt, LF))
OutOk(e, op, out) ==
  CASE e.mode = "any" -> TRUE
    [] e.mode = "pre" -> Len(out) = 1 /\ StartsWith(out[1], e.out[1])
    [] e.mode = "bag" -> IF op.k = "sh" THEN Len(out) = 1 /\ TextBag(e.out, out[1]) ELSE BagEq(e.out, out)
    [] OTHER -> e.out = out
OfKind(ev, k) == SelectSeq(ev, LAMBDA x : x[1] = k)
EvOk(e, op, ev) ==
  IF op.k \in {"remove", "sh", "host", "py"} THEN BagEq(e.ev, ev)
  ELSE OfKind(e.ev, "w") = OfKind(ev, "w") /\ OfKind(e.ev, "p") = OfKind(ev, "p")

-----------------------------------------------------------------------------
Lazies(s) == \E p \in DOMAIN s.t : s.t[p].lz # ""

(* which properties a disagreement speaks about *)
Odd(t) == \E p \in DOMAIN t : ~t[p].w \/ t[p].a
Veiled(t) == \E p \in DOMAIN t : ~t[p].r
Viewed(s, op) == IF op.k = "sh" THEN LET v == s.sh[op.id].view IN
                    v.cls.on \/ v.prn.on \/ v.pfx.on \/ v.md.on \/ \E p \in DOMAIN s.t : s.t[p].pr # {}
                 ELSE op.k \in {"ls", "tree", "glob", "search"} /\ ~op.view.full
Limited(s, op) == op.k = "sh" /\ (s.sh[op.id].allow.on \/ s.sh[op.id].lim # -1)
Provided(s) == \E p \in DOMAIN s.t : s.t[p].prv # "" \/ s.t[p].lz # ""
Searchy(op) == op.k = "search" \/ (op.k = "sh" /\ \E w \in {"grep", "rg", "search", "@"} : HasSub(op.text, w))
Storage(op) == op.k \in {"mount", "sync", "extw", "extd", "newad", "arm"}
Whose(s, op, R0) ==       \* R0: the base properties; plus those the situation involves
  R0 \union (IF Viewed(s, op) THEN {"C07", "C08"} ELSE {})
     \union (IF Limited(s, op) THEN {"C17"} ELSE {})
     \union (IF Provided(s) THEN {"C21"} ELSE {})
     \union (IF Searchy(op) THEN {"C15"} ELSE {})
     \union (IF Veiled(s.t) THEN {"C06"} ELSE {})
     \union (IF op.k = "sh" THEN {"C18"} ELSE {})
     \union (IF op.k \in {"restore", "snap"} \/ (DOMAIN s.snap # {} /\ (Storage(op) \/ HasSub(IF op.k = "sh" THEN op.text ELSE "", "@"))) THEN {"C13"} ELSE {})
     \union (IF op.k = "export" THEN {"C20"} ELSE {})
Base(op) == IF op.k \in {"search"} THEN {"C15"} ELSE IF op.k \in {"restore", "snap"} THEN {"C13"}
            ELSE IF op.k = "sh" THEN {"C18"} ELSE IF Storage(op) THEN {"C10"}
            ELSE IF op.k = "export" THEN {"C20"} ELSE {"C03"}
ByReason(why) ==
  CASE why = "policy" -> {"C05"}
    [] why = "version" -> {"C09"}
    [] why = "conflict" -> {"C11"}
    [] why = "hidden" -> {"C07", "C08"}
    [] why = "unreadable" -> {"C06"}
    [] why \in {"disallowed", "limit"} -> {"C17"}
    [] why = "fault" -> {"C10", "C04"}
    [] why = "provider" -> {"C21"}
    [] why \in {"parse", "usage", "unknown", "glob", "host", "format", "pattern"} -> {"C16"}
    [] why = "searchview" -> {"C08"}
    [] OTHER -> {"C03"}
Tag(S, clause) == {x \o ":" \o clause : x \in S}

(* a recursive remove that stopped below p: what is left is part of what was there, every
   protected node and its ancestors survive, and back ends and hooks agree with what went *)
PartOk(pre, p, post, ev) ==
  LET gone == DOMAIN pre.t \ DOMAIN post.t
      gf == Files(pre.t, gone)
      want == FlattenSeq([j \in 1..Cardinality(gf) |-> DeleteEv(pre, SetToSeq(gf)[j])])
  IN /\ DOMAIN post.t \subseteq DOMAIN pre.t
     /\ \A q \in DOMAIN post.t : SameN(pre.t[q], post.t[q])
     /\ \A q \in gone : IsPre(p, q) /\ ~Protected(pre.t[q]) /\ \A x \in Below(pre.t, q) : x \in gone
     /\ p \notin gone
     /\ BagEq(want, ev)
     /\ \A id \in DOMAIN pre.ad : AdSame(Unstore(pre, gf).ad[id], post.ad[id])

(* aspects in which two trees differ *)
DiffTags(pre, op, exp, obs, ok) ==
  LET D == DOMAIN exp \union DOMAIN obs
      bad == {p \in D : ~(p \in DOMAIN exp /\ p \in DOMAIN obs /\ Same(exp[p], obs[p]))}
      veronly == {p \in bad : p \in DOMAIN exp /\ p \in DOMAIN obs /\ Same(exp[p], [obs[p] EXCEPT !.v = exp[p].v])}
      prot == {p \in bad : p \in DOMAIN pre.t /\ Protected(pre.t[p])}
      prov == {p \in bad : (p \in DOMAIN pre.t /\ (pre.t[p].prv # "" \/ pre.t[p].lz # ""))
                           \/ (p \in DOMAIN exp /\ exp[p].prv # "")}
      mnted == {p \in bad : Mounted(pre, p)}
      both == bad \intersect DOMAIN exp \intersect DOMAIN obs
  IN IF bad = {} THEN {}
     ELSE (IF bad # veronly THEN Tag(Whose(pre, op, Base(op) \union {"C03"}), "tree") ELSE {})
          \union (IF \E p \in bad : p \in DOMAIN exp /\ p \in DOMAIN obs /\ exp[p].v # obs[p].v
                  THEN Tag({"C09"} \union (IF op.k \in {"restore"} THEN {"C13"} ELSE {})
                                   \union (IF mnted # {} THEN {"C10"} ELSE {})
                                   \union (IF mnted # {} /\ op.k \in {"sync", "mount", "write"} THEN {"C11"} ELSE {}), "version") ELSE {})
          \union (IF \E p \in both : exp[p].w # obs[p].w \/ exp[p].a # obs[p].a THEN {"C05:protection"} ELSE {})
          \union (IF \E p \in both : exp[p].r # obs[p].r THEN {"C06:protection"} ELSE {})
          \union (IF \E p \in both : exp[p].cls # obs[p].cls \/ exp[p].pr # obs[p].pr THEN {"C07:protection"} ELSE {})
          \union (IF prot # {} /\ op.k \notin ADMIN THEN {"C05:tree"} ELSE {})
          \union (IF prov # {} THEN {"C21:tree"} ELSE {})
          \union (IF mnted # {} THEN {"C10:tree"} ELSE {})
          \union (IF ~ok THEN {"C04:tree"} ELSE {})

-----------------------------------------------------------------------------
(* one recorded step *)
Observed(e, o, arm) ==      \* state after the step: expected state with the observed parts put in
  LET keep(p, n) == [n EXCEPT !.prv = IF p \in DOMAIN e.st.t /\ n.k = "f" THEN e.st.t[p].prv ELSE "", !.lz = ""]
      t1 == IF ~o.has THEN e.st.t ELSE IF o.same THEN st.t ELSE TreeOf(o.t)
      t2 == IF ~o.has THEN t1 ELSE [p \in DOMAIN t1 |-> keep(p, t1[p])]
      cwOk == ~o.has \/ Cwd(e.st) = o.cwd
      live == CHOOSE k \in 0..Len(o.cwd) : IsD(t2, SubSeq(o.cwd, 1, k))
                 /\ \A m \in (k + 1)..Len(o.cwd) : ~IsD(t2, SubSeq(o.cwd, 1, m))
  IN [e.st EXCEPT !.t = t2, !.arm = SeqSet(arm),       \* which faults are still to come is known from the faulty back ends
                  !.cw = IF cwOk THEN @ ELSE SubSeq(o.cwd, 1, live),
                  !.cs = IF cwOk THEN @ ELSE SubSeq(o.cwd, live + 1, Len(o.cwd)),
                  !.ad = IF ~o.has THEN @ ELSE [id \in DOMAIN @ |-> AdMerge(@[id], AdObs(id, o.ad))]]

(* what every call must satisfy, whatever it does *)
Always(pre, op, res) ==
  (IF res.raised /\ op.k \in {"sh", "host"} THEN {"C16:raised", "C19:raised"} ELSE {})
  \union (IF ~res.ok /\ op.k = "sh" /\ ~res.said THEN {"C16:silent"} ELSE {})
  \union (IF op.k = "sh" /\ pre.sh[op.id].lim # -1 /\ Len(res.out) = 1
             /\ (Utf8Len(res.out[1]) > pre.sh[op.id].lim \/ (IF res.ok THEN Utf8Len(res.out[1]) + res.errlen > pre.sh[op.id].lim
                                                             ELSE res.errlen > Max({200, pre.sh[op.id].lim})))
          THEN {"C17:limit"} ELSE {})
  \union (IF res.host # <<>> THEN {"C01:host"} ELSE {})
  \union (IF op.k \in {"export", "host"} /\ \E j \in DOMAIN res.out : StartsWith(res.out[j], "!left")     \* a temporary copy outlives the call
          THEN {"C20:left", "C19:left", "C01:left"} ELSE {})

(* move, copy and touch are not written through and fire no hooks (known findings of C10 and C14).  Should they
   do so one day, only the entries and files they changed may be concerned. *)
Differs(a, b) == {p \in DOMAIN a \union DOMAIN b : ~(p \in DOMAIN a /\ p \in DOMAIN b /\ SameN(a[p], b[p]))}
AdFollows(pre, post, exp, got, id) ==
  LET D == Differs(pre.t, post.t)
      on(a, r) == r \in DOMAIN a.e /\ a.e[r].x
      rels == {r \in DOMAIN exp.e \union DOMAIN got.e :
                 ~(on(exp, r) = on(got, r) /\ (on(exp, r) => exp.e[r].c = got.e[r].c /\ (exp.kind = "mem" => exp.e[r].v = got.e[r].v)))}
  IN \A r \in rels : \E m \in DOMAIN pre.mnt : pre.mnt[m] = id /\ m \o RelPath(r) \in D
EvFollows(pre, post, e, ev, seen) ==
  LET D == {PathStr(p) : p \in Differs(pre.t, post.t)} IN
  \A j \in DOMAIN ev : (seen /\ ev[j][3] \in D) \/ \E k \in DOMAIN e.ev : e.ev[k] = ev[j]

(* looking at the whole tree asks every directory provider that was not asked yet *)
RECURSIVE LoadAll(_)
LoadAll(s) == LET L == {p \in DOMAIN s.t : s.t[p].lz # "" /\ ~s.dprov[s.t[p].lz].bad} IN
              IF L = {} THEN s ELSE LoadAll(LoadLazy(s, CHOOSE p \in L : TRUE))

Judge(pre, op, e, res, o, post) ==
  LET ok == res.ok
      expt == IF o.has THEN [p \in DOMAIN e.st.t |-> IF e.st.t[p].k = "f" /\ e.st.t[p].prv # ""
                              THEN [e.st.t[p] EXCEPT !.c = IF BadAt(e.st, p) THEN "~error" ELSE TextAt(e.st, p)]
                              ELSE e.st.t[p]]
              ELSE e.st.t
      prev == [p \in DOMAIN pre.t |-> pre.t[p]]
      relocates == op.k \in {"move", "copy", "touch"} \/ (op.k = "sh" /\ \E w \in {"mv", "cp", "touch"} : HasSub(op.text, w))
  IN  (* result *)
      (IF e.ok /\ ~ok THEN Tag(Whose(pre, op, Base(op) \union (IF op.k = "sh" THEN {"C16"} ELSE {})
                                 \union (IF Odd(pre.t) /\ op.k \notin QUERY THEN {"C05"} ELSE {})
                                 \union (IF op.k = "write" /\ op.ver # -1 THEN {"C09"} ELSE {})
                                 \union (IF op.k = "write" /\ Mounted(pre, At(pre, op.p)) THEN {"C10", "C11"} ELSE {})), "refused") ELSE {})
      \union (IF ~e.ok /\ ok THEN Tag(ByReason(e.why) \union (IF op.k = "sh" THEN {"C16"} ELSE {})
                                 \union (IF Viewed(pre, op) THEN {"C07", "C08"} ELSE {}), "accepted:" \o e.why) ELSE {})
      \union (IF e.ok /\ ok /\ ~OutOk(e, op, res.out) THEN Tag(Whose(pre, op, Base(op)), "out") ELSE {})
      \union (IF e.ok /\ ok /\ op.k = "sh" /\ e.mode # "any" /\ e.err # res.errtxt THEN Tag(Whose(pre, op, {"C16", "C18"}), "stderr") ELSE {})
      (* state *)
      \union (IF ~o.has THEN {}
              ELSE IF e.part[1] THEN IF ok \/ PartOk(IF Lazies(pre) THEN LoadAll(pre) ELSE pre, e.part[2], post, res.ev) THEN {}
                                     ELSE {"C05:part", "C03:part", "C10:part", "C14:part", "C04:part"}
              ELSE DiffTags(pre, op, expt, post.t, ok)
                   \union (IF op.k = "restore" /\ ok /\ ~C13Direct(pre, op, ok, post) THEN {"C13:restore"} ELSE {})
                   \union (IF Cwd(e.st) # o.cwd THEN Tag(Whose(pre, op, {"C03", "C02"}), "cwd") ELSE {})
                   \union (IF (\A id \in DOMAIN e.st.ad : AdSame(e.st.ad[id], post.ad[id])
                                \/ (relocates /\ ok /\ AdFollows(pre, post, e.st.ad[id], post.ad[id], id))) THEN {}
                           ELSE Tag({"C10"} \union (IF ~ok THEN {"C04"} ELSE {})
                                            \union (IF e.why = "conflict" THEN {"C11"} ELSE {}), "storage")))
      \union (IF e.part[1] \/ EvOk(e, op, res.ev) \/ (relocates /\ ok /\ EvFollows(pre, post, e, res.ev, o.has)) THEN {}
              ELSE Tag({"C14"} \union (IF ~ok THEN {"C04"} ELSE {}), "events"))
      \union (IF res.spawn # e.spawn THEN {"C01:spawn", "C17:spawn"} ELSE {})
      (* the properties themselves, on the observed step *)
      \union (IF ~o.has \/ Lazies(pre) THEN {} ELSE
           (IF C04Direct(pre, op, ok, post, res.ev) THEN {} ELSE {"C04:direct"})
           \union (IF C05Direct(pre, op, ok, post) THEN {} ELSE {"C05:direct"})
           \union (IF op.k # "sh" \/ C05Shell(pre, post) THEN {} ELSE {"C05:direct"})
           \union (IF C09Direct(pre, op, ok, post) THEN {} ELSE {"C09:direct"})
           \union (IF Provided(pre) \/ C03Direct(pre, op, ok, post) THEN {} ELSE {"C03:direct"})
           \union (IF C10Direct(pre, op, ok, post) THEN {} ELSE {"C10:direct"})
           \union (IF C11Direct(pre, op, ok, post) THEN {} ELSE {"C11:direct"})
           \union (IF relocates \/ C14Direct(pre, op, ok, res.ev) THEN {} ELSE {"C14:direct"}))

(* a disagreement about a host command or a snippet speaks about the bridge or the executor *)
Bridge(op, tags) == IF tags = {} \/ op.k \notin {"host", "py"} THEN tags
                    ELSE tags \union {(IF op.k = "host" THEN "C19" ELSE "C22") \o ":" \o SubSeq(t, 5, Len(t)) : t \in tags}

(* directory providers that were asked during the step, in order *)
RECURSIVE Loads(_, _, _)
Loads(s, calls, j) ==
  IF j > Len(calls) THEN s
  ELSE LET c == calls[j] IN
       IF c.ok /\ c.p \in DOMAIN s.t /\ s.t[c.p].lz = c.id THEN Loads(LoadLazy(s, c.p), calls, j + 1)
       ELSE Loads(s, calls, j + 1)
(* a provider is asked at most once per mount, and only when its entries matter *)
RECURSIVE LoadsOk(_, _, _, _)
MayLoad(s, op, p) ==
  \/ op.k \in {"walk", "files", "snap", "search", "sh", "glob", "tree", "index", "export", "restore", "mount", "sync"}
  \/ op.k \in {"write", "read", "mkdir", "touch", "remove", "cd", "exists", "isdir", "isfile", "version", "ls",
               "setpol", "mountfile", "mountdir", "sview", "pokepol", "pokemd", "pokeprin"} /\ IsPre(p, At(s, op.p))
  \/ op.k \in {"move", "copy"} /\ (IsPre(p, At(s, op.p)) \/ IsPre(At(s, op.p), p) \/ IsPre(p, At(s, op.p2)))
  \/ op.k = "remove" /\ IsPre(At(s, op.p), p)
  \/ s.idx
LoadsOk(s, op, calls, j) ==
  IF j > Len(calls) THEN TRUE
  ELSE LET c == calls[j] IN
       /\ c.p \in DOMAIN s.t /\ s.t[c.p].lz = c.id /\ MayLoad(s, op, c.p)
       /\ LoadsOk(IF c.ok THEN LoadLazy(s, c.p) ELSE s, op, calls, j + 1)

Step ==
  /\ i <= Len(Hist[h].steps)
  /\ LET rec == Hist[h].steps[i]
         op == rec.op
         res == rec.res
         pre == Loads(st, res.calls, 1)
         lazyFail == \E j \in DOMAIN res.calls : ~res.calls[j].ok
         e0 == IF lazyFail THEN Fail(pre, "provider") ELSE Apply(pre, op)
         full == IF rec.obs.has /\ Lazies(e0.st) THEN LoadAll(e0.st) ELSE e0.st
         o == IF rec.obs.has /\ Lazies(full) THEN [rec.obs EXCEPT !.has = FALSE] ELSE rec.obs
         e == [e0 EXCEPT !.st = full]
         post == Observed(e, o, res.arm)
         tags == Always(pre, op, res)
                 \union Bridge(op, IF e.taint \/ st.blind THEN {} ELSE Judge(pre, op, e, res, o, post))
                 \union (IF op.k = "host" /\ e.taint /\ o.has /\ ~st.blind /\ ~HostPart(pre, op, res.ok, post) THEN {"C19:part"} ELSE {})
                 \union (IF st.blind \/ LoadsOk(st, op, res.calls, 1) THEN {} ELSE {"C21:load"})
         (* which versions a host-directory back end has seen is not known after an undetermined change *)
         lost == e.taint /\ o.has /\ (\E id \in DOMAIN st.ad : st.ad[id].kind = "fs") /\ (post.t # st.t \/ post.ad # st.ad)
     IN /\ st' = IF lost \/ (~rec.obs.has /\ (e.part[1] \/ (e.taint /\ op.k = "sh" /\ Lazies(st)))) THEN [post EXCEPT !.blind = TRUE] ELSE post
        /\ IF tags = {} THEN TRUE
           ELSE CSVWrite("%1$s", <<ToJson([h |-> Hist[h].id, i |-> i, tags |-> SetToSeq(tags), ok |-> e.ok,
                                           why |-> e.why, out |-> IF e.mode = "any" THEN <<>> ELSE e.out])>>, OutFile)
  /\ i' = i + 1
  /\ h' = h
TraceNext == Step
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
