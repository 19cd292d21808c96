--------------------------------- MODULE Host ---------------------------------
(***************************************************************************)
(* The host bridge: the tree is written to a temporary directory, a host   *)
(* command runs there, and what it left is brought back.  The command is   *)
(* given by what it does to the copy (edits):                              *)
(*   <<"put", path, text>>  <<"dir", path, "">>  <<"del", path, "">>       *)
(*   <<"mv", path, path>>                                                  *)
(***************************************************************************)
EXTENDS Shell

(* the copy: path -> [k, c] *)
CopyOf(st) == [p \in DOMAIN st.t |-> [k |-> st.t[p].k, c |-> IF st.t[p].k = "f" THEN TextAt(st, p) ELSE ""]]
HDir == [k |-> "d", c |-> ""]
(* make p and its ancestors directories, replacing files *)
HChain(H, p) == LET pre == {SubSeq(p, 1, i) : i \in 0..Len(p)}
                IN [q \in DOMAIN H \union pre |-> IF q \in pre THEN HDir ELSE H[q]]
HEdit(H, e) ==
  LET p == Norm(<<>>, e[2]) IN
  CASE p = <<>> -> H
    [] e[1] = "put" -> LET C == HChain(H, Parent(p))
                       IN Put(Drop(C, Below(C, p)), p, [k |-> "f", c |-> e[3]])
    [] e[1] = "dir" -> HChain(H, p)
    [] e[1] = "del" -> Drop(H, Below(H, p))
    [] e[1] = "mv" -> LET q == Norm(<<>>, e[3]) IN
                      IF p \in DOMAIN H /\ q \notin DOMAIN H /\ IsD(H, Parent(q)) /\ ~IsPre(p, q)
                      THEN MoveTree(H, p, q) ELSE H
RECURSIVE HEdits(_, _, _)
HEdits(H, es, i) == IF i > Len(es) THEN H ELSE HEdits(HEdit(H, es[i]), es, i + 1)

-----------------------------------------------------------------------------
(* Arguments: sandbox paths become paths of the copy, written ROOT/... here.  A path starts a word or follows
   an option such as -I; it counts if it exists, or if its parent is a directory below the root. *)
PCH == ToSet(Tbl.alnum) \union {".", "_", "-", "/"}
RootPath(text, p) == LET r == "ROOT" \o (IF p = <<>> THEN "" ELSE PathStr(p))
                     IN IF EndsWith(text, "/") /\ ~EndsWith(r, "/") THEN r \o "/" ELSE r
Eligible(st, p) == p \in DOMAIN st.t \/ (p # <<>> /\ Parent(p) # <<>> /\ IsD(st.t, Parent(p)))
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in PCH THEN RunEnd(s, i + 1) ELSE i
MapRun(st, run, before) ==
  LET sl == FindCh(run, "/", 1)
      flag == SubSeq(run, 1, sl - 1)
      cand == From(run, sl)
  IN IF sl = 0 \/ (sl > 1 /\ Ch(run, 1) # "-") \/ Len(cand) < 2 THEN run
     ELSE IF StartsWith(cand, "//") /\ (flag \o before) = ":" THEN run
     ELSE IF Eligible(st, Norm(<<>>, cand)) THEN flag \o RootPath(cand, Norm(<<>>, cand)) ELSE run
RECURSIVE MapFrom(_, _, _)
MapFrom(st, s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) \notin PCH THEN Ch(s, i) \o MapFrom(st, s, i + 1)
  ELSE LET e == RunEnd(s, i) IN MapRun(st, SubSeq(s, i, e - 1), IF i = 1 THEN "" ELSE Ch(s, i - 1)) \o MapFrom(st, s, e)
MapTok(st, s) == IF StartsWith(s, "/") /\ ~StartsWith(s, "//") /\ Norm(<<>>, s) \in DOMAIN st.t
                 THEN RootPath(s, Norm(<<>>, s)) ELSE MapFrom(st, s, 1)

-----------------------------------------------------------------------------
(* Bringing the copy back: every node of the copy in path order, then the nodes that vanished *)
PathLt(a, b) == LET i == CHOOSE i \in 1..(Len(a) + 1) : (i > Len(a) \/ i > Len(b) \/ a[i] # b[i])
                                                        /\ \A j \in 1..(i - 1) : j <= Len(a) /\ j <= Len(b) /\ a[j] = b[j]
                IN IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE StrLt(a[i], b[i])
Then(r, r2) == [r2 EXCEPT !.ev = r.ev \o @]
BackOne(r, H, p) ==
  LET st == r.st
      swap == p \in DOMAIN st.t /\ st.t[p].k # H[p].k
      r1 == IF swap THEN Then(r, Delete(st, p, TRUE)) ELSE r
  IN IF ~r1.ok THEN r1
     ELSE IF H[p].k = "d" THEN Then(r1, Mkdir(r1.st, p, TRUE, TRUE))
     ELSE IF IsF(r1.st.t, p) /\ TextAt(r1.st, p) = H[p].c THEN r1
     ELSE Then(r1, Write(r1.st, p, H[p].c, FALSE, -1))
RECURSIVE Back(_, _, _, _)
Back(r, H, q, i) == IF i > Len(q) \/ ~r.ok THEN r ELSE Back(BackOne(r, H, q[i]), H, q, i + 1)
RECURSIVE Vanish(_, _, _)
Vanish(r, q, i) == IF i > Len(q) \/ ~r.ok THEN r
                   ELSE Vanish(IF q[i] \in DOMAIN r.st.t THEN Then(r, Delete(r.st, q[i], TRUE)) ELSE r, q, i + 1)
BackAll(st, H) ==
  LET r == Back(Good(st), H, SetToSortSeq(DOMAIN H \ {<<>>}, PathLt), 1)
      gone == {p \in DOMAIN r.st.t : p \notin DOMAIN H}
      fs == SetToSortSeq({p \in gone : r.st.t[p].k = "f"}, PathLt)
      ds == SetToSortSeq({p \in gone : r.st.t[p].k = "d"}, LAMBDA a, b : PathLt(b, a))
  IN IF r.ok THEN Vanish(r, fs \o ds, 1) ELSE r

HostRows(st, op, dir, H) ==
  LET env == AsgEnv(st.sh[op.id].env, op.asg)     \* the shell's variables are passed on and expanded in arguments,
      raw(i) == op.via = "bash" /\ i > 1 /\ op.args[i - 1] \in {"-c", "-lc"}      \* but not in the text handed to bash -c
      arg(i) == IF raw(i) THEN op.args[i] ELSE Expand(op.args[i], env)
  IN
  <<"cwd " \o PathStr(dir), "out " \o op.say, "in " \o op.stdin>>
  \o (IF op.via = "ls" THEN <<>> ELSE <<"env V=" \o EnvGet(env, "V"), "env N=" \o EnvGet(env, "N")>>)
  \o [i \in 1..Len(op.args) |-> "arg " \o ToString(i) \o " " \o MapTok(st, arg(i))]
  \o SetToSeq({IF H[p].k = "d" THEN "d " \o PathStr(p) ELSE "f " \o PathStr(p) \o " " \o H[p].c : p \in DOMAIN H \ {<<>>}})
Host(st, op) ==
  LET sh == st.sh[op.id]
      dir == IF op.dir = "" THEN Cwd(st) ELSE At(st, op.dir)
      H == CopyOf(st)
  IN IF Vis(st, sh.view, PathStr(dir)) # "ok" THEN Fail(st, "invalid")
     ELSE IF \E p \in Files(st.t, DOMAIN st.t) : BadAt(st, p) THEN Fail(st, "provider")
     ELSE IF ~IsD(st.t, dir) THEN [Fail(st, "invalid") EXCEPT !.spawn = 1]
     ELSE LET r == BackAll(st, HEdits(H, op.edits, 1)) IN
          IF r.ok /\ ~r.part[1] THEN [Bag(r.st, HostRows(st, op, dir, H)) EXCEPT !.ev = r.ev, !.spawn = 1]
          ELSE [Fail(st, "policy") EXCEPT !.taint = TRUE, !.spawn = 1]   \* protected or conflicting nodes: see HostPart

(* what must hold when something could not be brought back: the command fails, every node is as before or as in the
   copy, and protected nodes keep content, version and name *)
HostPart(pre, op, ok, post) ==
  LET H == HEdits(CopyOf(pre), op.edits, 1) IN
  /\ ~ok
  /\ \A p \in DOMAIN pre.t \union DOMAIN post.t :
       \/ p \in DOMAIN pre.t /\ p \in DOMAIN post.t /\ pre.t[p] = post.t[p]
       \/ p \notin DOMAIN pre.t /\ p \in DOMAIN H /\ p \in DOMAIN post.t /\ H[p].k = post.t[p].k
            /\ (H[p].k = "f" => post.t[p].c = H[p].c /\ post.t[p].v = 1)
       \/ p \in DOMAIN pre.t /\ p \in DOMAIN H /\ p \in DOMAIN post.t /\ H[p].k = post.t[p].k /\ H[p].k = "f"
            /\ post.t[p].c = H[p].c /\ (H[p].k = pre.t[p].k => post.t[p].v = pre.t[p].v + 1 /\ pre.t[p].w /\ ~pre.t[p].a)
       \/ p \in DOMAIN pre.t /\ p \in DOMAIN H /\ p \in DOMAIN post.t /\ H[p].k = post.t[p].k /\ H[p].k # pre.t[p].k
       \/ p \in DOMAIN pre.t /\ p \notin DOMAIN post.t /\ ~Protected(pre.t[p])
            /\ (p \notin DOMAIN H \/ \E i \in 0..Len(p) : LET q == SubSeq(p, 1, i) IN
                  q \in DOMAIN H /\ q \in DOMAIN pre.t /\ H[q].k # pre.t[q].k)
  /\ \A p \in DOMAIN pre.t : Protected(pre.t[p]) => p \in DOMAIN post.t /\ post.t[p].v = pre.t[p].v
        /\ (pre.t[p].k = "d" => {q[Len(q)] : q \in Kids(pre.t, p)} \subseteq {q[Len(q)] : q \in Kids(post.t, p)})
        /\ (pre.t[p].k = "d" /\ ~pre.t[p].w => {q[Len(q)] : q \in Kids(pre.t, p)} = {q[Len(q)] : q \in Kids(post.t, p)})
=============================================================================
