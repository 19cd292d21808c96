--------------------------------- MODULE Disk ---------------------------------
(***************************************************************************)
(* The host-directory adapter and the host directories around its root.    *)
(*                                                                         *)
(* The host tree is a function from paths (sequences of names, below a     *)
(* base directory) to nodes                                                *)
(*   [k |-> "d"]   [k |-> "f", c |-> text]   [k |-> "l", abs, to]          *)
(* a link points to `to`, from the base if abs and from the directory the  *)
(* link is in otherwise.  The adapter's root is the directory <<"root">>.  *)
(* Texts are opaque: the harness chooses what they stand for.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Root == <<"root">>
Front1(p) == SubSeq(p, 1, Len(p) - 1)
Inside(p) == IsPrefix(Root, p)
D0 == [k |-> "d", c |-> "", abs |-> FALSE, to |-> <<>>]
F0(c) == [D0 EXCEPT !.k = "f", !.c = c]
L0(abs, to) == [D0 EXCEPT !.k = "l", !.abs = abs, !.to = to]
DPut(H, p, n) == [q \in DOMAIN H \union {p} |-> IF q = p THEN n ELSE H[q]]
DDrop(H, S) == [q \in DOMAIN H \ S |-> H[q]]
KindAt(H, p) == IF p \in DOMAIN H THEN H[p].k ELSE "no"
BelowD(H, p) == {q \in DOMAIN H : IsPrefix(p, q)}

(* Where a path really leads: links are followed, ".." goes to the real parent, and what does not exist is taken by name. *)
Loop == [ok |-> FALSE, p |-> <<>>]
RECURSIVE Walk(_, _, _, _)
Walk(H, cur, rest, fuel) ==
  IF rest = <<>> THEN [ok |-> TRUE, p |-> cur]
  ELSE LET c == rest[1]
           more == SubSeq(rest, 2, Len(rest))
           here == Append(cur, c)
       IN IF c \in {"", "."} THEN Walk(H, cur, more, fuel)
          ELSE IF c = ".." THEN Walk(H, IF cur = <<>> THEN cur ELSE Front1(cur), more, fuel)
          ELSE IF KindAt(H, here) = "l"
          THEN IF fuel = 0 THEN Loop ELSE Walk(H, IF H[here].abs THEN <<>> ELSE cur, H[here].to \o more, fuel - 1)
          ELSE Walk(H, here, more, fuel)
Real(H, rel) == Walk(H, Root, rel, 12)

(* does every proper ancestor exist as a directory, or can it be made *)
CanMake(H, p) == \A i \in 0..(Len(p) - 1) : KindAt(H, SubSeq(p, 1, i)) \in {"no", "d"}
MakeDirs(H, p) == LET pre == {SubSeq(p, 1, i) : i \in 0..(Len(p) - 1)}
                  IN [q \in DOMAIN H \union pre |-> IF q \in DOMAIN H THEN H[q] ELSE D0]

Ok(H, out) == [ok |-> TRUE, H |-> H, out |-> out]
No(H) == [ok |-> FALSE, H |-> H, out |-> {}]

(* the files the adapter shows: real entries below the root that are files, or links to files inside the root *)
Shown(H) == {p \in DOMAIN H : Inside(p) /\ p # Root /\
               (\/ H[p].k = "f"
                \/ H[p].k = "l" /\ LET r == Walk(H, <<>>, p, 12) IN r.ok /\ Inside(r.p) /\ KindAt(H, r.p) = "f")}
RelOf(p) == SubSeq(p, Len(Root) + 1, Len(p))
TextOf(H, p) == H[Walk(H, <<>>, p, 12).p].c
List(H) == {<<RelOf(p), TextOf(H, p)>> : p \in Shown(H)}

DRead(H, rel) == LET r == Real(H, rel) IN
  IF ~r.ok \/ ~Inside(r.p) \/ KindAt(H, r.p) # "f" THEN No(H) ELSE Ok(H, {<<rel, H[r.p].c>>})
DWrite(H, rel, c) == LET r == Real(H, rel) IN
  IF ~r.ok \/ ~Inside(r.p) \/ r.p = Root \/ KindAt(H, r.p) = "d" \/ ~CanMake(H, r.p) THEN No(H)
  ELSE Ok(DPut(MakeDirs(H, r.p), r.p, F0(c)), {})
DDelete(H, rel) == LET r == Real(H, rel) IN
  IF ~r.ok \/ ~Inside(r.p) \/ KindAt(H, r.p) = "d" THEN No(H)
  ELSE Ok(DDrop(H, {r.p}), {})

(* Operations.  rel: names; c: text.  "wrong" is a write with a version that is not the current one.
   x...: changes by others; v...: through a filesystem that mounts the directory anew. *)
DApply(H, op) ==
  CASE op.k = "read" -> DRead(H, op.p)
    [] op.k = "write" -> DWrite(H, op.p, op.c)
    [] op.k = "wrong" -> No(H)
    [] op.k = "list" -> Ok(H, List(H))
    [] op.k = "delete" -> DDelete(H, op.p)
    [] op.k = "xput" -> IF CanMake(H, op.p) THEN Ok(DPut(DDrop(MakeDirs(H, op.p), BelowD(H, op.p)), op.p, F0(op.c)), {}) ELSE Ok(H, {})
    [] op.k = "xdel" -> Ok(DDrop(H, BelowD(H, op.p)), {})
    [] op.k = "xlink" -> IF CanMake(H, op.p) THEN Ok(DPut(DDrop(MakeDirs(H, op.p), BelowD(H, op.p)), op.p, L0(op.abs, op.to)), {}) ELSE Ok(H, {})
    [] op.k = "xdir" -> IF CanMake(H, op.p) THEN Ok(DPut(DDrop(MakeDirs(H, op.p), BelowD(H, op.p)), op.p, D0), {}) ELSE Ok(H, {})
    [] op.k = "vlist" -> Ok(H, List(H))
    [] op.k = "vread" -> IF Root \o op.p \in Shown(H) THEN Ok(H, {<<op.p, TextOf(H, Root \o op.p)>>}) ELSE No(H)
    [] op.k = "vwrite" -> \* a name that is a directory of the mount, or below a file of it, cannot be written
         IF \E q \in Shown(H) : IsStrictPrefix(Root \o op.p, q) \/ IsStrictPrefix(q, Root \o op.p) THEN No(H) ELSE DWrite(H, op.p, op.c)
    [] op.k = "vdelete" -> IF Root \o op.p \in Shown(H) THEN DDelete(H, op.p) ELSE No(H)

(* The property, said directly: what is outside stays as it is, and what is shown comes from files inside. *)
Outside(H) == {p \in DOMAIN H : ~Inside(p)}
OwnTexts(H) == {H[p].c : p \in {q \in DOMAIN H : Inside(q) /\ H[q].k = "f"}}
Confined(H, op, r) ==
  op.k \in {"xput", "xdel", "xlink", "xdir"}
  \/ /\ Outside(r.H) = Outside(H)
     /\ \A p \in Outside(H) : r.H[p] = H[p]
     /\ \A x \in r.out : x[2] \in OwnTexts(H)
     /\ ~r.ok => r.H = H
     /\ \* a write changes one file inside, a delete removes at most one, reading none
        LET ch == {p \in DOMAIN r.H \union DOMAIN H : p \notin DOMAIN H \/ p \notin DOMAIN r.H \/ r.H[p] # H[p]}
        IN CASE op.k \in {"read", "list", "wrong", "vlist", "vread"} -> ch = {}
             [] op.k \in {"write", "vwrite"} -> r.ok => LET f == {p \in ch : KindAt(r.H, p) = "f"} IN
                  Cardinality(f) <= 1 /\ (\A p \in ch \ f : KindAt(H, p) = "no" /\ KindAt(r.H, p) = "d")
                  /\ DRead(r.H, op.p).out = {<<op.p, op.c>>}
             [] OTHER -> Cardinality(ch) <= 1 /\ (\A p \in ch : KindAt(H, p) = "f") /\ (r.ok => ~DRead(r.H, op.p).ok)
=============================================================================
