---------------------------------- MODULE MC ----------------------------------
(***************************************************************************)
(* Bounded exhaustive model: from a prepared state every sequence of at    *)
(* most `depth` operations out of a menu (both from a configuration file). *)
(* Every transition is checked against the properties stated directly in   *)
(* Props, and written out with its expected outcome so that it can be      *)
(* replayed into the implementation.                                       *)
(***************************************************************************)
EXTENDS Props, CSV

Conf == JsonDeserialize(IOEnv.SANDFS_CONF)
OutFile == IOEnv.SANDFS_OUT
Menu == Conf.menu
Want == SeqSet(Conf.props)

RECURSIVE Prepared(_, _)
Prepared(s, i) == IF i > Len(Conf.setup) THEN s ELSE Prepared(Apply(s, Conf.setup[i]).st, i + 1)

VARIABLES st, hist
vars == <<st, hist>>
MCInit == st = Prepared(Init0, 1) /\ hist = <<>>

(* properties of one transition that fail; only on a wrong specification *)
Broken(s, op, e) ==
  LET ok == e.ok
      chk(id, P) == IF id \in Want /\ ~P THEN {id} ELSE {}
  IN chk("WF", WF(e.st))
     \union chk("C02", C02Direct(s, op, e))
     \union chk("C03", C03Direct(s, op, ok, e.st))
     \union chk("C04", C04Direct(s, op, ok, e.st, e.ev))
     \union chk("C05", C05Direct(s, op, ok, e.st) /\ (op.k = "sh" => C05Shell(s, e.st)))
     \union chk("C06", C06Direct(s, op, e))
     \union chk("C07", C07Direct(s, op, e))
     \union chk("C08", C08Direct(s, op, e))
     \union chk("C09", C09Direct(s, op, ok, e.st))
     \union chk("C10", C10Direct(s, op, ok, e.st))
     \union chk("C11", C11Direct(s, op, ok, e.st))
     \union chk("C13", C13Direct(s, op, ok, e.st))
     \union chk("C14", C14Direct(s, op, ok, e.ev))
     \union chk("C15", C15Direct(s, op, e))
     \union chk("C16", C16Direct(s, op, e))
     \union chk("C17", C17Direct(s, op, e))
     \union chk("C01", C01Direct(s, op, e))
     \union chk("C19", C19Direct(s, op, e))
     \union chk("C22", C22Direct(s, op, e))

NodeRow(s, p) == LET n == s.t[p] IN
  [p |-> p, k |-> n.k, c |-> IF n.k = "d" THEN "" ELSE IF BadAt(s, p) THEN "~error" ELSE TextAt(s, p),
   v |-> n.v, r |-> n.r, w |-> n.w, a |-> n.a, cls |-> n.cls, pr |-> SetToSeq(n.pr), md |-> SetToSeq(n.md)]
AdRow(s, id) == [id |-> id, e |-> SetToSeq({<<r, s.ad[id].e[r].c, IF s.ad[id].kind = "mem" THEN s.ad[id].e[r].v ELSE 0>> :
                                             r \in {x \in DOMAIN s.ad[id].e : s.ad[id].e[x].x}})]
Edge(h, e) ==
  ToJson([h |-> h, ok |-> e.ok, why |-> e.why, out |-> e.out, mode |-> e.mode, err |-> e.err, ev |-> e.ev, spawn |-> e.spawn,
          part |-> e.part[1], taint |-> e.taint, cwd |-> Cwd(e.st),
          t |-> IF e.part[1] \/ e.taint THEN <<>> ELSE LET D == SetToSeq(DOMAIN e.st.t) IN [i \in 1..Len(D) |-> NodeRow(e.st, D[i])],
          ad |-> IF e.part[1] \/ e.taint THEN <<>> ELSE LET A == SetToSeq(DOMAIN e.st.ad) IN [i \in 1..Len(A) |-> AdRow(e.st, A[i])]])

MCNext ==
  /\ Len(hist) < Conf.depth
  /\ \E m \in DOMAIN Menu :
       LET op == Menu[m]
           e == Apply(st, op)
           h == Append(hist, m)
           bad == IF e.part[1] \/ e.taint THEN {} ELSE Broken(st, op, e)
       IN /\ Assert(bad = {}, <<"the specification breaks", bad, "after", h>>)
          /\ CSVWrite("%1$s", <<Edge(h, e)>>, OutFile)
          /\ ~e.part[1] /\ ~e.taint
          /\ st' = e.st
          /\ hist' = h
(* What counts as the same situation: the state, the depth (so that the result does not depend on the order of exploration) and the
   last Conf.keep operations.  With keep = 0 every state is expanded once per depth; with a larger keep it is expanded again for every
   way of getting there that differs in the last operations, because the implementation may remember more than the specification's state. *)
Recent(h) == SubSeq(h, IF Len(h) > Conf.keep THEN Len(h) - Conf.keep + 1 ELSE 1, Len(h))
View == <<st, Len(hist), Recent(hist)>>
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
