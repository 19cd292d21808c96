------------------------------- MODULE MCDisk -------------------------------
(* Every sequence of at most depth operations of a menu from each of a set of host directory layouts: checked against
   Confined and written out for replay. *)
EXTENDS Disk, TLC, Json, IOUtils, CSV

Conf == JsonDeserialize(IOEnv.SANDFS_CONF)
OutFile == IOEnv.SANDFS_OUT
Menu == Conf.menu
Tree(rows) == [p \in {rows[i].p : i \in DOMAIN rows} |-> LET n == rows[CHOOSE i \in DOMAIN rows : rows[i].p = p]
                                                         IN [k |-> n.k, c |-> n.c, abs |-> n.abs, to |-> n.to]]
VARIABLES H, from, hist
vars == <<H, from, hist>>
Init == \E l \in DOMAIN Conf.layouts : H = Tree(Conf.layouts[l]) /\ from = l /\ hist = <<>>
Rows(T) == LET D == SetToSeq(DOMAIN T) IN [i \in 1..Len(D) |-> [p |-> D[i], k |-> T[D[i]].k, c |-> T[D[i]].c, abs |-> T[D[i]].abs, to |-> T[D[i]].to]]
Next ==
  /\ Len(hist) < Conf.depth
  /\ \E m \in DOMAIN Menu :
       LET r == DApply(H, Menu[m])
           h == Append(hist, m)
       IN /\ Assert(Confined(H, Menu[m], r), <<"the specification is not confined", from, h>>)
          /\ CSVWrite("%1$s", <<ToJson([l |-> from, h |-> h, ok |-> r.ok, out |-> SetToSeq(r.out), H |-> Rows(r.H)])>>, OutFile)
          /\ H' = r.H /\ hist' = h /\ UNCHANGED from
View == IF Conf.keep THEN <<H, from, hist>> ELSE <<H, Len(hist), from>>
Spec == Init /\ [][Next]_vars
=============================================================================
