---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command line program: what it runs and what it shows.  The commands *)
(* themselves are ordinary shell operations of the recorded history; seen  *)
(* holds, per command run: line, out, err, code and the working directory  *)
(* afterwards.                                                             *)
(***************************************************************************)
EXTENDS Shell

QuitWords == {":q", "exit", "quit"}
RECURSIVE Upto(_, _)
Upto(lines, j) == IF j > Len(lines) \/ Strip(lines[j]) \in QuitWords THEN <<>> ELSE <<lines[j]>> \o Upto(lines, j + 1)
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN "" ELSE q[1] \o Glue(SubSeq(q, 2, Len(q)))
Prompt(seen, j) == (IF j = 1 THEN "/" ELSE seen[j - 1].pwd) \o "$ "
(* mode "exec": one command; mode "shell": lines until a quit word or the end of input *)
Cli(st, op) ==
  LET ran == IF op.mode = "exec" THEN op.typed ELSE Upto(op.typed, 1)
      seen == op.seen
      n == Len(seen)
  IN IF op.bad THEN Fail(st, "usage")
     ELSE Out(st, <<IF op.mode = "exec" THEN Glue([j \in 1..n |-> seen[j].out])
                    ELSE Glue([j \in 1..n |-> Prompt(seen, j) \o seen[j].out]) \o Prompt(seen, n + 1),
                    Glue([j \in 1..n |-> seen[j].err]),
                    IF op.mode = "exec" /\ n = 1 THEN ToString(seen[1].code) ELSE "0",
                    ToString(Len(ran))>> \o ran)
=============================================================================
