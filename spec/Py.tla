---------------------------------- MODULE Py ----------------------------------
(***************************************************************************)
(* Python snippets run by the sandbox.  A snippet is a sequence of         *)
(* statements [s, a, b]; it starts with the helper names (vfs, fs and what *)
(* the embedding program provides), the permitted builtins and no names of *)
(* its own, and stops at the first statement that fails.                   *)
(***************************************************************************)
EXTENDS Shell

(* what a snippet that uses one builtin prints; "shout" is provided by the embedding program *)
Builtin == [abs |-> "2", all |-> "True", any |-> "False", bool |-> "True", dict |-> "{'a': 1}", enumerate |-> "a", float |-> "1.0", int |-> "7",
            list |-> "['a', 'b']", map |-> "a", max |-> "2", min |-> "1", repr |-> "'a'", reversed |-> "ba", round |-> "2", set |-> "{'a'}",
            sum |-> "3", tuple |-> "('a',)", zip |-> "ab", shout |-> "A!"]
AllBuiltins == DOMAIN Builtin \union {"print", "len", "sorted", "str", "range"}
(* env: own names; off: builtins the snippet removed or shadowed; lost: helper names it rebound *)
PyEnv(extra, given) == [own |-> extra, off |-> IF given THEN {} ELSE {"shout"}, lost |-> {}, txt |-> ""]
Say(e, s) == [e EXCEPT !.txt = @ \o s \o LF]
PyOk(st, e, ev) == [ok |-> TRUE, st |-> st, e |-> e, ev |-> ev, taint |-> FALSE]
PyBad(st, e) == [ok |-> FALSE, st |-> st, e |-> e, ev |-> <<>>, taint |-> FALSE]
(* the outcome of a filesystem call inside a snippet *)
Call(st, e, x, r, shown) ==
  IF x.h \in e.lost THEN PyBad(st, e)
  ELSE IF ~r.ok THEN [PyBad(r.st, e) EXCEPT !.taint = r.part[1]]
  ELSE IF ~shown THEN PyOk(r.st, e, r.ev)
  ELSE IF "print" \in e.off THEN PyBad(r.st, e) ELSE PyOk(r.st, Say(e, r.out[1]), r.ev)
PyStmt(st, e, x) ==
  LET can(b) == b \notin e.off
      p == At(st, x.a)
  IN CASE x.s = "print" -> IF can("print") THEN PyOk(st, Say(e, x.a), <<>>) ELSE PyBad(st, e)
       [] x.s = "len" -> IF can("print") /\ can("len") THEN PyOk(st, Say(e, ToString(Len(x.a))), <<>>) ELSE PyBad(st, e)
       [] x.s = "sorted" -> IF can("print") /\ can("sorted") /\ can("str") THEN PyOk(st, Say(e, "['a', 'b']"), <<>>) ELSE PyBad(st, e)
       [] x.s = "bi" -> IF can("print") /\ can(x.a) THEN PyOk(st, Say(e, Builtin[x.a]), <<>>) ELSE PyBad(st, e)
       [] x.s = "set" -> PyOk(st, [e EXCEPT !.own = Put(@, x.a, x.b)], <<>>)
       [] x.s = "get" -> IF can("print") /\ x.a \in DOMAIN e.own THEN PyOk(st, Say(e, e.own[x.a]), <<>>) ELSE PyBad(st, e)
       [] x.s = "lam" -> IF can("print") THEN PyOk(st, Say([e EXCEPT !.own = Put(@, "q", x.a)], x.a), <<>>) ELSE PyBad(st, e)
       [] x.s = "comp" -> IF can("print") /\ can("range") THEN PyOk(st, Say([e EXCEPT !.own = Put(@, "q", x.a)], x.a \o x.a), <<>>) ELSE PyBad(st, e)
       [] x.s = "shadow" -> PyOk(st, [e EXCEPT !.off = @ \union {x.a}], <<>>)          \* name = None
       [] x.s = "drop" -> PyOk(st, [e EXCEPT !.off = @ \union {x.a}], <<>>)            \* taken out of the builtins table
       [] x.s = "wreck" -> PyOk(st, [e EXCEPT !.off = AllBuiltins], <<>>)
       [] x.s = "lose" -> PyOk(st, [e EXCEPT !.lost = @ \union {x.a}], <<>>)           \* vfs = None
       [] x.s = "both" -> IF can("print") THEN PyOk(st, Say(e, IF Cardinality(e.lost) = 1 THEN "False" ELSE "True"), <<>>) ELSE PyBad(st, e)
       [] x.s \in {"raise", "import", "from", "import2", "open", "undef", "recur"} -> PyBad(st, e)
       [] x.s = "read" -> Call(st, e, x, Read(st, p), TRUE)
       [] x.s = "pwd" -> Call(st, e, x, Out(st, <<PathStr(Cwd(st))>>), TRUE)
       [] x.s = "exists" -> Call(st, e, x, Out(st, <<IF p \in DOMAIN st.t THEN "True" ELSE "False">>), TRUE)
       [] x.s = "write" -> Call(st, e, x, Write(st, p, x.b, FALSE, -1), FALSE)
       [] x.s = "append" -> Call(st, e, x, Write(st, p, x.b, TRUE, -1), FALSE)
       [] x.s = "remove" -> Call(st, e, x, Delete(st, p, TRUE), FALSE)
       [] x.s = "mkdir" -> Call(st, e, x, Mkdir(st, p, TRUE, TRUE), FALSE)
       [] x.s = "move" -> Call(st, e, x, Move(st, p, At(st, x.b)), FALSE)
       [] x.s = "cd" -> Call(st, e, x, Cd(st, p), FALSE)
RECURSIVE PyRun(_, _, _, _, _)
PyRun(st, e, xs, i, ev) ==
  IF i > Len(xs) THEN PyOk(st, e, ev)
  ELSE LET r == PyStmt(st, e, xs[i]) IN
       IF r.ok THEN PyRun(r.st, r.e, xs, i + 1, ev \o r.ev) ELSE [r EXCEPT !.ev = ev \o @]

(* how: through the shell ("python", "python3", "words" and "cwords": one statement per argument, without and with -c,
   or "redir": output redirected to /rd) or "api": PythonExecutor.run;
   extra: names handed in for this run; the executor of the embedding program, which shell h1 is given too, also
   provides tool = T *)
PyExec(st, op) ==
  LET broken == \E i \in DOMAIN op.code : op.code[i].s = "syntax"       \* does not compile: nothing runs
      given == op.how = "api" \/ op.id = "h1"
      extra == IF given THEN <<<<"tool", "T">>>> \o op.extra ELSE <<>>
      own == [k \in {extra[i][1] : i \in DOMAIN extra} |-> extra[CHOOSE i \in DOMAIN extra : extra[i][1] = k /\ \A j \in DOMAIN extra : extra[j][1] = k => j <= i][2]]
      r == IF broken THEN PyBad(st, PyEnv(own, given)) ELSE PyRun(st, PyEnv(own, given), op.code, 1, <<>>)
      names == SetToSeq({"g " \o k \o "=" \o r.e.own[k] : k \in DOMAIN r.e.own})
  IN IF ~r.ok THEN [Fail(r.st, "python") EXCEPT !.ev = r.ev, !.taint = r.taint]
     ELSE IF op.how = "api" THEN [Bag(r.st, <<"out " \o r.e.txt>> \o names) EXCEPT !.ev = r.ev]
     ELSE IF op.how = "redir"
     THEN LET w == Write(r.st, <<"rd">>, r.e.txt, FALSE, -1)
          IN IF w.ok THEN [Out(w.st, <<"out ">>) EXCEPT !.ev = r.ev \o w.ev] ELSE [w EXCEPT !.ev = r.ev \o @]
     ELSE [Out(r.st, <<"out " \o r.e.txt>>) EXCEPT !.ev = r.ev]
=============================================================================
