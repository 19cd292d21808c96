-------------------------------- MODULE Shell --------------------------------
(***************************************************************************)
(* The command shell: texts are split into lines, lines into pipelines,    *)
(* pipelines into stages with assignments, arguments and redirections;     *)
(* each built-in command is specified against the tree.  A shell is        *)
(*   [view, allow: [on, s], lim, env, fb]                                  *)
(* (view, allow-list, output limit (-1: none), variables, host fallback).  *)
(***************************************************************************)
EXTENDS SandFS

-----------------------------------------------------------------------------
(* Visibility of a path a command names *)
Vis(st, view, raw) ==
  LET p == At(st, raw) IN
  IF ~InPrefixes(view, p) THEN "hidden"
  ELSE CASE Res(st.t, p) = "nf" -> "ok"
         [] Res(st.t, p) = "nd" -> "invalid"
         [] OTHER -> LET n == st.t[p] IN
              IF ~Allows(view, n) THEN "hidden"
              ELSE IF view.md.on /\ view.md.s # {} /\ n.k = "d" THEN "ok"
              ELSE IF AllowsNode(view, p, n) THEN "ok" ELSE "hidden"

-----------------------------------------------------------------------------
(* Search-view paths:  <prefix>?q=..&regex=..&ignore_case=..&path=..[/nav] *)
RECURSIVE UnqFrom(_, _)
UnqFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) = "%" /\ i + 2 <= Len(s) /\ SubSeq(s, i + 1, i + 2) \in DOMAIN HEX
       THEN HEX[SubSeq(s, i + 1, i + 2)] \o UnqFrom(s, i + 3)
       ELSE Ch(s, i) \o UnqFrom(s, i + 1)
Unquote(s) == UnqFrom(s, 1)
QsVal(s) == Unquote(Replace(s, "+", " "))
QsPairs(s) == LET parts == SelectSeq(Split(s, "&"), LAMBDA x : x # "")
              IN [i \in 1..Len(parts) |->
                    LET e == FindCh(parts[i], "=", 1)
                    IN IF e = 0 THEN <<QsVal(parts[i]), "">>
                       ELSE <<QsVal(SubSeq(parts[i], 1, e - 1)), QsVal(From(parts[i], e + 1))>>]
QsGet(ps, k, dflt) == LET m == SelectSeq(ps, LAMBDA x : x[1] = k) IN IF m = <<>> THEN dflt ELSE m[1][2]
Truthy(s) == Lower(s) \in {"1", "true", "yes", "on"}

NoQuery == [is |-> FALSE, q |-> "", regex |-> FALSE, ic |-> FALSE, pre |-> <<>>, res |-> ""]
ParseSearch(st, path) ==
  IF ~st.sv.on \/ ~Has(path, "?") THEN NoQuery
  ELSE LET raw == IF Ch(path, 1) = "/" THEN path ELSE PatStr(Cwd(st), path)
           qm == FindCh(raw, "?", 1)
           bstr == SubSeq(raw, 1, qm - 1)
           base == SelectSeq(Split(bstr, "/"), LAMBDA c : c \notin {"", "."})
           tail == From(raw, qm + 1)
           sl == FindCh(tail, "/", 1)
           cand == SubSeq(tail, 1, sl - 1)
           rest == From(tail, sl + 1)
           join == sl # 0 /\ HasSub(cand, "path=") /\ ~Has(rest, "=")
           qp == IF sl = 0 THEN tail ELSE IF join THEN cand \o rest ELSE cand
           nav == IF sl = 0 \/ join THEN "" ELSE rest
           ps == QsPairs(qp)
           pfx == QsGet(ps, "path", "")
       IN IF base # st.sv.p \/ (StartsWith(bstr, "//") /\ ~StartsWith(bstr, "///")) THEN NoQuery
          ELSE [is |-> TRUE, q |-> QsGet(ps, "q", ""), regex |-> Truthy(QsGet(ps, "regex", "0")),
                ic |-> Truthy(QsGet(ps, "ignore_case", "0")),
                pre |-> IF pfx = "" THEN <<>> ELSE Norm(<<>>, Unquote(pfx)),
                res |-> IF nav = "" THEN PathStr(base)
                        ELSE IF Ch(nav, 1) = "/" THEN nav ELSE PathStr(base) \o "/" \o nav]

(* forget the results below the search view *)
ResetSV(st) == LET b == st.sv.p
                   s1 == [st EXCEPT !.t = Drop(@, Below(@, b) \ {b})]
               IN IF IsPre(b, st.cw) /\ st.cw # b
                  THEN [s1 EXCEPT !.cw = b, !.cs = SubSeq(st.cw, Len(b) + 1, Len(st.cw)) \o st.cs]
                  ELSE s1
(* results of a query as nodes below the search view; they carry the policy and metadata
   of the file they come from *)
LoadSV(st, view, pq) ==
  LET b == st.sv.p
      F == {p \in SearchFiles(st, pq.pre, view) : FileHits(st, p, pq.q, pq.regex, pq.ic) # <<>>}
      files == {b \o p : p \in F}
      dirs == UNION {{SubSeq(f, 1, i) : i \in (Len(b) + 1)..(Len(f) - 1)} : f \in files}
      src(f) == SubSeq(f, Len(b) + 1, Len(f))
      node(f) == [st.t[src(f)] EXCEPT !.c = Join(HitsOf(st, <<src(f)>>, pq.q, pq.regex, pq.ic, TRUE), LF),
                                      !.v = 0, !.prv = ""]
  IN [st EXCEPT !.srl = TRUE,
                !.t = [q \in DOMAIN st.t \union files \union dirs |->
                         IF q \in files THEN node(q) ELSE IF q \in dirs THEN NewDir ELSE st.t[q]]]
(* state and path a command argument denotes; how: "res" the node itself, "list" also its
   entries, "deep" its whole subtree *)
Open(st, sh, raw, how) ==
  LET pq == ParseSearch(st, raw) IN
  IF ~pq.is THEN [ok |-> TRUE, st |-> st, raw |-> raw]
  ELSE IF ~IsD(st.t, st.sv.p) THEN [ok |-> FALSE, st |-> st, raw |-> raw]
  ELSE LET s1 == ResetSV(st)
           n == At(s1, pq.res)
           b == st.sv.p
           need == InPrefixes(sh.view, n) /\ CASE how = "res" -> IsPre(b, n) /\ n # b
                     [] how = "list" -> IsPre(b, n)
                     [] OTHER -> IsPre(b, n) \/ IsPre(n, b)
           F == SearchFiles(s1, pq.pre, sh.view)
           bad == need /\ ((~s1.idx /\ \E p \in F : BadAt(s1, p))
                           \/ (RxBad(pq.regex, pq.q) /\ pq.pre \in DOMAIN s1.t /\ s1.t[pq.pre].r))
       IN [ok |-> ~bad, st |-> IF need /\ ~bad THEN LoadSV(s1, sh.view, pq) ELSE s1, raw |-> pq.res]
(* results do not outlive the call unless somebody works inside them *)
Discard(st) == IF ~st.sv.on \/ ~st.srl \/ IsPre(st.sv.p, Cwd(st)) THEN st
               ELSE [(IF IsD(st.t, st.sv.p) THEN ResetSV(st) ELSE st) EXCEPT !.srl = FALSE]

-----------------------------------------------------------------------------
(* Parsing a line into stages *)
AWORD == {c \in WORD : CodeOf(c) < 128}
IsAssign(tok) == LET e == FindCh(tok, "=", 1) IN
  e > 1 /\ Ch(tok, 1) \notin DIGIT /\ \A i \in 1..(e - 1) : Ch(tok, i) \in AWORD
NewStage == [name |-> <<>>, args |-> <<>>, asg |-> <<>>, in |-> <<>>, out |-> <<>>, app |-> FALSE]
SetAsg(a, k, v) == IF \E i \in DOMAIN a : a[i][1] = k
                   THEN [i \in DOMAIN a |-> IF a[i][1] = k THEN <<k, v>> ELSE a[i]]
                   ELSE Append(a, <<k, v>>)
StageOk(s) == ~(s.name = <<>> /\ s.asg = <<>>)
              /\ ~(s.name = <<>> /\ (s.in \notin {<<>>, <<"">>} \/ s.out \notin {<<>>, <<"">>}))
RECURSIVE ParseFrom(_, _, _, _)
ParseFrom(tk, i, cur, acc) ==
  IF i > Len(tk) THEN [ok |-> StageOk(cur), stages |-> Append(acc, cur)]
  ELSE LET k == tk[i] IN
    IF k = "|" THEN IF StageOk(cur) THEN ParseFrom(tk, i + 1, NewStage, Append(acc, cur))
                    ELSE [ok |-> FALSE, stages |-> <<>>]
    ELSE IF k \in {"<", ">", ">>"}
    THEN IF i = Len(tk) THEN [ok |-> FALSE, stages |-> <<>>]
         ELSE IF k = "<" THEN ParseFrom(tk, i + 2, [cur EXCEPT !.in = <<tk[i + 1]>>], acc)
         ELSE ParseFrom(tk, i + 2, [cur EXCEPT !.out = <<tk[i + 1]>>, !.app = (k = ">>")], acc)
    ELSE IF cur.name = <<>> /\ IsAssign(k)
    THEN LET e == FindCh(k, "=", 1)
         IN ParseFrom(tk, i + 1, [cur EXCEPT !.asg = SetAsg(@, SubSeq(k, 1, e - 1), From(k, e + 1))], acc)
    ELSE IF cur.name = <<>> THEN ParseFrom(tk, i + 1, [cur EXCEPT !.name = <<k>>], acc)
    ELSE ParseFrom(tk, i + 1, [cur EXCEPT !.args = Append(@, k)], acc)
ParseLine(line) == LET lx == Lex(line) IN
  IF ~lx.ok THEN [ok |-> FALSE, stages |-> <<>>]
  ELSE IF lx.toks = <<>> THEN [ok |-> TRUE, stages |-> <<>>]
  ELSE ParseFrom(lx.toks, 1, NewStage, <<>>)

-----------------------------------------------------------------------------
(* Reading the files a text command names; acc: texts so far *)
RECURSIVE ReadArgs(_, _, _, _, _, _)
ReadArgs(st, sh, args, stdin, i, acc) ==
  IF i > Len(args) THEN [ok |-> TRUE, st |-> st, why |-> "", txt |-> acc]
  ELSE IF args[i] = "-" THEN ReadArgs(st, sh, args, stdin, i + 1, Append(acc, stdin))
  ELSE LET o == Open(st, sh, args[i], "res")
           v == Vis(o.st, sh.view, o.raw)
           r == Read(o.st, At(o.st, o.raw))
       IN IF ~o.ok THEN [ok |-> FALSE, st |-> o.st, why |-> "provider", txt |-> <<>>]
          ELSE IF v # "ok" THEN [ok |-> FALSE, st |-> o.st, why |-> v, txt |-> <<>>]
          ELSE IF ~r.ok THEN [ok |-> FALSE, st |-> o.st, why |-> r.why, txt |-> <<>>]
          ELSE ReadArgs(o.st, sh, args, stdin, i + 1, Append(acc, r.out[1]))

CmdCat(st, sh, args, stdin) ==
  IF args = <<>> THEN Out(st, <<stdin>>)
  ELSE LET r == ReadArgs(st, sh, args, stdin, 1, <<>>)
       IN IF r.ok THEN Out(r.st, <<Join(r.txt, "")>>) ELSE Fail(r.st, r.why)

(* head / tail: options -n N, -c N *)
RECURSIVE HTArgs(_, _, _)
HTArgs(args, i, o) ==
  IF i > Len(args) THEN o
  ELSE IF args[i] \in {"-n", "-c"}
  THEN IF i = Len(args) \/ ~IsInt(args[i + 1]) THEN [o EXCEPT !.ok = FALSE]
       ELSE HTArgs(args, i + 2, [o EXCEPT !.n = IntOf(args[i + 1]), !.lines = (args[i] = "-n")])
  ELSE HTArgs(args, i + 1, [o EXCEPT !.paths = Append(@, args[i])])
HTPiece(txt, o, head) ==
  IF o.lines THEN LET q == SplitLinesKeep(txt) IN Join(IF head THEN TakeN(q, o.n) ELSE LastN(q, o.n), "")
  ELSE IF head THEN TakeN(txt, o.n) ELSE LastN(txt, o.n)
CmdHeadTail(st, sh, args, stdin, head) ==
  LET o == HTArgs(args, 1, [ok |-> TRUE, n |-> 10, lines |-> TRUE, paths |-> <<>>])
      paths == IF o.paths = <<>> THEN <<"-">> ELSE o.paths
      r == ReadArgs(st, sh, paths, stdin, 1, <<>>)
      n == Len(paths)
      block(i) == (IF n > 1 THEN <<"==> " \o paths[i] \o " <==">> ELSE <<>>)
                  \o <<HTPiece(r.txt[i], o, head)>> \o (IF i < n THEN <<"">> ELSE <<>>)
  IN IF ~o.ok THEN Fail(st, "usage")
     ELSE IF ~r.ok THEN Fail(r.st, r.why)
     ELSE Out(r.st, <<Join(FlattenSeq([i \in 1..n |-> block(i)]), LF)>>)

CmdWc(st, sh, args, stdin) ==
  LET l == \E i \in DOMAIN args : args[i] = "-l"
      c == \E i \in DOMAIN args : args[i] = "-c"
      paths == SelectSeq(args, LAMBDA a : a \notin {"-l", "-c"})
      count(txt, label) == Join((IF l \/ ~c THEN <<ToString(Len(SplitLines(txt)))>> ELSE <<>>)
                                \o (IF c \/ ~l THEN <<ToString(Utf8Len(txt))>> ELSE <<>>) \o label, " ")
      r == ReadArgs(st, sh, paths, stdin, 1, <<>>)
  IN IF paths = <<>> THEN Out(st, <<count(stdin, <<>>)>>)
     ELSE IF ~r.ok THEN Fail(r.st, r.why)
     ELSE Out(r.st, <<Join([i \in 1..Len(paths) |-> count(r.txt[i], <<paths[i]>>)], LF)>>)

CmdEcho(st, args) ==
  LET nonl == args # <<>> /\ args[1] = "-n"
  IN Out(st, <<IF nonl THEN Join(Tail(args), " ") ELSE Join(args, " ") \o LF>>)

(* printf: %s and %% directives, then the escapes \n \t \r \\ *)
RECURSIVE Directives(_, _)
Directives(f, i) == IF i > Len(f) THEN 0
                    ELSE IF Ch(f, i) # "%" THEN Directives(f, i + 1)
                    ELSE IF i = Len(f) THEN -1000
                    ELSE IF Ch(f, i + 1) = "s" THEN 1 + Directives(f, i + 2)
                    ELSE IF Ch(f, i + 1) = "%" THEN Directives(f, i + 2) ELSE -1000
RECURSIVE Render(_, _, _, _)
Render(f, i, vals, k) == IF i > Len(f) THEN ""
  ELSE IF Ch(f, i) = "%" THEN IF Ch(f, i + 1) = "s" THEN vals[k] \o Render(f, i + 2, vals, k + 1)
                              ELSE "%" \o Render(f, i + 2, vals, k)
  ELSE Ch(f, i) \o Render(f, i + 1, vals, k)
CmdPrintf(st, args) ==
  IF args = <<>> THEN Out(st, <<"">>)
  ELSE LET f == args[1]
           vals == Tail(args)
           n == Directives(f, 1)
           txt == IF ~HasSub(f, "%s") THEN f
                  ELSE IF n = Len(vals) THEN Render(f, 1, vals, 1)
                  ELSE f \o (IF vals = <<>> THEN "" ELSE " " \o Join(vals, " "))
           esc == Replace(Replace(Replace(Replace(txt, "\\n", LF), "\\t", TAB), "\\r", CR), "\\\\", BS)
       IN IF n < 0 /\ HasSub(f, "%s") THEN [Fail(st, "format") EXCEPT !.taint = TRUE]
          ELSE Out(st, <<esc>>)

(* a host process is tried (here it never starts) unless the tree cannot be written out *)
HostTry(st, sh) ==
  IF Vis(st, sh.view, PathStr(Cwd(st))) # "ok" THEN Fail(st, "hidden")
  ELSE [Fail(st, "host") EXCEPT !.spawn = IF \E p \in Files(st.t, DOMAIN st.t) : BadAt(st, p) THEN 0 ELSE 1]

(* ls *)
FmtLs(st, q, long) == IF long THEN Join([i \in 1..Len(q) |-> (IF st.t[q[i]].k = "d" THEN "d " ELSE "- ") \o PathStr(q[i])], LF)
                      ELSE Join([i \in 1..Len(q) |-> Name(q[i]) \o (IF st.t[q[i]].k = "d" THEN "/" ELSE "")], "  ")
RECURSIVE LsFrom(_, _, _, _, _, _)
LsFrom(st, sh, tg, long, i, acc) ==
  IF i > Len(tg) THEN Out(st, <<Join(SelectSeq(acc, LAMBDA b : b # ""), LF)>>)
  ELSE LET o == Open(st, sh, tg[i], "list")
           s == o.st
           p == At(s, o.raw)
           v == Vis(s, sh.view, o.raw)
           blk == IF s.t[p].k = "d" THEN FmtLs(s, LsSeq(s, p, sh.view), long) ELSE FmtLs(s, <<p>>, long)
       IN IF ~o.ok THEN Fail(s, "provider")
          ELSE IF v # "ok" THEN Fail(s, v)
          ELSE IF p \notin DOMAIN s.t THEN Fail(s, "missing")
          ELSE IF ~s.t[p].r THEN Fail(s, "unreadable")
          ELSE IF s.t[p].k = "f" /\ ~AllowsNode(sh.view, p, s.t[p]) THEN Fail(s, "hidden")
          ELSE LsFrom(s, sh, tg, long, i + 1,
                      acc \o (IF Len(tg) > 1 THEN <<tg[i] \o ":">> ELSE <<>>) \o <<blk>>)
CmdLs(st, sh, args) ==
  LET flags == {args[i] : i \in {j \in DOMAIN args : StartsWith(args[j], "-")}}
      tg == SelectSeq(args, LAMBDA a : ~StartsWith(a, "-"))
  IN IF flags \ {"-l", "--long"} # {} THEN IF sh.fb THEN HostTry(st, sh) ELSE Fail(st, "usage")
     ELSE LsFrom(st, sh, IF tg = <<>> THEN <<PathStr(Cwd(st))>> ELSE tg, flags # {}, 1, <<>>)

CmdCd(st, sh, args) ==
  IF Len(args) # 1 THEN Fail(st, "usage")
  ELSE LET o == Open(st, sh, args[1], "res")
           v == Vis(o.st, sh.view, o.raw)
       IN IF ~o.ok THEN Fail(o.st, "provider") ELSE IF v # "ok" THEN Fail(o.st, v) ELSE Cd(o.st, At(o.st, o.raw))

CmdTree(st, sh, args) ==
  LET o == Open(st, sh, IF args = <<>> THEN PathStr(Cwd(st)) ELSE args[1], "deep")
      v == Vis(o.st, sh.view, o.raw)
  IN IF ~o.ok THEN Fail(o.st, "provider") ELSE IF v # "ok" THEN Fail(o.st, v)
     ELSE TreeText(o.st, At(o.st, o.raw), sh.view)

CmdStat(st, sh, args) ==
  IF args = <<>> THEN Fail(st, "usage")
  ELSE LET o == Open(st, sh, args[1], "res")
           v == Vis(o.st, sh.view, o.raw)
           p == At(o.st, o.raw)
           n == o.st.t[p]
       IN IF ~o.ok THEN Fail(o.st, "provider") ELSE IF v # "ok" THEN Fail(o.st, v)
          ELSE IF p \notin DOMAIN o.st.t THEN Fail(o.st, "missing")
          ELSE IF n.k = "f" /\ BadAt(o.st, p) THEN Fail(o.st, "provider")
          ELSE [Out(o.st, <<"  File: " \o PathStr(p) \o LF
                            \o "  Size: " \o Pad(ToString(IF n.k = "f" THEN Len(TextAt(o.st, p)) ELSE 0), 10)
                            \o " Type: " \o (IF n.k = "f" THEN "regular file" ELSE "directory") \o LF
                            \o "  Vers: " \o Pad(ToString(n.v), 10)>>) EXCEPT !.mode = "pre"]

(* find [paths] [-name pat] [-type f|d] *)
RECURSIVE FindArgs(_, _, _)
FindArgs(args, i, o) ==
  IF i > Len(args) THEN o
  ELSE IF args[i] = "-name" THEN IF i = Len(args) THEN [o EXCEPT !.ok = FALSE]
                                 ELSE FindArgs(args, i + 2, [o EXCEPT !.name = args[i + 1]])
  ELSE IF args[i] = "-type" THEN IF i = Len(args) \/ args[i + 1] \notin {"f", "d"} THEN [o EXCEPT !.ok = FALSE]
                                 ELSE FindArgs(args, i + 2, [o EXCEPT !.type = args[i + 1]])
  ELSE IF StartsWith(args[i], "-") THEN [o EXCEPT !.ok = FALSE]
  ELSE FindArgs(args, i + 1, [o EXCEPT !.paths = Append(@, args[i])])
(* nodes reachable from p through nodes the view shows *)
Shown(st, p, view) == {q \in Below(st.t, p) :
  \A i \in Len(p)..Len(q) : AllowsNode(view, SubSeq(q, 1, i), st.t[SubSeq(q, 1, i)])}
RECURSIVE FindFrom(_, _, _, _, _)
FindFrom(st, sh, o, i, acc) ==
  IF i > Len(o.paths) THEN Bag(st, acc)
  ELSE LET op == Open(st, sh, o.paths[i], "res")
           s == op.st
           p == At(s, op.raw)
           v == Vis(s, sh.view, op.raw)
           nm(q) == IF q = <<>> THEN "" ELSE Name(q)
           hit == {q \in Shown(s, p, sh.view) : (o.type = "" \/ s.t[q].k = o.type)
                                                /\ (o.name = "" \/ GlobMatch(o.name, nm(q)))}
       IN IF ~op.ok THEN Fail(s, "provider") ELSE IF v # "ok" THEN Fail(s, v)
          ELSE IF p \notin DOMAIN s.t THEN Fail(s, "missing")
          ELSE FindFrom(s, sh, o, i + 1, acc \o SetToSeq({PathStr(q) : q \in hit}))
CmdFind(st, sh, args) ==
  LET o == FindArgs(args, 1, [ok |-> TRUE, name |-> "", type |-> "", paths |-> <<>>])
  IN IF ~o.ok THEN Fail(st, "usage")
     ELSE FindFrom(st, sh, IF o.paths = <<>> THEN [o EXCEPT !.paths = <<PathStr(Cwd(st))>>] ELSE o, 1, <<>>)

(* grep, rg, search *)
RECURSIVE GrepArgs(_, _, _)
GrepArgs(args, i, o) ==
  IF i > Len(args) THEN o
  ELSE LET a == args[i] IN
    IF a \in {"-r", "-R", "--recursive"} /\ ~o.search THEN GrepArgs(args, i + 1, [o EXCEPT !.rec = TRUE])
    ELSE IF a \in {"-i", "--ignore-case"} THEN GrepArgs(args, i + 1, [o EXCEPT !.ic = TRUE])
    ELSE IF a \in {"-n", "--line-number"} THEN GrepArgs(args, i + 1, [o EXCEPT !.num = TRUE])
    ELSE IF a \in {"-e", "--regex"} THEN GrepArgs(args, i + 1, [o EXCEPT !.regex = TRUE])
    ELSE IF a = "--no-line-number" /\ o.search THEN GrepArgs(args, i + 1, [o EXCEPT !.num = FALSE])
    ELSE IF o.pat = <<>> THEN GrepArgs(args, i + 1, [o EXCEPT !.pat = <<a>>])
    ELSE GrepArgs(args, i + 1, [o EXCEPT !.paths = Append(@, a)])
GrepText(o, txt) ==
  LET ls == SplitLines(txt)
      h == SelectSeq([i \in 1..Len(ls) |-> <<i, ls[i]>>], LAMBDA x : LineMatches(o.pat[1], o.regex, o.ic, x[2]))
  IN [i \in 1..Len(h) |-> IF o.num THEN ToString(h[i][1]) \o ":" \o h[i][2] ELSE h[i][2]]
RECURSIVE GrepFrom(_, _, _, _, _, _, _)
(* acc: lines so far; one: only one file so far (the order is then determined) *)
GrepFrom(st, sh, o, stdin, i, acc, one) ==
  IF i > Len(o.paths) THEN IF one THEN Out(st, <<Join(acc, LF)>>) ELSE Bag(st, acc)
  ELSE IF o.paths[i] = "-" THEN GrepFrom(st, sh, o, stdin, i + 1, acc \o GrepText(o, stdin), one)
  ELSE LET op == Open(st, sh, o.paths[i], IF o.rec THEN "deep" ELSE "list")
           s == op.st
           p == At(s, op.raw)
           v == Vis(s, sh.view, op.raw)
           F == {q \in Files(s.t, Below(s.t, p)) : (o.rec \/ Len(q) <= Len(p) + 1)
                                                   /\ AllowsNode(sh.view, q, s.t[q]) /\ s.t[q].r}
       IN IF ~op.ok THEN Fail(s, "provider") ELSE IF v # "ok" THEN Fail(s, v)
          ELSE IF p \notin DOMAIN s.t THEN Fail(s, "missing")
          ELSE IF ~s.t[p].r THEN Fail(s, "unreadable")
          ELSE IF \E q \in F : BadAt(s, q) THEN Fail(s, "provider")
          ELSE GrepFrom(s, sh, o, stdin, i + 1,
                        acc \o HitsOf(s, SetToSeq(F), o.pat[1], o.regex, o.ic, o.num), one /\ Cardinality(F) <= 1)
CmdGrep(st, sh, args, stdin, rec) ==
  LET o == GrepArgs(args, 1, [search |-> FALSE, rec |-> rec, ic |-> FALSE, num |-> FALSE, regex |-> FALSE,
                              pat |-> <<>>, paths |-> <<>>])
  IN IF o.pat = <<>> THEN Fail(st, "usage")
     ELSE IF RxBad(o.regex, o.pat[1])     \* whether the searches it names were made before is not determined
     THEN [Fail(st, "pattern") EXCEPT !.taint = \E i \in DOMAIN o.paths : ParseSearch(st, o.paths[i]).is]
     ELSE IF o.paths = <<>> THEN Out(st, <<Join(GrepText(o, stdin), LF)>>)
     ELSE GrepFrom(st, sh, o, stdin, 1, <<>>, TRUE)
CmdSearch(st, sh, args) ==
  LET o == GrepArgs(args, 1, [search |-> TRUE, rec |-> TRUE, ic |-> FALSE, num |-> TRUE, regex |-> FALSE,
                              pat |-> <<>>, paths |-> <<>>])
      paths == IF o.paths = <<>> THEN <<PathStr(Cwd(st))>> ELSE o.paths
      F(i) == SearchFiles(st, At(st, paths[i]), sh.view)
  IN IF o.pat = <<>> THEN Fail(st, "usage")
     ELSE IF RxBad(o.regex, o.pat[1]) /\ \E i \in DOMAIN paths : At(st, paths[i]) \in DOMAIN st.t /\ st.t[At(st, paths[i])].r
     THEN Fail(st, "pattern")
     ELSE IF \E i \in DOMAIN paths : IdxStale(st, F(i)) THEN [Out(st, <<"">>) EXCEPT !.mode = "any", !.taint = (sh.lim # -1)]
     ELSE IF \E i \in DOMAIN paths : \E p \in F(i) : BadAt(st, p) THEN Fail(st, "provider")
     ELSE Bag(st, FlattenSeq([i \in 1..Len(paths) |-> HitsOf(st, SetToSeq(F(i)), o.pat[1], o.regex, o.ic, o.num)]))

(* commands that change the tree *)
WriteTo(st, sh, raw, text, append) ==
  IF ParseSearch(st, raw).is THEN Fail(st, "searchview")
  ELSE IF Vis(st, sh.view, raw) # "ok" THEN Fail(st, Vis(st, sh.view, raw))
  ELSE Write(st, At(st, raw), text, append, -1)
RECURSIVE WriteArgs(_, _, _)
WriteArgs(args, i, o) ==
  IF i > Len(args) THEN o
  ELSE IF args[i] = "--append" THEN WriteArgs(args, i + 1, [o EXCEPT !.app = TRUE])
  ELSE IF args[i] = "--text" /\ i < Len(args) THEN WriteArgs(args, i + 2, [o EXCEPT !.txt = Append(@, args[i + 1])])
  ELSE WriteArgs(args, i + 1, [o EXCEPT !.txt = Append(@, args[i])])
CmdWrite(st, sh, args) ==
  IF args = <<>> THEN Fail(st, "usage")
  ELSE LET o == WriteArgs(args, 2, [app |-> FALSE, txt |-> <<>>])
       IN WriteTo(st, sh, args[1], Join(o.txt, " "), o.app)
CmdAppend(st, sh, args) ==
  IF Len(args) < 2 THEN Fail(st, "usage") ELSE WriteTo(st, sh, args[1], Join(Tail(args), " "), TRUE)

(* apply f to each path in turn, stopping at the first refusal *)
RECURSIVE EachPath(_, _, _, _, _, _)
EachPath(st, sh, paths, f(_, _), i, ev) ==
  IF i > Len(paths) THEN [Good(st) EXCEPT !.ev = ev]
  ELSE IF ParseSearch(st, paths[i]).is THEN [Fail(st, "searchview") EXCEPT !.ev = ev]
  ELSE IF Vis(st, sh.view, paths[i]) # "ok" THEN [Fail(st, Vis(st, sh.view, paths[i])) EXCEPT !.ev = ev]
  ELSE LET r == f(st, At(st, paths[i])) IN
       IF ~r.ok THEN [r EXCEPT !.ev = ev \o r.ev]
       ELSE EachPath(r.st, sh, paths, f, i + 1, ev \o r.ev)
CmdTouch(st, sh, args) ==
  IF args = <<>> THEN Fail(st, "usage") ELSE EachPath(st, sh, args, Touch, 1, <<>>)
CmdMkdir(st, sh, args) ==
  LET ps == \E i \in DOMAIN args : args[i] \in {"-p", "--parents"}
      paths == SelectSeq(args, LAMBDA a : a \notin {"-p", "--parents"})
  IN IF paths = <<>> THEN Fail(st, "usage")
     ELSE EachPath(st, sh, paths, LAMBDA s, p : Mkdir(s, p, ps, ps), 1, <<>>)
CmdRm(st, sh, args) ==
  LET flags == {"-r", "-rf", "-R", "--recursive"}
      rec == \E i \in DOMAIN args : args[i] \in flags
      paths == SelectSeq(args, LAMBDA a : a \notin flags)
  IN IF paths = <<>> THEN Fail(st, "usage")
     ELSE EachPath(st, sh, paths, LAMBDA s, p : Delete(s, p, rec), 1, <<>>)
Relocate(st, sh, src, dst, f(_, _, _)) ==
  LET s == At(st, src) IN
  IF ParseSearch(st, src).is \/ ParseSearch(st, dst).is THEN Fail(st, "searchview")
  ELSE IF Vis(st, sh.view, src) # "ok" THEN Fail(st, Vis(st, sh.view, src))
  ELSE IF Vis(st, sh.view, dst) # "ok" THEN Fail(st, Vis(st, sh.view, dst))
  ELSE IF s \notin DOMAIN st.t /\ sh.view.pfx.on THEN Fail(st, "missing")
  ELSE IF \E q \in Below(st.t, s) : ~InPrefixes(sh.view, q) THEN Fail(st, "hidden")
  ELSE f(st, s, At(st, dst))
CmdCp(st, sh, args) ==
  LET flags == {"-r", "-R", "--recursive"}
      rec == \E i \in DOMAIN args : args[i] \in flags
      ops == SelectSeq(args, LAMBDA a : a \notin flags)
  IN IF Len(ops) # 2 THEN Fail(st, "usage")
     ELSE Relocate(st, sh, ops[1], ops[2], LAMBDA s, a, b : Copy(s, a, b, rec))
CmdMv(st, sh, args) ==
  IF Len(args) # 2 THEN Fail(st, "usage") ELSE Relocate(st, sh, args[1], args[2], Move)

-----------------------------------------------------------------------------
BUILTIN == {"pwd", "cd", "ls", "cat", "touch", "mkdir", "rm", "cp", "mv", "tree", "write", "append", "echo",
            "printf", "wc", "grep", "rg", "search", "python", "python3", "host", "bash", "sh", "help", "stat",
            "head", "tail", "find"}
ESCAPES == {"python", "python3", "host", "bash", "sh"}
RECURSIVE HostRest(_)
(* the command words that follow the options of host *)
HostRest(args) ==
  IF args = <<>> THEN <<>>
  ELSE IF args[1] \in {"-p", "--path", "-C"} THEN IF Len(args) < 3 THEN <<>> ELSE HostRest(SubSeq(args, 3, Len(args)))
  ELSE IF args[1] = "--" THEN Tail(args) ELSE args
NoCode(name, args) == CASE name \in {"python", "python3"} -> args = <<>>
                        [] name = "host" -> HostRest(args) = <<>>
                        [] OTHER -> FALSE
Run(st, sh, name, args, stdin) ==
  CASE name = "pwd" -> Out(st, <<PathStr(Cwd(st))>>)
    [] name = "cd" -> CmdCd(st, sh, args)
    [] name = "ls" -> CmdLs(st, sh, args)
    [] name = "cat" -> CmdCat(st, sh, args, stdin)
    [] name = "touch" -> CmdTouch(st, sh, args)
    [] name = "mkdir" -> CmdMkdir(st, sh, args)
    [] name = "rm" -> CmdRm(st, sh, args)
    [] name = "cp" -> CmdCp(st, sh, args)
    [] name = "mv" -> CmdMv(st, sh, args)
    [] name = "tree" -> CmdTree(st, sh, args)
    [] name = "write" -> CmdWrite(st, sh, args)
    [] name = "append" -> CmdAppend(st, sh, args)
    [] name = "echo" -> CmdEcho(st, args)
    [] name = "printf" -> CmdPrintf(st, args)
    [] name = "wc" -> CmdWc(st, sh, args, stdin)
    [] name = "grep" -> CmdGrep(st, sh, args, stdin, FALSE)
    [] name = "rg" -> CmdGrep(st, sh, args, stdin, TRUE)
    [] name = "search" -> CmdSearch(st, sh, args)
    [] name = "stat" -> CmdStat(st, sh, args)
    [] name = "head" -> CmdHeadTail(st, sh, args, stdin, TRUE)
    [] name = "tail" -> CmdHeadTail(st, sh, args, stdin, FALSE)
    [] name = "find" -> CmdFind(st, sh, args)
    (* commands the embedding program registered *)
    [] name = "say" -> Out(st, <<Join(args, " ")>>)
    [] name = "keep" -> Out(st, <<stdin>>)
    [] name = "star" -> Out(st, <<Join(args, " ") \o ":" \o stdin>>)
    [] name = "quiet" -> Out(st, <<"">>)
    [] name = "warn" -> [Out(st, <<Join(args, " ")>>) EXCEPT !.err = "warned;"]
    [] name \in {"boom", "half", "neg", "loud"} -> Fail(st, "unknown")
    [] name = "help" -> [Out(st, <<"">>) EXCEPT !.mode = "any", !.taint = (sh.lim # -1)]
    [] name \in ESCAPES -> IF NoCode(name, args) THEN Fail(st, "usage") ELSE [Good(st) EXCEPT !.taint = TRUE]
    [] OTHER -> IF sh.fb THEN HostTry(st, sh) ELSE Fail(st, "unknown")

(* text of a successful stage; the order of several unordered lines is open *)
TextOf(r) == IF r.out = <<>> THEN "" ELSE IF r.mode = "bag" THEN Join(r.out, LF) ELSE r.out[1]
Fuzzy(r) == r.taint \/ r.mode \in {"any", "pre"} \/ (r.mode = "bag" /\ Len(r.out) > 1)
OverLimit(sh, r) == sh.lim # -1 /\ r.ok /\ Utf8Len(TextOf(r)) + Utf8Len(r.err) > sh.lim

RECURSIVE ExpandArgs(_, _, _, _, _, _)
ExpandArgs(st, sh, args, env, i, acc) ==
  IF i > Len(args) THEN [ok |-> TRUE, args |-> acc]
  ELSE LET a == Expand(args[i], env) IN
    IF ~HasWild(a) THEN ExpandArgs(st, sh, args, env, i + 1, Append(acc, a))
    ELSE LET g == Glob(st, a, Cwd(st), sh.view) IN
      IF ~g.ok THEN [ok |-> FALSE, args |-> <<>>]
      ELSE ExpandArgs(st, sh, args, env, i + 1, IF g.out = <<>> THEN Append(acc, a) ELSE acc \o g.out)

AsgEnv(env, asg) ==
  [k \in DOMAIN env \union {asg[i][1] : i \in DOMAIN asg} |->
     IF \E i \in DOMAIN asg : asg[i][1] = k
     THEN Expand(asg[CHOOSE i \in DOMAIN asg : asg[i][1] = k][2], env) ELSE env[k]]
RECURSIVE BareAsg(_, _, _)
BareAsg(env, asg, i) == IF i > Len(asg) THEN env
                        ELSE BareAsg(Put(env, asg[i][1], Expand(asg[i][2], env)), asg, i + 1)

RECURSIVE Stages(_, _, _, _, _, _, _)
(* run the stages of a pipeline from i on; pipe: text handed on; taint: it is not determined *)
Stages(st, id, ss, i, pipe, last, acc) ==
  IF i > Len(ss)
  THEN LET all == [last EXCEPT !.st = st, !.ev = acc.ev, !.spawn = acc.spawn, !.taint = acc.taint \/ @, !.err = acc.err] IN
       IF OverLimit(st.sh[id], all) THEN [all EXCEPT !.ok = FALSE, !.why = "limit", !.out = <<>>, !.mode = "seq"] ELSE all
  ELSE LET s == ss[i]
           sh == st.sh[id]
           stop(r) == [r EXCEPT !.ev = acc.ev \o @, !.spawn = acc.spawn + @, !.taint = acc.taint \/ @]
       IN IF s.name = <<>> THEN stop(Fail(st, "parse"))
          ELSE LET env == AsgEnv(sh.env, s.asg)
                   name == Expand(s.name[1], env)
                   xa == ExpandArgs(st, sh, s.args, env, 1, <<>>)
                   inr == IF s.in = <<>> THEN [ok |-> TRUE, st |-> st, txt |-> <<pipe>>, why |-> ""]
                          ELSE ReadArgs(st, sh, <<Expand(s.in[1], env)>>, "", 1, <<>>)
                   inr2 == IF s.in # <<>> /\ Expand(s.in[1], env) = "-"
                           THEN LET rr == Read(st, At(st, "-"))
                                IN [ok |-> rr.ok /\ Vis(st, sh.view, "-") = "ok", st |-> st, txt |-> rr.out, why |-> rr.why]
                           ELSE inr
               IN IF ~xa.ok THEN stop(Fail(st, "glob"))
                  ELSE IF ~inr2.ok THEN stop(Fail(inr2.st, inr2.why))
                  ELSE LET r0 == IF sh.allow.on /\ name \notin sh.allow.s THEN Fail(inr2.st, "disallowed")
                                 ELSE Run(inr2.st, sh, name, xa.args, inr2.txt[1])
                           r == IF OverLimit(sh, r0) THEN [r0 EXCEPT !.ok = FALSE, !.why = "limit", !.out = <<>>, !.mode = "seq"]
                                ELSE r0
                           fz == acc.taint \/ (r.ok /\ Fuzzy(r) /\ (i < Len(ss) \/ s.out # <<>>))
                       IN IF ~r.ok THEN stop(r)
                          ELSE LET a1 == [ev |-> acc.ev \o r.ev, spawn |-> acc.spawn + r.spawn, taint |-> fz, err |-> acc.err \o r.err] IN
                            IF s.out = <<>>
                            THEN Stages(r.st, id, ss, i + 1, TextOf(r), r, a1)
                            ELSE LET w == WriteTo(r.st, sh, Expand(s.out[1], env), TextOf(r), s.app) IN
                                 IF ~w.ok THEN [w EXCEPT !.ev = a1.ev \o @, !.spawn = a1.spawn, !.taint = a1.taint \/ @]
                                 ELSE Stages(w.st, id, ss, i + 1, "", Out(w.st, <<"">>), [a1 EXCEPT !.ev = @ \o w.ev])

RunLine(st, id, line) ==
  LET pl == ParseLine(line) IN
  IF ~pl.ok THEN Fail(st, "parse")
  ELSE IF pl.stages = <<>> THEN Out(st, <<"">>)
  ELSE IF Len(pl.stages) = 1 /\ pl.stages[1].name = <<>>
  THEN Out([st EXCEPT !.sh[id].env = BareAsg(@, pl.stages[1].asg, 1)], <<"">>)
  ELSE Stages(st, id, pl.stages, 1, "", Out(st, <<"">>), [ev |-> <<>>, spawn |-> 0, taint |-> FALSE, err |-> ""])

RECURSIVE Lines(_, _, _, _, _)
Lines(st, id, ls, i, last) ==
  IF i > Len(ls) THEN last
  ELSE LET r0 == RunLine(st, id, ls[i])
           r == [r0 EXCEPT !.ev = last.ev \o @, !.spawn = last.spawn + @, !.taint = last.taint \/ @]
       IN IF r.ok THEN Lines(r.st, id, ls, i + 1, r) ELSE r
Exec(st, id, text) ==
  LET ls == SelectSeq([i \in 1..Len(SplitLines(text)) |-> Strip(SplitLines(text)[i])], LAMBDA l : l # "")
      r == Lines(st, id, ls, 1, Out(st, <<"">>))
      o == IF r.out = <<>> THEN [r EXCEPT !.out = <<"">>, !.mode = "seq"] ELSE r
  IN [(IF r.mode = "bag" THEN r ELSE o) EXCEPT !.st = Discard(r.st)]
=============================================================================
