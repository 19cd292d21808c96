--------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* One operation of the system, given as a record: what the harness calls  *)
(* on the implementation and what Apply says must happen.                  *)
(***************************************************************************)
EXTENDS Host, Py, Cli

SeqSet(q) == {q[i] : i \in DOMAIN q}
DecView(v) == [full |-> v.full, cls |-> [on |-> v.cls.on, s |-> SeqSet(v.cls.s)],
               prn |-> [on |-> v.prn.on, s |-> SeqSet(v.prn.s)],
               pfx |-> [on |-> v.pfx.on, s |-> SeqSet(v.pfx.s)],
               md |-> [on |-> v.md.on, s |-> SeqSet(v.md.s)]]
DecNode(n) == [n EXCEPT !.pr = SeqSet(@), !.md = SeqSet(@)]
PairFn(q) == [k \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = k][2]]
DecShell(c) == [view |-> DecView(c.view), allow |-> [on |-> c.allow.on, s |-> SeqSet(c.allow.s)],
                lim |-> c.lim, env |-> PairFn(c.env), fb |-> c.fb]

IterFiles(st, p, rec, skip) ==
  IF p \notin DOMAIN st.t THEN Fail(st, "invalid")
  ELSE IF ~st.t[p].r THEN Fail(st, "unreadable")
  ELSE Bag(st, SetToSeq({PathStr(q) : q \in {x \in Files(st.t, Below(st.t, p)) : (rec \/ Len(x) <= Len(p) + 1) /\ \A s \in SeqSet(skip) : ~IsPre(At(st, s), x)}}))

(* a subtree written to a host directory: relative path, kind and text of every node *)
RelStr(p, q) == Join(SubSeq(q, Len(p) + 1, Len(q)), "/")
Export(st, p) ==
  IF ~IsD(st.t, p) THEN Fail(st, "invalid")
  ELSE IF \E q \in Files(st.t, Below(st.t, p)) : BadAt(st, q) THEN Fail(st, "provider")
  ELSE Bag(st, SetToSeq({IF st.t[q].k = "d" THEN "d " \o RelStr(p, q)
                         ELSE "f " \o RelStr(p, q) \o " " \o TextAt(st, q) : q \in Below(st.t, p) \ {p}}))

Apply(st, op) ==
  LET P == At(st, op.p) IN
  CASE op.k = "read" -> Read(st, P)
    [] op.k = "write" -> Write(st, P, op.data, op.app, op.ver)
    [] op.k = "cli" -> Cli(st, op)
    [] op.k = "mkdir" -> Mkdir(st, P, op.parents, op.exok)
    [] op.k = "touch" -> Touch(st, P)
    [] op.k = "remove" -> Delete(st, P, op.rec)
    [] op.k = "move" -> Move(st, P, At(st, op.p2))
    [] op.k = "copy" -> Copy(st, P, At(st, op.p2), op.rec)
    [] op.k = "cd" -> Cd(st, P)
    [] op.k = "pwd" -> Out(st, <<PathStr(Cwd(st))>>)
    [] op.k = "exists" -> Out(st, <<Flag(P \in DOMAIN st.t)>>)
    [] op.k = "isdir" -> Out(st, <<Flag(IsD(st.t, P))>>)
    [] op.k = "isfile" -> Out(st, <<Flag(IsF(st.t, P))>>)
    [] op.k = "version" -> IF IsF(st.t, P) THEN Out(st, <<ToString(st.t[P].v)>>) ELSE Fail(st, "invalid")
    [] op.k = "ls" -> Ls(st, P, DecView(op.view))
    [] op.k = "tree" -> TreeText(st, P, DecView(op.view))
    [] op.k = "glob" -> Glob(st, op.pat, P, DecView(op.view))
    [] op.k = "walk" -> Walk(st, P)
    [] op.k = "files" -> IterFiles(st, P, op.rec, op.skip)
    [] op.k = "search" -> Search(st, op.q, op.regex, op.ic, IF op.pre THEN P ELSE <<>>, DecView(op.view))
    [] op.k = "snap" -> Snapshot(st, op.id)
    [] op.k = "restore" -> IF op.id \in DOMAIN st.snap THEN Restore(st, op.id) ELSE Fail(st, "nosnap")
    [] op.k = "setpol" -> SetPol(st, P, op.pol)
    [] op.k = "pokepol" -> PokePol(st, P, op.f, op.b)
    [] op.k = "pokeprin" -> PokePrin(st, P, op.x)
    [] op.k = "pokemd" -> PokeMd(st, P, op.key, op.val)
    [] op.k = "provset" -> Good([st EXCEPT !.prov = Put(@, op.id, [txt |-> op.txt, bad |-> op.bad])])
    [] op.k = "dprovset" -> Good([st EXCEPT !.dprov = Put(@, op.id,
                              [bad |-> op.bad, nodes |-> [i \in 1..Len(op.nodes) |->
                                 [p |-> op.nodes[i].p, n |-> DecNode(op.nodes[i].n)]]])])
    [] op.k = "mountfile" -> MountFile(st, P, op.id, op.md)
    [] op.k = "mountdir" -> MountDir(st, P, op.id, op.md)
    [] op.k = "newad" -> Good([st EXCEPT !.ad = Put(@, op.id, [kind |-> op.kind,
                                 hd |-> IF op.kind = "fs" THEN {<<>>} \union UNION {DirsOf(op.init[i][1]) : i \in DOMAIN op.init} ELSE {},
                                 e |-> [r \in {op.init[i][1] : i \in DOMAIN op.init} |->
                                          [Entry(PairFn(op.init)[r], 0) EXCEPT !.v = IF op.kind = "fs" THEN -1 ELSE 0]]])])
    [] op.k = "mount" -> MountStorage(st, P, op.id, op.pol)
    [] op.k = "sync" -> Sync(st, P)
    [] op.k = "extw" -> ExtWrite(st, op.id, op.rel, op.data)
    [] op.k = "extd" -> ExtDelete(st, op.id, op.rel)
    [] op.k = "arm" -> Good([st EXCEPT !.arm = @ \union {<<op.id, op.what>>}])
    [] op.k = "disarm" -> Good([st EXCEPT !.arm = {}])
    [] op.k = "hook" -> Good([st EXCEPT !.hk = Append(@, [id |-> op.id, kind |-> op.kind, p |-> P])])
    [] op.k = "index" -> Good([st EXCEPT !.idx = TRUE])
    [] op.k = "sview" -> EnableSearchView(st, P)
    [] op.k = "shell" -> Good([st EXCEPT !.sh = Put(@, op.id, DecShell(op.cfg))])
    [] op.k = "sh" -> Exec(st, op.id, op.text)
    [] op.k = "export" -> Export(st, P)
    [] op.k = "host" -> Host(st, op)
    [] op.k = "py" -> PyExec(st, op)

(* classes of operations *)
ADMIN == {"setpol", "pokepol", "pokeprin", "pokemd", "restore", "mount", "sync", "mountfile", "mountdir",
          "provset", "dprovset", "newad", "extw", "extd", "arm", "disarm", "hook", "index", "sview", "shell", "snap"}
QUERY == {"read", "pwd", "exists", "isdir", "isfile", "version", "ls", "tree", "glob", "walk", "files", "search",
          "export"}
=============================================================================
