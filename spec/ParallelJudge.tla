--------------------------- MODULE ParallelJudge ---------------------------
(* Judges recorded parallel executions (C15).                                 *)
EXTENDS Judging, ParallelExec
Tag(a)   == <<a.k, a.u, a.v, a.m>>
Tags(s)  == [i \in DOMAIN s |-> Tag(s[i])]
Start(rec) == [nodes |-> [i \in 1..rec.n |-> i],
               arc |-> [p \in Pairs |-> IF <<p[1], p[2]>> \in Range(rec.init) \/ <<p[2], p[1]>> \in Range(rec.init) THEN LiveArc("UNDIRECTED", 0) ELSE NoArc],
               arch |-> [p \in Pairs |-> 0]]
(* the steps one after another; log: sequence of [taken, prop]; the order in    *)
(* which results arrived is rec.o.order (observed where it cannot be chosen)     *)
RECURSIVE RunPar(_, _, _, _)
RunPar(r, prog, ord, i) ==
  IF i > Len(prog) THEN r
  ELSE LET acc == Deliver([r.acc EXCEPT !.taken = <<>>, !.prop = <<>>], prog[i].results, ord[i])
       IN RunPar([acc |-> [acc EXCEPT !.s = Purge(acc.s)], log |-> Append(r.log, [taken |-> Tags(acc.taken), prop |-> Tags(acc.prop)])], prog, ord, i + 1)
IsPerm(s, n) == Len(s) = n /\ Range(s) = 1..n
Judge(rec) ==
  LET o == rec.o
      known == rec.schedule = "chosen"
      ord == [i \in DOMAIN rec.prog |-> IF known \/ ~rec.prog[i].par THEN rec.prog[i].order ELSE o.order[i]]
      x == RunPar([acc |-> Acc0(Start(rec)), log |-> <<>>], rec.prog, ord, 1)
  IN Clauses(<<
    <<o.out = "ok",                                                        "run-failed">>,
    <<\A i \in DOMAIN rec.prog : IsPerm(ord[i], Len(rec.prog[i].results)), "combination-lost-or-repeated">>,
    <<~known \/ \A i \in DOMAIN rec.prog : SetIs(o.handed[i], 1..Len(rec.prog[i].results)), "combination-handed-not-once">>,
    <<o.log = x.log,                                                       "changes">>,
    <<SetIs(o.final, View(x.acc.s).edges),                                 "final-graph">>,
    <<\A i \in DOMAIN rec.prog : rec.prog[i].par \/ o.local[i],            "sequential-step-left-the-process">>,
    <<(\E i \in DOMAIN rec.prog : rec.prog[i].par) \/ o.pools = 0,         "pool-without-parallel-step">> >>)
JInit == JStart /\ st = 0 /\ hist = 0
JNext == JStep(Judge) /\ UNCHANGED <<st, hist>>
JSpec == JInit /\ [][JNext]_<<jvars, st, hist>>
JOk == JLogged
=============================================================================
