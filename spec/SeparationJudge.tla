-------------------------- MODULE SeparationJudge --------------------------
(* rec.n, rec.dag: a DAG; rec.q: sequence of queries <<u, v, Z, answers>>,    *)
(* put to the real DAG (C11) or to the real CPDAG of that DAG (C12); answers   *)
(* are the outcomes of all call styles: "true", "false" or an exception.       *)
EXTENDS Graphs, Judging
Expected(E, q) ==
  LET Z == Range(q[3]) IN
  IF q[1] \in Z \/ q[2] \in Z THEN "rejected"
  ELSE IF DSep(E, q[1], q[2], Z) THEN "true" ELSE "false"
QueryOk(E, q) ==
  LET x == Expected(E, q) IN \A a \in Range(q[4]) : a = x
Judge(rec) ==
  LET E   == Range(rec.dag)
      bad == {i \in DOMAIN rec.q : ~QueryOk(E, rec.q[i])}
  IN IF bad = {} THEN "ok"
     ELSE LET i == CHOOSE j \in bad : \A k \in bad : j <= k
          IN "expected-" \o Expected(E, rec.q[i]) \o "-query-" \o ToString(i)
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
