------------------------------ MODULE GraphGen ------------------------------
(* Expands numbered graphs: for each request (n, digits, kind) of the file    *)
(* REQ the graph(s) it stands for are written to GENOUT.                       *)
(*  kind "dag":   if acyclic, the DAG and its CPDAG                            *)
(*  kind "mixed": the live and the marked-as-deleted arcs                      *)
EXTENDS Graphs, Judging
Req(r) ==
  LET live == LiveOf(r.n, r.ds) IN
  IF r.kind = "dag"
  THEN IF Acyclic(live)
       THEN CSVWrite("%1$s", <<ToJson([n |-> r.n, ds |-> r.ds, dag |-> SetToSeq(live), cpdag |-> SetToSeq(CPDAG(live))])>>, IOEnv.GENOUT)
       ELSE TRUE
  ELSE CSVWrite("%1$s", <<ToJson([n |-> r.n, ds |-> r.ds, live |-> SetToSeq(live), soft |-> SetToSeq(SoftOf(r.n, r.ds))])>>, IOEnv.GENOUT)
Judge(r) == IF Req(r) THEN "ok" ELSE "failed"
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
