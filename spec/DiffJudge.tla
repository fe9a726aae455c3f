------------------------------ MODULE DiffJudge ------------------------------
EXTENDS Judging, Diff
(* rec.n, rec.ops: the history; rec.obs[i]: for a diff, the table printed: [table, cols, rows: sequence of [p, cells, same]] *)
Exps == {"e", "e_1", "f", "e_f"}
GraphFrom(n, g) == [p \in Pairs(n) |-> LET i == CHOOSE i \in DOMAIN g : g[i][1] = p[1] /\ g[i][2] = p[2] IN g[i][3]]
RECURSIVE StoreAt(_, _)
StoreAt(rec, i) == IF i = 0 THEN [e \in Exps |-> <<>>]
  ELSE LET s == StoreAt(rec, i - 1)
           o == rec.ops[i]
       IN IF o.k = "run" THEN [s EXCEPT ![o.e] = Append(@, GraphFrom(rec.n, o.g))] ELSE s
Verdict(rec, i) ==
  LET o == rec.ops[i]
      x == rec.obs[i]
      s == TLCEval(StoreAt(rec, i))
  IN IF o.k = "run" THEN IF x.out = "ok" THEN "ok" ELSE "run-failed"
     ELSE IF ~Comparable(s, o.args) THEN IF x.rows = <<>> THEN "ok" ELSE "table-of-unknown-results"
     ELSE LET exp == Rows(rec.n, s, o.args, o.only) IN Clauses(<<
        <<x.out = "ok",                                                     "diff-failed">>,
        <<x.cols = Len(o.args),                                             "columns">>,
        <<SetIs([j \in DOMAIN x.rows |-> x.rows[j].p], {r.p : r \in exp}),   "rows">>,
        <<\A j \in DOMAIN x.rows : \A r \in exp : r.p = x.rows[j].p => r.cells = x.rows[j].cells, "cells">>,
        <<\A j \in DOMAIN x.rows : \A r \in exp : r.p = x.rows[j].p => r.same = x.rows[j].same,   "equal-mark">> >>)
Judge(rec) == LET bad == {i \in DOMAIN rec.ops : Verdict(rec, i) # "ok"} IN IF bad = {} THEN "ok" ELSE Verdict(rec, Min(bad))
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
