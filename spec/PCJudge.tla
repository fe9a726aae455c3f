------------------------------ MODULE PCJudge ------------------------------
(* A run of a shipped PC variant.                                             *)
(* rec.n, rec.dag (the DAG whose independencies the data has exactly, if       *)
(* rec.faithful), rec.first: the step at which the subset search starts (3 or  *)
(* 4 nodes), rec.arcs / rec.types: the returned graph,                         *)
(* rec.tests: <<u, v, Z, outcome>> in log order, rec.cuts: arcs pairs removed   *)
(* by the skeleton phase, rec.hist: per pair of nodes <<u, v, separating sets   *)
(* of the edge history>> in both directions, rec.claims                        *)
EXTENDS Orientation, Judging
Dag(rec)  == TLCEval(Range(rec.dag))
Final(rec) == TLCEval(Range(rec.arcs))
TypesOk(rec) == LET H == Final(rec) IN
  /\ {<<t[1], t[2]>> : t \in Range(rec.types)} = H
  /\ \A i \in DOMAIN rec.types : rec.types[i][3] = (IF <<rec.types[i][2], rec.types[i][1]>> \in H THEN "UNDIRECTED" ELSE "DIRECTED")
JudgeExact(rec) ==
  LET H == Final(rec)
      C == TLCEval(CPDAG(Dag(rec)))
  IN Clauses(<< <<Skel(H) = Skel(C), "adjacencies">>,
                <<H = C, "orientations">>,
                <<TypesOk(rec), "types">> >>)
(* ---- the skeleton search ---- *)
TestsOn(T, u, v) == {t \in T : {t[1], t[2]} = {u, v}}
Prescribed(S, first, u, v) ==
  {{}} \cup (IF first = 4 THEN {{w} : w \in Nbrs(S, u) \cap Nbrs(S, v)} ELSE {})
       \cup {Z \in SUBSET (Nbrs(S, u) \ {v}) \cup SUBSET (Nbrs(S, v) \ {u}) : Cardinality(Z) >= first - 2}
JudgeSearch(rec) ==
  LET S == TLCEval(Skel(Final(rec)))
      T == TLCEval({<<rec.tests[i][1], rec.tests[i][2], Range(rec.tests[i][3]), rec.tests[i][4]>> : i \in DOMAIN rec.tests})
      PS == {p \in (1..rec.n) \X (1..rec.n) : p[1] < p[2]}
      Gone == {p \in PS : p \notin S}
      Left == PS \ Gone
      Hist == TLCEval([p \in {q \in (1..rec.n) \X (1..rec.n) : q[1] # q[2]} |->
                 UNION {{Range(z) : z \in Range(h[3])} : h \in {x \in Range(rec.hist) : x[1] = p[1] /\ x[2] = p[2]}}])
  IN Clauses(<< <<\A t \in T : t[1] # t[2] /\ t[1] \notin t[3] /\ t[2] \notin t[3] /\ t[3] \subseteq 1..rec.n, "ill-formed-test">>,
                <<\A t \in T : \A s \in TestsOn(T, t[1], t[2]) : s[3] = t[3] => s[4] = t[4], "contradicting-outcomes">>,
                <<rec.faithful => \A t \in T : (t[4] = "independent") = DSep(Dag(rec), t[1], t[2], t[3]), "wrong-outcome">>,
                <<Range(rec.cuts) = Gone, "cuts-do-not-give-the-skeleton">>,
                <<\A p \in Gone : \E t \in TestsOn(T, p[1], p[2]) : t[4] = "independent", "unjustified-cut">>,
                <<\A p \in Gone : \A q \in {p, <<p[2], p[1]>>} :
                     /\ Cardinality(Hist[q]) = 1
                     /\ \A Z \in Hist[q] : \E t \in TestsOn(T, p[1], p[2]) : t[4] = "independent" /\ t[3] = Z, "edge-history">>,
                <<\A p \in Left : Hist[p] = {} /\ Hist[<<p[2], p[1]>>] = {}, "history-of-a-kept-edge">>,
                <<\A p \in Left : \A t \in TestsOn(T, p[1], p[2]) : t[4] = "dependent", "kept-although-independent">>,
                <<\A p \in Left : LET Zs == {t[3] : t \in TestsOn(T, p[1], p[2])}
                                  IN Prescribed(S, rec.first, p[1], p[2]) \subseteq Zs, "missing-test">> >>)
Judge(rec) ==
  IF rec.out # "ok" THEN "fails-" \o rec.out
  ELSE LET a == IF "exact" \in Range(rec.claims) THEN JudgeExact(rec) ELSE "ok"
       IN IF a # "ok" THEN a
          ELSE IF "search" \in Range(rec.claims) THEN JudgeSearch(rec) ELSE "ok"
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
