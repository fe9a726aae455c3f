---------------------------- MODULE SampleJudge ----------------------------
(* Sample generators: structural equations over integers.                      *)
(* rec.edges: <<from, to, coefficient, lag>>; rec.vals[k]: the values of        *)
(* variable k, sample by sample (time point by time point); rec.noise: the      *)
(* numbers handed out by the noise source, all different, multiples of          *)
(* rec.grid; i.i.d. coefficients are in units of 1/den and values in units of   *)
(* 1/scale (scale = den^longest path, so that the values of all parents are     *)
(* multiples of den and the equations are exact); rec.garcs: the edges of the   *)
(* returned graph (<<u, v>>, or <<u, t, v, s>> for time series); rec.L: the      *)
(* longest lag                                                                   *)
EXTENDS Graphs, Judging
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
(* what is left of variable k at point i when its parents are taken out *)
Residual(rec, k, i) ==
  LET in == SelectSeq(rec.edges, LAMBDA e : e[2] = k)
      part == [j \in DOMAIN in |-> in[j][3] * (rec.vals[in[j][1]][i - in[j][4]] \div rec.den)]
  IN rec.vals[k][i] - SumSeq(part, 1)
Near(rec, x, y) == x - y < rec.grid \div 4 + (IF rec.grid = 1 THEN 1 ELSE 0) /\ y - x < rec.grid \div 4 + (IF rec.grid = 1 THEN 1 ELSE 0)
Points(rec) == {<<k, i>> : k \in 1..rec.n, i \in (rec.L + 1)..rec.size}
NoiseOf(rec, p) == LET r == Residual(rec, p[1], p[2]) IN {j \in DOMAIN rec.noise : Near(rec, r, rec.scale * rec.noise[j])}
Equations(rec) ==
  LET f == TLCEval([p \in Points(rec) |-> NoiseOf(rec, p)])
  IN /\ \A p \in Points(rec) : Cardinality(f[p]) = 1
     /\ Cardinality(UNION {f[p] : p \in Points(rec)}) = Cardinality(Points(rec))
IidArcs(rec) == {<<e[1], e[2]>> : e \in Range(rec.edges)}
TsArcs(rec)  == UNION {{<<e[1], t - e[4], e[2], t>> : t \in {s \in 1..(rec.size - 1) : s - e[4] >= 0}} : e \in Range(rec.edges)}
JudgeIid(rec) ==
  LET E == IidArcs(rec)
  IN IF Acyclic(E)
     THEN Clauses(<< <<rec.out = "ok", "fails-" \o rec.out>>,
                     <<\A k \in 1..rec.n : Len(rec.vals[k]) = rec.size, "size">>,
                     <<rec.exact, "values">>,
                     <<Equations(rec), "equations">>,
                     <<Len(rec.noise) = rec.n * rec.size, "noise-terms">>,
                     <<~rec.graph \/ SetIs(rec.garcs, E), "graph">>,
                     <<rec.gvals, "graph-values">> >>)
     ELSE Clauses(<< <<rec.out = "rejected", "cycle-accepted-" \o rec.out>> >>)
JudgeTs(rec) ==
  Clauses(<< <<rec.out = "ok", "fails-" \o rec.out>>,
             <<\A k \in 1..rec.n : Len(rec.vals[k]) = rec.size, "size">>,
             <<rec.exact, "values">>,
             <<Equations(rec), "equations">>,
             <<SetIs(rec.garcs, TsArcs(rec)), "graph">>,
             <<rec.gvals, "graph-values">> >>)
Judge(rec) == IF rec.kind = "iid" THEN JudgeIid(rec) ELSE JudgeTs(rec)
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
