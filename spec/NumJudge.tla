------------------------------ MODULE NumJudge ------------------------------
(* Exact arithmetic on integer data.                                          *)
(* rec.kind "corr":   rec.cols (integer columns, one per node), rec.arcs,       *)
(*                    rec.obs: <<u, v, state, r * 10^12, in range, tag kept>>    *)
(*          "effect": rec.obs: <<u, v, state, effect * 10^9, tag kept>>          *)
EXTENDS Graphs, Bignum, Judging
N(rec) == Len(rec.cols[1])
(* halving keeps the recursion flat on long columns *)
RECURSIVE DotIn(_, _, _, _)
DotIn(x, y, lo, hi) ==
  IF lo > hi THEN 0 ELSE IF lo = hi THEN x[lo] * y[lo]
  ELSE LET m == (lo + hi) \div 2 IN DotIn(x, y, lo, m) + DotIn(x, y, m + 1, hi)
Dot(x, y) == DotIn(x, y, 1, Len(x))
RECURSIVE SumIn(_, _, _)
SumIn(x, lo, hi) ==
  IF lo > hi THEN 0 ELSE IF lo = hi THEN x[lo]
  ELSE LET m == (lo + hi) \div 2 IN SumIn(x, lo, m) + SumIn(x, m + 1, hi)
Total(x) == SumIn(x, 1, Len(x))
Cov(x, y) == Sub(Mul(Big(Len(x)), Big(Dot(x, y))), Mul(Big(Total(x)), Big(Total(y))))
(* |r| = K / 10^12 up to 10^-9, and the sign *)
IsPearson(x, y, r) ==
  LET c  == Cov(x, y)
      vv == Mul(Cov(x, x), Cov(y, y))
      K  == Abs(r)
      T  == Big(1000)
      c2 == Mul(Mul(c, c), TenTo(24))
      hi == Add(K, T)
      lo == Sub(K, T)
  IN /\ Leq(c2, Mul(Mul(hi, hi), vv))
     /\ Sign(lo) <= 0 \/ Leq(Mul(Mul(lo, lo), vv), c2)
     /\ Sign(lo) <= 0 \/ Sign(r) = Sign(c)
JudgeCorr(rec) ==
  LET E == Range(rec.arcs)
      ok(o) == o[3] = "num" /\ IsPearson(rec.cols[o[1]], rec.cols[o[2]], FromObs(o[4]))
  IN Clauses(<< <<rec.out = "ok", "fails-" \o rec.out>>,
                <<{<<o[1], o[2]>> : o \in Range(rec.obs)} = E, "edges">>,
                <<\A i \in DOMAIN rec.obs : rec.obs[i][5] = "yes", "out-of-range">>,
                <<\A i \in DOMAIN rec.obs : ok(rec.obs[i]), "not-the-correlation">>,
                <<\A i \in DOMAIN rec.obs : rec.obs[i][6] = "kept", "other-values">> >>)
(* regression of column v on the columns of the parents ps (a sequence), Cramer; parents are what the graph reports as parents: every node with an arc into v *)
Gram(rec, ps) == TLCEval([i \in DOMAIN ps |-> TLCEval([j \in DOMAIN ps |-> Big(Dot(rec.cols[ps[i]], rec.cols[ps[j]]))])])
WithCol(M, b, c) == TLCEval([i \in DOMAIN M |-> TLCEval([j \in DOMAIN M |-> IF j = c THEN b[i] ELSE M[i][j]])])
EffectOk(rec, E, o) ==
  LET ps == SetToSeq(Parents(E, o[2]))
      M  == Gram(rec, ps)
      b  == TLCEval([i \in DOMAIN ps |-> Big(Dot(rec.cols[ps[i]], rec.cols[o[2]]))])
      c  == CHOOSE i \in DOMAIN ps : ps[i] = o[1]
      d  == Abs(Det(M))
      dc == LET D == Det(M) IN IF Sign(D) < 0 THEN Neg(Det(WithCol(M, b, c))) ELSE Det(WithCol(M, b, c))
      diff == Abs(Sub(Mul(d, FromObs(o[4])), Mul(dc, TenTo(9))))
      tol  == Mul(d, Add(Big(1000), Big(0)))
  IN Sign(d) = 0 \/ (o[3] = "num" /\ Leq(diff, Add(tol, Mul(Abs(dc), Big(10)))))
JudgeEffect(rec) ==
  LET E == TLCEval(Range(rec.arcs))
      D == Dir(E)
  IN Clauses(<< <<rec.out = "ok", "fails-" \o rec.out>>,
                <<{<<o[1], o[2]>> : o \in Range(rec.obs)} = E, "edges">>,
                <<\A i \in DOMAIN rec.obs : LET o == rec.obs[i] IN <<o[1], o[2]>> \notin D => o[3] = "none", "effect-on-undirected-edge">>,
                <<\A i \in DOMAIN rec.obs : LET o == rec.obs[i] IN <<o[1], o[2]>> \in D => o[3] # "none", "missing-effect">>,
                <<\A i \in DOMAIN rec.obs : LET o == rec.obs[i] IN <<o[1], o[2]>> \in D => EffectOk(rec, E, o), "not-the-coefficient">>,
                <<\A i \in DOMAIN rec.obs : rec.obs[i][5] = "kept", "other-values">>,
                <<\A i \in DOMAIN rec.obs : rec.obs[i][6] = (IF <<rec.obs[i][2], rec.obs[i][1]>> \in E THEN "UNDIRECTED" ELSE "DIRECTED"), "types">> >>)
Judge(rec) == IF rec.kind = "corr" THEN JudgeCorr(rec) ELSE JudgeEffect(rec)
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
