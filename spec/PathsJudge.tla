----------------------------- MODULE PathsJudge -----------------------------
(* Path and ancestry queries of the real graph (C13) on graphs with directed, *)
(* undirected and deleted edges; rec.live are the live arcs.                   *)
EXTENDS Graphs, Judging
PairOk(E, r) ==
  Clauses(<<
    <<r.out = "ok",                                          "query-failed">>,
    <<r.exists = CanReach(E, r.u, r.v),                      "directed-path-exists">>,
    <<SetIs(r.dpaths, SimplePaths(E, r.u, r.v)),             "directed-paths">>,
    <<SetIs(r.upaths, SimplePaths(Skel(E), r.u, r.v)),       "undirected-paths">> >>)
NodeOk(E, r) ==
  Clauses(<<
    <<r.out = "ok",                                          "query-failed">>,
    <<SetIs(r.desc, Descendants(E, r.u)),                    "descendants">> >>)
Judge(rec) ==
  LET E  == Range(rec.live)
      b1 == {i \in DOMAIN rec.pairs : PairOk(E, rec.pairs[i]) # "ok"}
      b2 == {i \in DOMAIN rec.nodes : NodeOk(E, rec.nodes[i]) # "ok"}
  IN IF b1 # {} THEN LET i == CHOOSE j \in b1 : \A k \in b1 : j <= k IN PairOk(E, rec.pairs[i])
     ELSE IF b2 # {} THEN LET i == CHOOSE j \in b2 : \A k \in b2 : j <= k IN NodeOk(E, rec.nodes[i])
     ELSE "ok"
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
