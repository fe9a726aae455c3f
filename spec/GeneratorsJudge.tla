-------------------------- MODULE GeneratorsJudge --------------------------
(* Combinations yielded by the real generators (C14).  rec.live: live arcs;   *)
(* rec.gen the generator, rec.min/max its bounds (max 0: as many as nodes),    *)
(* rec.got the yielded combinations (flattened over chunks), rec.chunks the     *)
(* chunk lengths.                                                              *)
EXTENDS Graphs, Judging
Top(rec)   == IF rec.max = 0 \/ rec.max > rec.n THEN rec.n ELSE rec.max
Sizes(rec) == rec.min..Top(rec)
Subsets(n, k) == {S \in SUBSET (1..n) : Cardinality(S) = k}
(* the undirected neighbours of a node *)
Sib(E, u) == {a[2] : a \in {b \in Und(E) : b[1] = u}}
(* the prescribed combinations, with sets for what is unordered *)
Wanted(rec) ==
  LET E == Range(rec.live) IN
  CASE rec.gen = "all"   -> {<<0, 0, S>> : S \in UNION {Subsets(rec.n, k) : k \in Sizes(rec)}}
    [] rec.gen = "pairs" -> {<<a[1], a[2], {}>> : a \in E}
    [] rec.gen = "neigh" -> UNION {{<<a[1], a[2], S>> : S \in {T \in SUBSET (Sib(E, a[1]) \ {a[2]}) : Cardinality(T) + 2 \in Sizes(rec)}} : a \in E}
Norm(rec, c) == IF rec.gen = "all" THEN <<0, 0, Range(c)>> ELSE <<c[1], c[2], {c[i] : i \in 3..Len(c)}>>
WellFormed(rec, c) == NoDup(c) /\ (rec.gen = "pairs" => Len(c) = 2) /\ (rec.gen = "neigh" => Len(c) >= 2)
Judge(rec) ==
  LET got == [i \in DOMAIN rec.got |-> Norm(rec, rec.got[i])] IN
  Clauses(<<
    <<rec.out = "ok",                                                   "generator-failed">>,
    <<\A c \in Range(rec.got) : WellFormed(rec, c),                     "malformed">>,
    <<NoDup(got),                                                       "twice">>,
    <<Range(got) \subseteq Wanted(rec),                                 "not-prescribed">>,
    <<rec.sample \/ Wanted(rec) \subseteq Range(got),                   "missing">>,
    <<\A i \in DOMAIN rec.chunks : rec.chunks[i] <= rec.chunk \/ rec.chunk = 0, "chunk-too-large">> >>)
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
