-------------------------------- MODULE Diff --------------------------------
(* Stored graphs of experiments and the comparison of any of them.             *)
(* A graph: function from pairs <<i, j>>, i < j, to "none" (no edge), "und",    *)
(* "fwd" (i -> j), "bwd" (j -> i).  store: experiment -> sequence of graphs,     *)
(* oldest first.  An argument is [e, v]: version v of e, or the newest (v = 0). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Pairs(n) == {<<i, j>> : i \in 1..n, j \in 1..n} \ {<<i, j>> \in (1..n) \X (1..n) : i >= j}
KindsOfPair == {"none", "und", "fwd", "bwd"}
Known(store, a) == a.e \in DOMAIN store /\ (IF a.v = 0 THEN Len(store[a.e]) > 0 ELSE a.v \in DOMAIN store[a.e])
GraphOf(store, a) == IF a.v = 0 THEN Last(store[a.e]) ELSE store[a.e][a.v]
(* all arguments name something, and there are at least two *)
Comparable(store, args) == Len(args) >= 2 /\ \A i \in DOMAIN args : Known(store, args[i])
Cell(k) == CASE k = "none" -> "" [] k = "und" -> "---" [] OTHER -> "-->"
Rows(n, store, args, only) ==
  LET g == TLCEval([i \in DOMAIN args |-> GraphOf(store, args[i])])
      hit == {p \in Pairs(n) : \E i \in DOMAIN g : g[i][p] # "none"}
      same(p) == \A i \in DOMAIN g : g[i][p] = g[1][p]
  IN {[p |-> p, cells |-> [i \in DOMAIN g |-> Cell(g[i][p])], same |-> same(p)] : p \in {q \in hit : ~only \/ ~same(q)}}
=============================================================================
