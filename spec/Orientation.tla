---------------------------- MODULE Orientation ----------------------------
(* The orientation phase of the PC algorithm: the collider step on a skeleton  *)
(* with separating sets, then rounds of the four rules until a round changes   *)
(* nothing.  A graph is a set of arcs (Graphs.tla).                            *)
EXTENDS Graphs, TLC

(* -- collider step ---------------------------------------------------------- *)
(* sep: function from ordered pairs <<i, j>> (i < j in node order) to sets      *)
Common(S, u, v) == Nbrs(S, u) \cap Nbrs(S, v)
Demanded(S, sep, u, v) == IF AdjIn(S, u, v) THEN {} ELSE Common(S, u, v) \ sep[<<u, v>>]
(* node pairs in the order in which they are visited: order is the sequence of nodes *)
PairsInOrder(order) ==
  LET n == Len(order)
      RECURSIVE Row(_, _)
      Row(i, j) == IF i >= n THEN <<>>
                   ELSE IF j > n THEN Row(i + 1, i + 2)
                   ELSE << <<order[i], order[j]>> >> \o Row(i, j + 1)
  IN Row(1, 2)
(* one v-structure u -> z <- v put into the graph *)
IsContradicted(G, u, z) == <<u, z>> \notin G
PutFirst(G, u, z, v) ==
  IF IsContradicted(G, u, z) \/ IsContradicted(G, v, z) THEN G
  ELSE G \ {<<z, u>>, <<z, v>>}
PutLast(G, u, z, v) == (G \cup {<<u, z>>, <<v, z>>}) \ {<<z, u>>, <<z, v>>}
(* v-structures of one pair never contradict each other: their order is free *)
RECURSIVE PutAll(_, _, _, _, _)
PutAll(G, u, v, Z, strat) ==
  IF Z = {} THEN G
  ELSE LET z == CHOOSE x \in Z : TRUE
       IN PutAll(IF strat = "KEEP_FIRST" THEN PutFirst(G, u, z, v) ELSE PutLast(G, u, z, v), u, v, Z \ {z}, strat)
RECURSIVE CollidersFrom(_, _, _, _, _, _)
CollidersFrom(G, S, sep, pairs, i, strat) ==
  IF i > Len(pairs) THEN G
  ELSE LET u == pairs[i][1]
           v == pairs[i][2]
           H == TLCEval(PutAll(G, u, v, Demanded(S, sep, u, v), strat))
       IN CollidersFrom(H, S, sep, pairs, i + 1, strat)
Colliders(S, sep, order, strat) == CollidersFrom(S, S, sep, PairsInOrder(order), 1, strat)

(* -- the rules ---------------------------------------------------------------- *)
(* rule 4 as the code has it: a - d undirected (with a -> d rule 2 applies) *)
R4U(G, a, b) == \E c \in {x[2] : x \in {y \in Und(G) : y[1] = a}} : \E d \in Parents(Dir(G), b) :
                 /\ <<c, d>> \in Dir(G) /\ <<a, d>> \in Und(G) /\ ~AdjIn(G, b, c) /\ b # c
Holds(rule, G, a, b) ==
  CASE rule = 1 -> R1(G, a, b)
    [] rule = 2 -> R2(G, a, b)
    [] rule = 3 -> R3(G, a, b)
    [] rule = 4 -> R4U(G, a, b)
Wants(rule, G)  == {e \in Und(G) : Holds(rule, G, e[1], e[2])}
Contra(W)       == {e \in W : <<e[2], e[1]>> \in W}
(* a pass of a rule over the graph: all that is demanded and not contradicted *)
Pass(rule, G)   == LET W == TLCEval(Wants(rule, G)) IN G \ Rev(W \ Contra(W))
(* what a pass may do: contradicted edges may stay or be directed either way *)
PassOk(rule, G, H) ==
  LET W == TLCEval(Wants(rule, G))
      D == TLCEval({e \in Und(G) : <<e[2], e[1]>> \notin H})     \* edges that were directed by the pass
  IN /\ H \subseteq G
     /\ Skel(H) = Skel(G)
     /\ D \subseteq W
     /\ (W \ Contra(W)) \subseteq D
RECURSIVE Rounds(_)
Rounds(G) == LET H == TLCEval(Pass(4, TLCEval(Pass(3, TLCEval(Pass(2, TLCEval(Pass(1, G))))))))
             IN IF H = G THEN G ELSE Rounds(H)
(* nothing is left to do except for edges a rule wants to direct both ways *)
Fixpoint(G) == \A rule \in 1..4 : LET W == Wants(rule, G) IN W \subseteq Rev(W)

(* -- inputs as digits ----------------------------------------------------------- *)
(* for each pair of PairSeq(n): 0 adjacent, otherwise 1 + code of the separating   *)
(* set (bit k: k-th of the other nodes)                                            *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Others(n, u, v) == {w \in 1..n : w # u /\ w # v}
RankIn(X, w) == Cardinality({y \in X : y < w})
SetOfCode(X, c) == {w \in X : (c \div Pow2(RankIn(X, w))) % 2 = 1}
SkelOfDigits(n, ds) == LET ps == PairSeq(n) IN Skel({ps[i] : i \in {j \in DOMAIN ps : ds[j] = 0}})
SepOfDigits(n, ds) ==
  LET ps == PairSeq(n)
      S(u, v) == LET i == CHOOSE j \in DOMAIN ps : ps[j] = <<u, v>> \/ ps[j] = <<v, u>>
                 IN IF ds[i] = 0 THEN {} ELSE SetOfCode(Others(n, u, v), ds[i] - 1)
  IN TLCEval([p \in {q \in (1..n) \X (1..n) : q[1] # q[2]} |-> S(p[1], p[2])])
=============================================================================
