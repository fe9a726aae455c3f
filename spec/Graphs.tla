------------------------------- MODULE Graphs -------------------------------
(* Causal graph theory on nodes 1..n; a graph is a set of arcs <<u, v>>; an   *)
(* undirected edge is the pair of opposite arcs.  Only definitions.           *)
EXTENDS Integers, Sequences, FiniteSets

Rev(E)      == {<<a[2], a[1]>> : a \in E}
Skel(E)     == E \cup Rev(E)
Dir(E)      == {a \in E : <<a[2], a[1]>> \notin E}      \* the directed edges
Und(E)      == {a \in E : <<a[2], a[1]>> \in E}         \* both arcs of the undirected edges
AdjIn(E, u, v) == <<u, v>> \in E \/ <<v, u>> \in E
Parents(E, v)  == {a[1] : a \in {b \in E : b[2] = v}}
Nbrs(E, u)     == {a[2] : a \in {b \in Skel(E) : b[1] = u}}

(* nodes that can be reached from the set S over the arcs E, S included *)
RECURSIVE ReachFrom(_, _)
ReachFrom(E, S) == LET T == S \cup {a[2] : a \in {b \in E : b[1] \in S}}
                   IN IF T = S THEN S ELSE ReachFrom(E, T)
Descendants(E, u) == ReachFrom(Dir(E), {u})             \* over directed edges only
Ancestors(E, S)   == ReachFrom(Rev(E), S)
(* is there a path with at least one arc from u to v *)
CanReach(E, u, v) == v \in ReachFrom(E, {a[2] : a \in {b \in E : b[1] = u}})
Acyclic(E)        == \A a \in E : a[1] \notin ReachFrom(E, {a[2]})

(* all simple paths (sequences of nodes) from u to v over the arcs E, u # v *)
RECURSIVE PathsAvoiding(_, _, _, _)
PathsAvoiding(E, u, v, seen) ==
  IF u = v THEN {<<v>>}
  ELSE UNION {{<<u>> \o p : p \in PathsAvoiding(E, w, v, seen \cup {w})} :
              w \in {a[2] : a \in {b \in E : b[1] = u /\ b[2] \notin seen}}}
SimplePaths(E, u, v) == PathsAvoiding(E, u, v, {u})

---------------------------------------------------------------------------
(* d-separation in a DAG: by blocked paths (the definition) ... *)
ColliderOn(E, p, i) == <<p[i - 1], p[i]>> \in E /\ <<p[i + 1], p[i]>> \in E
OpenPath(E, p, Z) ==
  \A i \in 2..(Len(p) - 1) :
     IF ColliderOn(E, p, i) THEN Descendants(E, p[i]) \cap Z # {} ELSE p[i] \notin Z
DSepByPaths(E, u, v, Z) == \A p \in SimplePaths(Skel(E), u, v) : ~OpenPath(E, p, Z)
(* ... and by separation in the moral graph of the ancestors (equivalent) *)
DSep(E, u, v, Z) ==
  LET A  == Ancestors(E, {u, v} \cup Z)
      EA == {a \in E : a[1] \in A /\ a[2] \in A}
      M  == Skel(EA) \cup UNION {{<<a[1], b[1]>> : b \in {c \in EA : c[2] = a[2] /\ c[1] # a[1]}} : a \in EA}
      MZ == {a \in M : a[1] \notin Z /\ a[2] \notin Z}
  IN v \notin ReachFrom(MZ, {u})

---------------------------------------------------------------------------
(* equivalence classes *)
VStructs(E) == {t \in {<<a[1], a[2], b[1]>> : a \in Dir(E), b \in Dir(E)} :
                  /\ <<t[1], t[2]>> \in Dir(E) /\ <<t[3], t[2]>> \in Dir(E)
                  /\ t[1] # t[3] /\ ~AdjIn(E, t[1], t[3])}
(* skeleton with the v-structures directed *)
Pattern(E) ==
  LET V == VStructs(E)
      D == {<<t[1], t[2]>> : t \in V}
  IN {a \in Skel(E) : <<a[2], a[1]>> \notin D}

(* Meek's rules: which undirected edges a -> b of the graph G they direct *)
R1(G, a, b) == \E c \in {d[1] : d \in {x \in Dir(G) : x[2] = a}} : c # b /\ ~AdjIn(G, c, b)
R2(G, a, b) == \E c \in {d[2] : d \in {x \in Dir(G) : x[1] = a}} : <<c, b>> \in Dir(G)
R3(G, a, b) == \E c, d \in {x[2] : x \in {y \in Und(G) : y[1] = a}} :
                 c # d /\ ~AdjIn(G, c, d) /\ <<c, b>> \in Dir(G) /\ <<d, b>> \in Dir(G)
R4(G, a, b) == \E c \in {x[2] : x \in {y \in Und(G) : y[1] = a}} : \E d \in Parents(Dir(G), b) :
                 /\ <<c, d>> \in Dir(G) /\ AdjIn(G, a, d) /\ ~AdjIn(G, b, c) /\ b # c
Compelled(G) == {e \in Und(G) : R1(G, e[1], e[2]) \/ R2(G, e[1], e[2]) \/ R3(G, e[1], e[2])}
RECURSIVE MeekClosure(_)
MeekClosure(G) ==
  LET C == Compelled(G)
  IN IF C = {} THEN G ELSE MeekClosure(G \ {<<e[2], e[1]>> : e \in C})
CPDAG(E) == MeekClosure(Pattern(E))

---------------------------------------------------------------------------
(* numbered graphs: pairs (1,2),(1,3),(2,3),(1,4),... each with a digit of    *)
(* the code in base b                                                         *)
RECURSIVE PairSeq(_)
PairSeq(n) == IF n < 2 THEN <<>> ELSE PairSeq(n - 1) \o [i \in 1..(n - 1) |-> <<i, n>>]
RECURSIVE Digits(_, _, _)
Digits(c, b, k) == IF k = 0 THEN <<>> ELSE <<c % b>> \o Digits(c \div b, b, k - 1)
(* digit 0: no edge, 1: ->, 2: <-, 3: both, 4: both marked as deleted, 5: -> with <- deleted, *)
(* 6: <- with -> deleted *)
ArcsWith(n, ds, fwd, bwd) ==
  LET ps == PairSeq(n)
  IN {ps[i] : i \in {j \in DOMAIN ps : ds[j] \in fwd}} \cup
     {<<ps[i][2], ps[i][1]>> : i \in {j \in DOMAIN ps : ds[j] \in bwd}}
LiveOf(n, ds) == ArcsWith(n, ds, {1, 3, 5}, {2, 3, 6})
SoftOf(n, ds) == ArcsWith(n, ds, {4, 6}, {4, 5})
=============================================================================
