---------------------------- MODULE TheoryCheck ----------------------------
(* The definitions of Graphs.tla are checked against each other on every DAG  *)
(* with N nodes: the moral-graph criterion against blocked paths, and the      *)
(* Meek closure against the union of all Markov equivalent DAGs; d-separation  *)
(* is the same in the whole class; rule 4 never directs anything in addition.  *)
EXTENDS Graphs, TLC
CONSTANT N
VARIABLES ds, done
Nodes == 1..N
NP == (N * (N - 1)) \div 2
DigitSeqs == [1..NP -> 0..2]
DagOf(x) == LiveOf(N, x)
Equiv(E, F) == Skel(E) = Skel(F) /\ VStructs(E) = VStructs(F)
Init == /\ ds \in {x \in DigitSeqs : Acyclic(DagOf(x))} /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED ds
Spec == Init /\ [][Next]_<<ds, done>>
E == DagOf(ds)
PairsN == {p \in Nodes \X Nodes : p[1] # p[2]}
MoralIsPaths == done => \A p \in PairsN : \A Z \in SUBSET (Nodes \ {p[1], p[2]}) :
                   DSep(E, p[1], p[2], Z) <=> DSepByPaths(E, p[1], p[2], Z)
ClassOf == {DagOf(x) : x \in {y \in DigitSeqs : LET F == DagOf(y) IN Skel(F) = Skel(E) /\ Acyclic(F) /\ VStructs(F) = VStructs(E)}}
MeekIsUnion == done => CPDAG(E) = UNION ClassOf
SameSeparations == done => \A F \in ClassOf : \A p \in PairsN : \A Z \in SUBSET (Nodes \ {p[1], p[2]}) :
                   DSep(E, p[1], p[2], Z) <=> DSep(F, p[1], p[2], Z)
Rule4Idle == done => LET G == CPDAG(E) IN \A e \in Und(G) : ~R4(G, e[1], e[2])
=============================================================================
