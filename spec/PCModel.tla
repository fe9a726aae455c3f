------------------------------ MODULE PCModel ------------------------------
(* The PC algorithm with a perfect independence oracle, as a state machine:     *)
(* E is the true DAG; pairs, then triangles (one conditioning variable), then   *)
(* larger subsets of the neighbours, size by size.  Within a size, removals     *)
(* happen in any order, each justified by the graph at the beginning of the     *)
(* size or by the current one (this covers batched, chunked and immediate       *)
(* application).  Classic starts the subset search at one conditioning          *)
(* variable; stable makes every test on the complete graph.                     *)
EXTENDS Orientation
CONSTANTS N, Variants
VARIABLES E, variant, G, base, sep, level, phase
vars == <<E, variant, G, base, sep, level, phase>>
Nodes == 1..N
PS == {p \in Nodes \X Nodes : p[1] < p[2]}
Complete == {p \in Nodes \X Nodes : p[1] # p[2]}
DagOf(ds) == LiveOf(N, ds)
Dags == {e \in {DagOf(ds) : ds \in [1..((N * (N - 1)) \div 2) -> 0..2]} : Acyclic(e)}
NoSet == {0}
Init == /\ E \in Dags /\ variant \in Variants
        /\ G = Complete /\ base = Complete
        /\ sep = [p \in PS |-> NoSet]
        /\ level = 0 /\ phase = "search"
(* sets prescribed for a pair at a level, given the graph H *)
Prescribed(H, u, v, k) ==
  IF k = 0 THEN {{}}
  ELSE IF k = 1 /\ variant # "classic" THEN {{w} : w \in Nbrs(H, u) \cap Nbrs(H, v)}
  ELSE {Z \in SUBSET (Nbrs(H, u) \ {v}) \cup SUBSET (Nbrs(H, v) \ {u}) : Cardinality(Z) = k}
Graphs0 == IF variant = "stable" THEN {Complete} ELSE {base, G}
Cut(p, Z) == /\ G' = G \ {p, <<p[2], p[1]>>}
             /\ sep' = [sep EXCEPT ![p] = Z]
Enabled(H) == {p \in PS : p \in G /\ \E Z \in Prescribed(H, p[1], p[2], level) : DSep(E, p[1], p[2], Z)}
Remove == /\ phase = "search"
          /\ \E p \in PS : p \in G /\
               \E H \in Graphs0 : \E Z \in Prescribed(H, p[1], p[2], level) :
                  DSep(E, p[1], p[2], Z) /\ Cut(p, Z)
          /\ UNCHANGED <<E, variant, base, level, phase>>
NextLevel == /\ phase = "search"
             (* triangles are tested on the graph at the beginning of the step; subsets on the current one *)
             /\ IF variant = "stable" THEN Enabled(Complete) = {}
                ELSE IF level = 1 /\ variant = "pc" THEN Enabled(base) = {}
                ELSE Enabled(G) = {}
             /\ IF level = N - 2 THEN phase' = "orient" /\ level' = level ELSE level' = level + 1 /\ phase' = phase
             /\ base' = G
             /\ UNCHANGED <<E, variant, G, sep>>
SepFun == [p \in Complete |-> LET q == IF p[1] < p[2] THEN p ELSE <<p[2], p[1]>> IN IF sep[q] = NoSet THEN {} ELSE sep[q]]
Orient == /\ phase = "orient"
          /\ G' = Rounds(Colliders(G, SepFun, [i \in 1..N |-> i], "KEEP_FIRST"))
          /\ phase' = "done"
          /\ UNCHANGED <<E, variant, base, sep, level>>
Next == Remove \/ NextLevel \/ Orient
Spec == Init /\ [][Next]_vars
NoFalseCut   == \A p \in PS : sep[p] # NoSet => (<<p[1], p[2]>> \notin Skel(E) /\ DSep(E, p[1], p[2], sep[p]))
SkeletonDone == phase = "orient" => G = Skel(E)
Exact        == phase = "done" => G = CPDAG(E)
=============================================================================
