---------------------------- MODULE OrientModel ----------------------------
(* The orientation phase as a state machine, for every skeleton and every      *)
(* family of separating sets on N nodes (all digit sequences).                  *)
EXTENDS Orientation
CONSTANTS N, Strats
VARIABLES ds, strat, G, rule, changed, phase
vars == <<ds, strat, G, rule, changed, phase>>
NP == (N * (N - 1)) \div 2
S0 == SkelOfDigits(N, ds)
Init == /\ ds \in [1..NP -> 0..Pow2(N - 2)]
        /\ strat \in Strats
        /\ G = SkelOfDigits(N, ds)
        /\ rule = 0 /\ changed = FALSE /\ phase = "colliders"
ColliderStep == /\ phase = "colliders"
                /\ G' = Colliders(G, SepOfDigits(N, ds), [i \in 1..N |-> i], strat)
                /\ phase' = "rules" /\ rule' = 1 /\ changed' = FALSE
                /\ UNCHANGED <<ds, strat>>
RuleStep == /\ phase = "rules"
            /\ G' = Pass(rule, G)
            /\ LET c == changed \/ G' # G
               IN IF rule < 4 THEN rule' = rule + 1 /\ changed' = c /\ phase' = phase
                  ELSE /\ rule' = 1 /\ changed' = FALSE
                       /\ phase' = IF c THEN "rules" ELSE "done"
            /\ UNCHANGED <<ds, strat>>
Next == ColliderStep \/ RuleStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SkeletonKept == Skel(G) = S0
NeverFlips   == [][phase = "rules" => G' \subseteq G]_vars
DoneIsFix    == phase = "done" => Fixpoint(G) /\ G = Rounds(G)
PassIsOk     == [][phase = "rules" => PassOk(rule, G, G')]_vars
Ends         == <>(phase = "done")
=============================================================================
