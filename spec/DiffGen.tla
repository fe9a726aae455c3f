------------------------------- MODULE DiffGen -------------------------------
EXTENDS Diff, Json, IOUtils, CSV
VARIABLES store, m, ops, nn
vars == <<store, m, ops, nn>>
MaxOps == atoi(IOEnv.MAXOPS)
Exps == {"e", "e_1", "f", "e_f"}
One(S) == RandomElement(S)
(* a graph, often close to one that is there *)
RandGraph(z) ==
  LET es == {e \in Exps : Len(store[e]) > 0}
      base == TLCEval(IF es = {} \/ One(1..3) = 1 THEN [p \in Pairs(nn) |-> One(KindsOfPair)] ELSE Last(store[One(es)]))
      k == One(0..2)
      change == TLCEval((IF k > 0 THEN {One(Pairs(nn))} ELSE {}) \cup (IF k > 1 THEN {One(Pairs(nn))} ELSE {}))
  IN TLCEval([p \in Pairs(nn) |-> IF p \in change THEN One(KindsOfPair) ELSE base[p]])
RandArg(z) ==
  LET es == {e \in Exps : Len(store[e]) > 0}
      e == TLCEval(IF es = {} \/ One(1..12) = 1 THEN One(Exps \cup {"nope"}) ELSE One(es))
      k == IF e \in Exps THEN Len(store[e]) ELSE 0
  IN [e |-> e, v |-> IF One(1..2) = 1 \/ k = 0 THEN 0 ELSE One(1..(k + (IF One(1..9) = 1 THEN 1 ELSE 0)))]
Init == store = [e \in Exps |-> <<>>] /\ m = 0 /\ ops = <<>> /\ nn \in 3..atoi(IOEnv.NODES)
RunIt == \E e \in {One(Exps)} : \E g \in {RandGraph(m)} :
           store' = [store EXCEPT ![e] = Append(@, g)] /\ ops' = Append(ops, [k |-> "run", e |-> e, g |-> {<<p[1], p[2], g[p]>> : p \in Pairs(nn)}, args |-> <<>>, only |-> FALSE])
Compare == \E c0 \in {One(1..14)} : \E c \in {IF c0 > 7 THEN (IF c0 > 11 THEN 3 ELSE 2) ELSE c0} : \E a \in {TLCEval([i \in 1..c |-> RandArg(i)])} : \E o \in {One(BOOLEAN)} :
           UNCHANGED store /\ ops' = Append(ops, [k |-> "diff", e |-> "", g |-> {}, args |-> a, only |-> o])
Next == m < MaxOps /\ m' = m + 1 /\ UNCHANGED nn /\ \E k \in {IF m < 3 THEN 1 ELSE One(1..3)} : IF k = 1 THEN RunIt ELSE Compare
(* the comparison is symmetric: the rows marked equal do not depend on the order of the arguments *)
Symmetric == \A i \in DOMAIN ops : ops[i].k = "diff" /\ Comparable(store, ops[i].args) =>
   {r.p : r \in {x \in Rows(nn, store, ops[i].args, FALSE) : x.same}} = {r.p : r \in {x \in Rows(nn, store, Reverse(ops[i].args), FALSE) : x.same}}
Emit == m' # MaxOps \/ CSVWrite("%1$s", <<ToJson([n |-> nn, ops |-> ops'])>>, IOEnv.GENOUT)
=============================================================================
