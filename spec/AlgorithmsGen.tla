--------------------------- MODULE AlgorithmsGen ---------------------------
(* A declared algorithm and the history of what is done with it: building      *)
(* models (assignments checked as the workspace does, or handed over directly), *)
(* another model of the same class, running, saving.  NoLeak is checked on       *)
(* every behaviour: no action changes the declaration or an existing model.      *)
EXTENDS Algorithms, Json, IOUtils, CSV
VARIABLES D, models, todo, ops
vars == <<D, models, todo, ops>>
MaxOps == atoi(IOEnv.MAXOPS)
Names == {"alpha", "beta", "gamma", "delta"}
Foreign == {"nope", "Alpha"}
VMax == 4
Val(t, v) == [t |-> t, v |-> IF t = "bool" THEN v % 2 ELSE v]
RandType(x) == RandomElement(VarTypes)
RandVar(x) ==
  LET t == TLCEval(RandType(x))
      ch == TLCEval(RandomElement({{}} \cup IF t = "bool" THEN {{0}, {1}, {0, 1}} ELSE {{1, 2}, {2}, {0, 3, 4}, {1, 2, 3, 4}}))
  IN [t |-> t, def |-> Val(t, RandomElement(IF ch = {} THEN 0..VMax ELSE ch)), choices |-> ch]
RandVars(x) == LET ns == TLCEval(RandomElement(SUBSET Names)) IN TLCEval([n \in ns |-> RandVar(n)])
RandSlot(vs, s, bad) ==
  LET fit == {n \in DOMAIN vs : vs[n].t = SlotType[s]}
      k == RandomElement(1..100)
  IN IF bad /\ k <= 4 THEN [ref |-> TRUE, name |-> RandomElement(Foreign), val |-> Val(SlotType[s], 0)]
     ELSE IF k <= 50 /\ fit # {} THEN [ref |-> TRUE, name |-> RandomElement(fit), val |-> Val(SlotType[s], 0)]
     ELSE [ref |-> FALSE, name |-> "", val |-> Val(SlotType[s], RandomElement(0..VMax))]
RandAlg(x) == LET vs == TLCEval(RandVars(x))
                  bad == TLCEval(RandomElement(1..6) = 1)
              IN [vars |-> vs, slots |-> TLCEval([s \in Slots |-> RandSlot(vs, s, bad)])]
RandValue(w) == IF RandomElement(1..8) = 1 THEN Val(RandomElement(VarTypes), RandomElement(0..VMax))
                ELSE Val(w.t, IF w.choices # {} /\ RandomElement(1..6) > 1 THEN RandomElement(w.choices) ELSE RandomElement(0..VMax))
RandAssign(d, x) ==
  LET ns == TLCEval(RandomElement(SUBSET DOMAIN d.vars) \cup (IF RandomElement(1..9) = 1 THEN {RandomElement(Foreign)} ELSE {}))
  IN TLCEval([n \in ns |-> IF n \in DOMAIN d.vars THEN RandValue(d.vars[n]) ELSE Val(RandType(n), 1)])
RandPartial(d, x) ==
  LET ns == TLCEval(RandomElement(SUBSET DOMAIN d.vars))
  IN TLCEval([n \in ns |-> Val(d.vars[n].t, RandomElement(IF d.vars[n].choices = {} THEN 0..VMax ELSE d.vars[n].choices))])
None == [x \in {} |-> 0]

Init == /\ D = [vars |-> None, slots |-> None] /\ models = <<>> /\ todo = 0 /\ ops = <<>>
Declare == todo = 0 /\ todo' = 1 /\ \E d \in {RandAlg(todo)} : D' = d
           /\ UNCHANGED <<models, ops>>
Built(a, k) == models' = IF Buildable(D, a) THEN Append(models, [a |-> a, slots |-> Resolved(D, a)]) ELSE models
Build(kind) == \E a \in {IF kind = "checked" THEN RandAssign(D, todo) ELSE IF kind = "direct" THEN RandPartial(D, todo) ELSE None} :
                 Built(a, kind) /\ ops' = Append(ops, [k |-> kind, a |-> a, i |-> 0])
Again == models # <<>> /\ \E i \in {RandomElement(1..Len(models))} :
           models' = Append(models, models[i]) /\ ops' = Append(ops, [k |-> "again", a |-> None, i |-> i])
Use(kind) == models # <<>> /\ UNCHANGED models /\ \E i \in {RandomElement(1..Len(models))} : ops' = Append(ops, [k |-> kind, a |-> None, i |-> i])
Act == /\ todo \in 1..MaxOps /\ todo' = todo + 1 /\ UNCHANGED D
       /\ \E k \in {RandomElement({"checked", "checked", "direct", "default", "again", "run", "save"})} :
            IF k \in {"checked", "direct", "default"} THEN Build(k)
            ELSE IF models = <<>> THEN Build("checked")
            ELSE IF k = "again" THEN Again ELSE Use(k)
Next == Declare \/ Act
NoLeak == [][todo > 0 => D' = D /\ \A i \in DOMAIN models : models'[i] = models[i]]_vars
NoRefsLeft == \A i \in DOMAIN models : \A s \in Slots : models[i].slots[s].t = SlotType[s]
Emit == todo' # MaxOps + 1 \/ CSVWrite("%1$s", <<ToJson([D |-> D', ops |-> ops'])>>, IOEnv.GENOUT)
=============================================================================
