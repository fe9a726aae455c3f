---------------------------- MODULE ParallelGen ----------------------------
(* Random programs of parallel and sequential steps, and schedules for them.  *)
(* ScheduleFree is checked exhaustively over all schedules of every program    *)
(* of the small instance: independent proposals give the same graph whatever    *)
(* the schedule.                                                               *)
EXTENDS ParallelExec, Json, IOUtils, CSV, FiniteSetsExt, SequencesExt
NN == atoi(IOEnv.NN)
MaxSteps == atoi(IOEnv.MAXENTRIES)
ParKinds == {"REMOVE_EDGE_UNDIRECTED", "UPDATE_EDGE", "UPDATE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE_DIRECTED", "UPDATE_EDGE_TYPE", "DO_NOTHING"}
Base(s) == [nodes |-> [i \in 1..NN |-> i], arc |-> [p \in Pairs |-> IF p \in s THEN LiveArc("UNDIRECTED", 0) ELSE NoArc], arch |-> [p \in Pairs |-> 0]]

(* ---- all schedules of small programs: one change per combination ---- *)
SmallActs == {a \in [k : {"REMOVE_EDGE_UNDIRECTED", "UPDATE_EDGE", "REMOVE_EDGE_DIRECTED"}, u : 1..NN, v : 1..NN, t : {"UNDIRECTED"}, m : {1, 2}] : a.u # a.v}
EInit == \E rs \in [1..3 -> SmallActs] :
           /\ Independent([i \in 1..3 |-> <<rs[i]>>])
           /\ st = [rs |-> rs, acc |-> Acc0(Base(Pairs)), todo |-> {1, 2, 3}] /\ hist = <<>>
ENext == \E i \in st.todo : /\ st' = [st EXCEPT !.acc = Deliver(@, [j \in 1..3 |-> <<st.rs[j]>>], <<i>>), !.todo = @ \ {i}]
                           /\ hist' = Append(hist, i)
ScheduleFree == st.todo = {} => st.acc.s = Deliver(Acc0(Base(Pairs)), [j \in 1..3 |-> <<st.rs[j]>>], <<1, 2, 3>>).s
                               /\ Cardinality({st.acc.taken[i] : i \in DOMAIN st.acc.taken}) = 3

(* ---- random programs with random schedules ---- *)
RandAct2(tag) ==
  LET pr == RandomElement(Pairs)
  IN RandomElement({a \in [k : ParKinds, u : {pr[1]}, v : {pr[2]}, t : Types, m : {tag}] :
        a.k \notin {"UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED"} => a.t = "UNDIRECTED"})
Wide == IOEnv.WIDE = "yes"                             \* hundreds of combinations
RECURSIVE RandBatch2(_, _)
RandBatch2(tag, n) == IF n = 0 THEN <<>> ELSE <<RandAct2(tag)>> \o RandBatch2(tag + 1, n - 1)
RECURSIVE RandResults(_, _)
RandResults(tag, c) == IF c = 0 THEN <<>> ELSE <<RandBatch2(tag, RandomElement(IF ~Wide /\ RandomElement(1..(9 + 0 * tag)) = 1 THEN 7..9 ELSE {0, 1, 1 + (tag % 2), 2}))>> \o RandResults(tag + 10, c - 1)
RECURSIVE RandPerm(_)
RandPerm(S) == IF S = {} THEN <<>> ELSE LET x == TLCEval(RandomElement(S)) IN <<x>> \o RandPerm(S \ {x})
RandStep(tag) ==
  LET c    == TLCEval(RandomElement(IF Wide THEN {0 * tag, 40, 130, 160} ELSE 1..(5 + 0 * tag)))
      size == TLCEval(RandomElement(IF Wide THEN {1, 7, 10, 50, 1000 + 0 * tag} ELSE {1, 2, 3, 10 + 0 * tag}))
      par  == TLCEval(RandomElement({0 * tag, 1, 2}) > 0)
      rs   == TLCEval(RandResults(tag, c))
      ks   == TLCEval(RandPerm(1..NChunks(c, size)))
  IN [par |-> par, size |-> size, results |-> rs, chunks |-> IF par THEN ks ELSE <<>>,
      order |-> IF par THEN Expand(ks, size, c) ELSE [i \in 1..c |-> i]]
RInit == st = [init |-> <<>>, prog |-> <<>>, tag |-> 1] /\ hist = 0
RNext == \/ hist = 0 /\ hist' = 1
            /\ \E E \in {RandomElement(SUBSET {p \in Pairs : p[1] < p[2]})} : st' = [st EXCEPT !.init = SetToSeq(E)]
         \/ /\ hist \in 1..MaxSteps /\ hist' = hist + 1
            /\ \E x \in {RandStep(st.tag)} : st' = [st EXCEPT !.prog = Append(@, x), !.tag = @ + (IF Wide THEN 2000 ELSE 60)]
EmitR == hist' # MaxSteps + 1 \/ CSVWrite("%1$s", <<ToJson([n |-> NN, init |-> st'.init, prog |-> st'.prog])>>, IOEnv.GENOUT)
=============================================================================
