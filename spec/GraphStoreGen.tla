--------------------------- MODULE GraphStoreGen ---------------------------
(* Generates edit histories from GraphStore: in breadth-first mode one        *)
(* history per transition of the state graph (the history is hidden by VIEW), *)
(* in simulation mode random long histories.                                  *)
EXTENDS GraphStore, Json, IOUtils, CSV
OutFile == IOEnv.GENOUT
MaxLen  == atoi(IOEnv.MAXLEN)
PreNodes == atoi(IOEnv.PRENODES)     \* histories start with that many nodes added
RECURSIVE AddN(_, _)
AddN(s, k) == IF k = 0 THEN s ELSE [AddN(s, k - 1) EXCEPT !.nodes = Append(@, k)]
RECURSIVE AddH(_)
AddH(k) == IF k = 0 THEN <<>> ELSE Append(AddH(k - 1), [op |-> "add_node", u |-> k])
GInit == st = AddN(Empty, PreNodes) /\ hist = AddH(PreNodes)
GNext == SNext
(* histories about removal: edges are added, removed in every way, purged and restored *)
RemovalOps == {e \in Ops : e.op \notin {"add_node", "update_m", "update_t", "update_dm", "update_dt"}}
RNext == \E e \in RemovalOps : Fixed(st, e) /\ (e.op # "purge" => e.u # e.v) /\ st' = Apply(st, e) /\ hist' = Append(hist, e)
GView == st
(* every transition: write the history that ends with it *)
EmitAll == CSVWrite("%1$s", <<ToJson(hist')>>, OutFile)
(* simulation: write complete histories only *)
Bound   == Len(hist) <= MaxLen
EmitEnd == Len(hist') # MaxLen \/ CSVWrite("%1$s", <<ToJson(hist')>>, OutFile)
=============================================================================
