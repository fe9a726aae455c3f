---------------------------- MODULE PipelineExec ----------------------------
(* How causy executes pipeline steps: a step is called once per combination   *)
(* and proposes a batch of changes; the batches are applied in order, each     *)
(* change either taken or skipped; the taken and the proposed changes are      *)
(* logged; changes mark arcs as deleted, and the marks are purged after every  *)
(* top-level step.  Loops repeat their steps until an iteration takes nothing; *)
(* groups collect the proposals of all their steps on the unchanged graph and  *)
(* apply them at the end.  Update hooks rewrite each batch before it is        *)
(* applied (pre) and see what was taken of it afterwards (post).               *)
(*                                                                             *)
(* A change is a record [k, u, v, t, m]: kind, end points, edge type, value.   *)
(* A program is a sequence of entries [kind, iters]: "step", "loop", "group",  *)
(* or "dry" (a step that is not applied); iters is a sequence of               *)
(* iterations (one unless kind = "loop"), each a sequence of inner steps       *)
(* [cls, mode, chunks]; chunks is a sequence of sequences of batches: all      *)
(* calls of one chunk see the graph as it was when the chunk was started.      *)
EXTENDS GraphStore

Kinds == {"REMOVE_EDGE_UNDIRECTED", "REMOVE_EDGE_DIRECTED", "UPDATE_EDGE", "UPDATE_EDGE_DIRECTED",
          "UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED", "RESTORE_EDGE", "RESTORE_EDGE_DIRECTED", "DO_NOTHING"}
OnPair(k) == k \in {"REMOVE_EDGE_UNDIRECTED", "UPDATE_EDGE", "UPDATE_EDGE_TYPE", "RESTORE_EDGE"}

(* the edge a change needs is there *)
Taken(s, a) ==
  CASE a.k = "REMOVE_EDGE_UNDIRECTED" -> Live(s, a.u, a.v) /\ Live(s, a.v, a.u)
    [] a.k = "REMOVE_EDGE_DIRECTED"   -> Live(s, a.u, a.v)
    [] a.k \in {"UPDATE_EDGE", "UPDATE_EDGE_TYPE"} -> Live(s, a.u, a.v) \/ Live(s, a.v, a.u)
    [] a.k \in {"UPDATE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE_DIRECTED"} -> Live(s, a.u, a.v)
    [] a.k = "RESTORE_EDGE"           -> ~Live(s, a.u, a.v) /\ ~Live(s, a.v, a.u)
    [] a.k = "RESTORE_EDGE_DIRECTED"  -> ~Live(s, a.u, a.v)
    [] a.k = "DO_NOTHING"             -> FALSE

(* changes that are generated: an undirected update of a half edge and         *)
(* restoring what was never removed are left open                              *)
ActFixed(s, a) ==
  CASE a.k \in {"UPDATE_EDGE", "UPDATE_EDGE_TYPE"} -> Live(s, a.u, a.v) = Live(s, a.v, a.u)
    [] a.k = "RESTORE_EDGE" ->
         ~Taken(s, a) \/ Fixed(s, [op |-> "restore", u |-> a.u, v |-> a.v])
    [] a.k = "RESTORE_EDGE_DIRECTED" ->
         ~Taken(s, a) \/ Fixed(s, [op |-> "restore_d", u |-> a.u, v |-> a.v])
    [] OTHER -> TRUE

TypeArc(s, p, t) == SetArcs(s, [q \in {p} |-> [s.arc[q] EXCEPT !.t = t]])
ActEffect(s, a) ==
  CASE a.k = "REMOVE_EDGE_UNDIRECTED" -> Mark(s, Both(a.u, a.v))
    [] a.k = "REMOVE_EDGE_DIRECTED"   ->
         LET s1 == Mark(s, {<<a.u, a.v>>})
         IN IF Live(s, a.v, a.u) THEN TypeArc(s1, <<a.v, a.u>>, "DIRECTED") ELSE s1
    [] a.k = "UPDATE_EDGE"               -> Effect(s, [op |-> "update_m",  u |-> a.u, v |-> a.v, m |-> a.m])
    [] a.k = "UPDATE_EDGE_DIRECTED"      -> Effect(s, [op |-> "update_dm", u |-> a.u, v |-> a.v, m |-> a.m])
    [] a.k = "UPDATE_EDGE_TYPE"          -> Effect(s, [op |-> "update_t",  u |-> a.u, v |-> a.v, t |-> a.t])
    [] a.k = "UPDATE_EDGE_TYPE_DIRECTED" -> Effect(s, [op |-> "update_dt", u |-> a.u, v |-> a.v, t |-> a.t])
    [] a.k = "RESTORE_EDGE"              -> Effect(s, [op |-> "restore",   u |-> a.u, v |-> a.v])
    [] a.k = "RESTORE_EDGE_DIRECTED"     -> Effect(s, [op |-> "restore_d", u |-> a.u, v |-> a.v])
    [] OTHER -> s
Purge(s) == Effect(s, [op |-> "purge"])

---------------------------------------------------------------------------
(* update hooks *)
HookApply(h, b) ==
  CASE h = "id"        -> b
    [] h = "dropfirst" -> IF b = <<>> THEN b ELSE Tail(b)
    [] h = "keepfirst" -> IF b = <<>> THEN b ELSE <<Head(b)>>
    [] h = "droprem"   -> SelectSeq(b, LAMBDA a : a.k # "REMOVE_EDGE_UNDIRECTED")
    [] h = "none"      -> <<>>
    [] h = "reverse"   -> [i \in DOMAIN b |-> b[Len(b) + 1 - i]]
    [] h = "double"    -> b \o b
    [] h = "flip"      -> [i \in DOMAIN b |-> [b[i] EXCEPT !.u = b[i].v, !.v = b[i].u]]
    [] h = "addrem"    -> IF b = <<>> THEN b   \* adds a removal of the last change's edge
                          ELSE LET a == b[Len(b)] IN Append(b, [k |-> "REMOVE_EDGE_UNDIRECTED", u |-> a.v, v |-> a.u, t |-> "UNDIRECTED", m |-> a.m])
    [] h = "noop"      -> [i \in DOMAIN b |-> IF i = 1 THEN [b[i] EXCEPT !.k = "DO_NOTHING", !.t = "UNDIRECTED"] ELSE b[i]]
RECURSIVE HookChain(_, _, _)   \* batches received by the hooks 1..Len(hs), then the final batch
HookChain(hs, b, i) == IF i > Len(hs) THEN <<b>> ELSE <<b>> \o HookChain(hs, HookApply(hs[i], b), i + 1)
Hooked(hs, b) == LET c == HookChain(hs, b, 1) IN c[Len(c)]

---------------------------------------------------------------------------
(* execution; acc: s state, taken, prop (sequences of changes), eh sequence of *)
(* <<u, v, change>>, pre/post: what the hooks see, ety: calls of the hooks of   *)
(* edge types (before and after every taken removal, update and type change),   *)
(* calls: graphs seen by calls                                                  *)
LiveSet(s) == LivePairs(s)
Acc0(s) == [s |-> s, taken |-> <<>>, prop |-> <<>>, eh |-> <<>>, pre |-> <<>>, post |-> <<>>, ety |-> <<>>, calls |-> <<>>, unf |-> FALSE]
Group(k) == CASE k \in {"REMOVE_EDGE_UNDIRECTED", "REMOVE_EDGE_DIRECTED"} -> "remove"
              [] k \in {"UPDATE_EDGE", "UPDATE_EDGE_DIRECTED"}              -> "update"
              [] k \in {"UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED"}    -> "type"
              [] OTHER -> "other"
TypeHooks(s, a, n) ==
  IF Group(a.k) = "other" THEN <<>>
  ELSE <<[w |-> "pre",  g |-> Group(a.k), a |-> a, t |-> s.arc[<<a.u, a.v>>].t, live |-> LiveSet(s)],
         [w |-> "post", g |-> Group(a.k), a |-> a, t |-> n.arc[<<a.u, a.v>>].t, live |-> LiveSet(n)]>>
TakeOne(acc, a) ==
  IF Taken(acc.s, a)
  THEN [acc EXCEPT !.ety = @ \o TypeHooks(acc.s, a, ActEffect(acc.s, a)), !.unf = @ \/ ~ActFixed(acc.s, a), !.s = ActEffect(acc.s, a), !.taken = Append(@, a),
                   !.eh = @ \o (IF OnPair(a.k) THEN <<<<a.u, a.v, a>>, <<a.v, a.u, a>>>> ELSE <<<<a.u, a.v, a>>>>)]
  ELSE acc
RECURSIVE TakeAll(_, _)
TakeAll(acc, b) == IF b = <<>> THEN acc ELSE TakeAll(TakeOne(acc, Head(b)), Tail(b))
ApplyBatch(acc, hs, npost, b) ==
  LET chain == HookChain(hs, b, 1)
      final == chain[Len(chain)]
      acc1  == [acc EXCEPT !.prop = @ \o final,
                           !.pre  = @ \o [i \in 1..Len(hs) |-> [h |-> i, b |-> chain[i], live |-> LiveSet(acc.s)]]]
      acc2  == TakeAll([acc1 EXCEPT !.taken = <<>>], final)
  IN [acc2 EXCEPT !.taken = acc.taken \o acc2.taken,
                  !.post = @ \o [i \in 1..npost |-> [h |-> i, b |-> acc2.taken, live |-> LiveSet(acc2.s), any |-> FALSE]]]
RECURSIVE ApplyBatches(_, _, _, _)
ApplyBatches(acc, hs, np, bs) == IF bs = <<>> THEN acc ELSE ApplyBatches(ApplyBatch(acc, hs, np, Head(bs)), hs, np, Tail(bs))
RECURSIVE FlatBatches(_)
FlatBatches(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o FlatBatches(Tail(bs))

(* one inner step that applies its changes *)
RECURSIVE RunChunks(_, _, _, _)
RunChunks(acc, hs, np, cs) ==
  IF cs = <<>> THEN acc
  ELSE LET seen == [acc EXCEPT !.calls = @ \o [i \in DOMAIN Head(cs) |-> LiveSet(acc.s)]]
       IN RunChunks(ApplyBatches(seen, hs, np, Head(cs)), hs, np, Tail(cs))
(* one inner step of a group: everything is proposed on the unchanged graph *)
(* (the hooks before an update get each batch now, the others when it is applied) *)
ProposeBatch(acc, hs, b) ==
  LET chain == HookChain(hs, b, 1)
      final == chain[Len(chain)]
  IN [acc EXCEPT !.prop = @ \o final, !.taken = @ \o final,
                 !.pre  = @ \o [i \in 1..Len(hs) |-> [h |-> i, b |-> chain[i], live |-> LiveSet(acc.s)]]]
RECURSIVE ProposeBatches(_, _, _)
ProposeBatches(acc, hs, bs) == IF bs = <<>> THEN acc ELSE ProposeBatches(ProposeBatch(acc, hs, Head(bs)), hs, Tail(bs))
RECURSIVE DryChunks(_, _, _)
DryChunks(acc, hs, cs) ==
  IF cs = <<>> THEN acc
  ELSE LET seen == [acc EXCEPT !.calls = @ \o [i \in DOMAIN Head(cs) |-> LiveSet(acc.s)]]
       IN DryChunks(ProposeBatches(seen, hs, Head(cs)), hs, Tail(cs))
(* applying the collected changes of a group: how they are cut into batches for *)
(* the hooks after the update is left open: any = TRUE, one record per change   *)
RECURSIVE TakeGroup(_, _, _)
TakeGroup(acc, np, b) ==
  IF b = <<>> THEN acc
  ELSE LET n == TakeOne(acc, Head(b))
       IN TakeGroup(IF ~Taken(acc.s, Head(b)) THEN n
                    ELSE [n EXCEPT !.post = @ \o [i \in 1..np |-> [h |-> i, b |-> <<Head(b)>>, live |-> LiveSet(n.s), any |-> TRUE]]],
                    np, Tail(b))

(* logs: sequence of [cls, taken, prop] *)
RECURSIVE RunIter(_, _, _, _, _)
RunIter(r, hs, np, dry, steps) ==      \* r = [acc, log]
  IF steps = <<>> THEN r
  ELSE LET st0 == [r.acc EXCEPT !.taken = <<>>, !.prop = <<>>]
           acc == IF dry THEN DryChunks(st0, hs, Head(steps).chunks) ELSE RunChunks(st0, hs, np, Head(steps).chunks)
       IN RunIter([acc |-> acc, log |-> Append(r.log, [cls |-> Head(steps).cls, taken |-> acc.taken, prop |-> acc.prop])],
                  hs, np, dry, Tail(steps))
NTaken(log, from) == LET f[i \in 0..Len(log)] == IF i < from THEN 0 ELSE f[i - 1] + Len(log[i].taken) IN f[Len(log)]
(* the script of a loop holds one more iteration than is to be executed *)
RECURSIVE RunLoop(_, _, _, _)
RunLoop(r, hs, np, iters) ==
  IF iters = <<>> THEN r
  ELSE LET before == Len(r.log)
           r1 == RunIter(r, hs, np, FALSE, Head(iters))
       IN IF NTaken(r1.log, before + 1) = 0 THEN r1 ELSE RunLoop(r1, hs, np, Tail(iters))

RunEntry(acc, hs, np, e) ==     \* -> [acc, log], marks purged
  LET r0 == [acc |-> acc, log |-> <<>>]
      r1 == CASE e.kind = "step"  -> RunIter(r0, hs, np, FALSE, e.iters[1])
              [] e.kind = "dry"   -> RunIter(r0, hs, np, TRUE, e.iters[1])
              [] e.kind = "loop"  -> RunLoop(r0, hs, np, e.iters)
              [] e.kind = "group" -> LET d == RunIter(r0, hs, np, TRUE, e.iters[1])
                                         all == FlatBatches([i \in DOMAIN d.log |-> d.log[i].prop])
                                     IN [d EXCEPT !.acc = TakeGroup(d.acc, np, all)]
  IN [r1 EXCEPT !.acc.s = Purge(r1.acc.s)]
RECURSIVE RunProg(_, _, _, _)
RunProg(r, hs, np, prog) ==     \* r = [acc, logs]
  IF prog = <<>> THEN r
  ELSE LET x == RunEntry(r.acc, hs, np, Head(prog))
       IN RunProg([acc |-> x.acc, logs |-> Append(r.logs, x.log)], hs, np, Tail(prog))

(* replaying a log of taken changes (skipping what cannot be taken) from a state *)
RECURSIVE ReplayLog(_, _)
ReplayLog(s, entries) ==
  IF entries = <<>> THEN s
  ELSE ReplayLog(Purge(TakeAll(Acc0(s), FlatBatches(Head(entries))).s), Tail(entries))
=============================================================================
