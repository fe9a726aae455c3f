---------------------------- MODULE GraphStore ----------------------------
(* The mutable graph of causy: nodes, arcs (ordered pairs) that are absent,  *)
(* live or marked as deleted, their type and value, and the archive of        *)
(* removed arcs.  An undirected edge is a pair of opposite live arcs.         *)
(* Apply(s, e) is the effect of one edit, Accepts(s, e) whether the edit is   *)
(* accepted; View(s) is everything the public queries can show.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Ids,      \* node ids that may be used (a set of positive integers)
          Types,    \* edge types: "UNDIRECTED", "DIRECTED", "BIDIRECTED"
          Vals      \* edge values (positive integers)

Pairs == {p \in Ids \X Ids : p[1] # p[2]}
NoArc == [p |-> "absent", t |-> "none", m |-> 0]
Empty == [nodes |-> <<>>,
          arc   |-> [p \in Pairs |-> NoArc],
          arch  |-> [p \in Pairs |-> 0]]     \* 0: never removed; else value of the last removal

Known(s, u) == \E i \in DOMAIN s.nodes : s.nodes[i] = u
Arc(s, u, v) == s.arc[<<u, v>>]
Live(s, u, v) == u # v /\ s.arc[<<u, v>>].p = "live"
Soft(s, u, v) == u # v /\ s.arc[<<u, v>>].p = "soft"
Present(s, u, v) == u # v /\ s.arc[<<u, v>>].p # "absent"

---------------------------------------------------------------------------
(* accepted edits; every other edit must be rejected and change nothing *)
Accepts(s, e) ==
  CASE e.op = "add_node"    -> ~Known(s, e.u)
    [] e.op = "purge"       -> TRUE
    [] OTHER ->
       /\ Known(s, e.u) /\ Known(s, e.v)
       /\ e.op \in {"add_edge", "add_directed"} => e.u # e.v
       /\ e.op \in {"update_m", "update_t"}   => Present(s, e.u, e.v) /\ Present(s, e.v, e.u)
       /\ e.op \in {"update_dm", "update_dt"} => Present(s, e.u, e.v)

(* edits whose outcome the specification fixes (others are never generated):  *)
(* restoring what was never removed or is still there, updating an edge that   *)
(* is marked as deleted                                                        *)
Fixed(s, e) ==
  CASE e.op \in {"add_node", "purge"} -> TRUE
    [] ~(Known(s, e.u) /\ Known(s, e.v)) -> TRUE
    [] e.op \in {"add_edge", "add_directed"} -> TRUE
    [] e.op \in {"remove_soft", "remove_hard", "remove_d_soft", "remove_d_hard"} -> e.u # e.v
    [] e.op = "restore" ->
         /\ e.u # e.v
         /\ ~(Live(s, e.u, e.v) /\ Live(s, e.v, e.u))
         /\ \A p \in {<<e.u, e.v>>, <<e.v, e.u>>} : s.arc[p].p # "absent" \/ s.arch[p] # 0
    [] e.op = "restore_d" ->
         /\ e.u # e.v
         /\ \/ Soft(s, e.u, e.v)
            \/ ~Present(s, e.u, e.v) /\ s.arch[<<e.u, e.v>>] # 0
    [] e.op \in {"update_m", "update_t"} ->
         e.u # e.v /\ ~Soft(s, e.u, e.v) /\ ~Soft(s, e.v, e.u)
    [] e.op \in {"update_dm", "update_dt"} -> e.u # e.v /\ ~Soft(s, e.u, e.v)

---------------------------------------------------------------------------
(* (TLCEval only makes TLC store the function instead of re-computing it) *)
SetArcs(s, f) == [s EXCEPT !.arc = TLCEval([p \in Pairs |-> IF p \in DOMAIN f THEN f[p] ELSE s.arc[p]])]
Mark(s, ps)   == [s EXCEPT !.arc = TLCEval([p \in Pairs |-> IF p \in ps /\ s.arc[p].p = "live"
                                                    THEN [s.arc[p] EXCEPT !.p = "soft"] ELSE s.arc[p]])]
Drop(s, ps)   == [s EXCEPT !.arc  = TLCEval([p \in Pairs |-> IF p \in ps THEN NoArc ELSE s.arc[p]]),
                           !.arch = TLCEval([p \in Pairs |-> IF p \in ps /\ s.arc[p].p # "absent"
                                                     THEN s.arc[p].m ELSE s.arch[p]])]
Both(u, v) == {<<u, v>>, <<v, u>>}
LiveArc(t, m) == [p |-> "live", t |-> t, m |-> m]

Effect(s, e) ==
  CASE e.op = "add_node"      -> [s EXCEPT !.nodes = Append(@, e.u)]
    [] e.op = "add_edge"      -> SetArcs(s, [p \in Both(e.u, e.v) |-> LiveArc(e.t, e.m)])
    [] e.op = "add_directed"  -> SetArcs(s, [p \in {<<e.u, e.v>>} |-> LiveArc(e.t, e.m)])
    [] e.op = "remove_soft"   -> Mark(s, Both(e.u, e.v))
    [] e.op = "remove_hard"   -> Drop(s, Both(e.u, e.v))
    [] e.op = "remove_d_soft" -> Mark(s, {<<e.u, e.v>>})
    [] e.op = "remove_d_hard" -> Drop(s, {<<e.u, e.v>>})
    [] e.op = "restore" ->
         SetArcs(s, [p \in Both(e.u, e.v) |->
            IF s.arc[p].p # "absent" THEN [s.arc[p] EXCEPT !.p = "live"]
                                     ELSE LiveArc("UNDIRECTED", s.arch[p])])
    [] e.op = "restore_d" ->
         SetArcs(s, [p \in {<<e.u, e.v>>} |->
            IF s.arc[p].p = "soft" THEN [s.arc[p] EXCEPT !.p = "live"]
                                   ELSE LiveArc("DIRECTED", s.arch[p])])
    [] e.op = "update_m"  -> SetArcs(s, [p \in Both(e.u, e.v) |-> [s.arc[p] EXCEPT !.m = e.m]])
    [] e.op = "update_t"  -> SetArcs(s, [p \in Both(e.u, e.v) |-> [s.arc[p] EXCEPT !.t = e.t]])
    [] e.op = "update_dm" -> SetArcs(s, [p \in {<<e.u, e.v>>} |-> [s.arc[p] EXCEPT !.m = e.m]])
    [] e.op = "update_dt" -> SetArcs(s, [p \in {<<e.u, e.v>>} |-> [s.arc[p] EXCEPT !.t = e.t]])
    [] e.op = "purge"     -> Drop(s, {p \in Pairs : s.arc[p].p = "soft"})

Apply(s, e) == IF Accepts(s, e) THEN Effect(s, e) ELSE s

---------------------------------------------------------------------------
(* everything the public queries show *)
LivePairs(s) == {p \in Pairs : s.arc[p].p = "live"}
View(s) ==
  [nodes |-> s.nodes,
   dir   |-> LivePairs(s),
   ex    |-> {p \in Pairs : p \in LivePairs(s) \/ <<p[2], p[1]>> \in LivePairs(s)},
   und   |-> {p \in Pairs : p \in LivePairs(s) /\ <<p[2], p[1]>> \in LivePairs(s)},
   only  |-> {p \in Pairs : p \in LivePairs(s) /\ <<p[2], p[1]>> \notin LivePairs(s)},
   typ   |-> {<<p[1], p[2], s.arc[p].t>> : p \in LivePairs(s)},
   val   |-> {<<p[1], p[2], s.arc[p].m>> : p \in LivePairs(s)},
   edges |-> {<<p[1], p[2], s.arc[p].t, s.arc[p].m>> : p \in LivePairs(s)}]

---------------------------------------------------------------------------
(* the edits as a state machine *)
VARIABLES st, hist
Ops == [op : {"add_node"}, u : Ids]
   \cup [op : {"purge"}]
   \cup [op : {"remove_soft", "remove_hard", "remove_d_soft", "remove_d_hard", "restore", "restore_d"}, u : Ids, v : Ids]
   \cup [op : {"add_edge", "add_directed"}, u : Ids, v : Ids, t : Types, m : Vals]
   \cup [op : {"update_m", "update_dm"}, u : Ids, v : Ids, m : Vals]
   \cup [op : {"update_t", "update_dt"}, u : Ids, v : Ids, t : Types]

SInit == st = Empty /\ hist = <<>>
SNext == \E e \in Ops : Fixed(st, e) /\ st' = Apply(st, e) /\ hist' = Append(hist, e)

(* --- design-level properties, checked by TLC on the state machine --- *)
ArcOK(a) == a.p \in {"absent", "live", "soft"} /\ (a.p = "absent" <=> a = NoArc)
TypeOK == /\ \A p \in Pairs : ArcOK(st.arc[p])
          /\ Cardinality({st.nodes[i] : i \in DOMAIN st.nodes}) = Len(st.nodes)
NoDangling == \A p \in Pairs : st.arc[p].p # "absent" => Known(st, p[1]) /\ Known(st, p[2])
(* rejected edits and purging change no query answer; an edit only touches its own pair *)
Locality == [][\A e \in {hist'[Len(hist')]} :
                 /\ (e.op = "purge" \/ ~Accepts(st, e)) => View(st') = View(st)
                 /\ e.op \notin {"add_node", "purge"} =>
                       \A p \in Pairs : p \notin {<<e.u, e.v>>, <<e.v, e.u>>} => st'.arc[p] = st.arc[p]
                 /\ e.op \in {"remove_d_soft", "remove_d_hard", "restore_d", "update_dm", "update_dt", "add_directed"} =>
                       (e.u # e.v => st'.arc[<<e.v, e.u>>] = st.arc[<<e.v, e.u>>])]_<<st, hist>>
(* a soft removal followed by a restore is the identity on live arcs *)
SoftRestore == \A p \in Pairs :
   LET e == [op |-> "remove_d_soft", u |-> p[1], v |-> p[2]]
       f == [op |-> "restore_d", u |-> p[1], v |-> p[2]] IN
   Live(st, p[1], p[2]) /\ Known(st, p[1]) /\ Known(st, p[2])
     => View(Apply(Apply(st, e), f)) = View(st)
=============================================================================
