-------------------------- MODULE GraphStoreJudge --------------------------
(* Judges recorded edit histories of the real graph: rec.ops is the history, *)
(* rec.obs the recorded outcome and query answers after each (or only the     *)
(* last) edit.                                                                *)
EXTENDS Judging, GraphStore

Compare(w, o) ==   \* w: expected view, o: recorded answers
  Clauses(<<
    <<o.q = "ok",                          "query-failed">>,
    <<o.nodes = w.nodes,                   "nodes">>,
    <<Range(o.ex) = w.ex,                  "edge-exists">>,
    <<Range(o.dir) = w.dir,                "directed-edge-exists">>,
    <<Range(o.und) = w.und,                "undirected-edge-exists">>,
    <<Range(o.only) = w.only,              "only-directed-edge-exists">>,
    <<Range(o.typ) = w.typ,                "edge-type">>,
    <<Range(o.oftype) = w.typ,             "edge-of-type-exists">>,
    <<Range(o.val) = w.val,                "edge-value">>,
    <<SetIs(o.edges, w.edges),             "edge-list">>,
    <<w.edges \subseteq Range(o.got), "get-edge">>,
    <<SetIs(o.par, {<<p[2], p[1]>> : p \in w.dir}), "parents">>,
    <<SetIs(o.sib, w.und),                 "siblings">> >>)

RECURSIVE Replay(_, _, _)
Replay(s, rec, i) ==
  IF i > Len(rec.ops) THEN "ok"
  ELSE LET e  == rec.ops[i]
           s2 == Apply(s, e)
           o  == rec.obs[i]
           c  == IF ~Fixed(s, e) THEN "harness-unfixed-edit"
                 ELSE IF o.out # "skip" /\ (o.out = "ok") # Accepts(s, e) THEN "outcome-of-" \o e.op
                 ELSE IF o.full THEN Compare(View(s2), o) ELSE "ok"
       IN IF c # "ok" THEN c ELSE Replay(s2, rec, i + 1)

Judge(rec) == Replay(Empty, rec, 1)

JInit == JStart /\ st = 0 /\ hist = 0
JNext == JStep(Judge) /\ UNCHANGED <<st, hist>>
JSpec == JInit /\ [][JNext]_<<jvars, st, hist>>
JOk == JLogged
=============================================================================
