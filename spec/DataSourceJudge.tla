-------------------------- MODULE DataSourceJudge --------------------------
EXTENDS Judging, DataSource
(* rec.first, rec.ops: a history; rec.obs[i]: what was observed after the first i-1 operations:                     *)
(* [forms: sequence of [form, out, nodes: sequence of [name, id, values]], hashes: sequence of [form, fresh, again]] *)
RECURSIVE At(_, _)
At(rec, i) == IF i = 1 THEN rec.first ELSE Apply(At(rec, i - 1), rec.ops[i - 1])
GoodNodes(o, e) == /\ SetIs([i \in DOMAIN o |-> [name |-> o[i].name, values |-> o[i].values]], e)
                   /\ \A i \in DOMAIN o : o[i].id = o[i].name
JudgeSource(rec) ==
  LET st == TLCEval([i \in DOMAIN rec.obs |-> At(rec, i)])
      load(i) == Clauses(<<
        <<\A f \in DOMAIN rec.obs[i].forms : rec.obs[i].forms[f].out = "ok",                                             "load-failed">>,
        <<\A f \in DOMAIN rec.obs[i].forms : GoodNodes(rec.obs[i].forms[f].nodes, Nodes(st[i], rec.obs[i].forms[f].form)), "nodes">>,
        <<\A f \in DOMAIN rec.obs[i].forms : rec.obs[i].forms[f].kept,                                                    "argument-changed">>,
        <<\A h \in DOMAIN rec.obs[i].hashes : rec.obs[i].hashes[h].out = "ok",                                            "hash-failed">>,
        <<\A h \in DOMAIN rec.obs[i].hashes : rec.obs[i].hashes[h].fresh = rec.obs[i].hashes[h].again,                    "hash-unstable">> >>)
      bad == {i \in DOMAIN rec.obs : load(i) # "ok"}
      pairs == {p \in (DOMAIN rec.obs) \X (DOMAIN rec.obs) : p[1] < p[2]}
      H(i, h) == rec.obs[i].hashes[h].fresh
  IN IF bad # {} THEN load(Min(bad))
     ELSE IF \E p \in pairs : SameSource(st[p[1]], st[p[2]]) /\ \E h \in DOMAIN rec.obs[1].hashes : H(p[1], h) # H(p[2], h) THEN "hash-changes-for-the-same-data"
     ELSE IF \E p \in pairs : OtherSource(st[p[1]], st[p[2]]) /\ \E h \in DOMAIN rec.obs[1].hashes : H(p[1], h) = H(p[2], h) THEN "hash-misses-a-change"
     ELSE "ok"
(* rec.s: a table of which row rec.r lacks column rec.c; no form may give a graph *)
JudgeRagged(rec) == Clauses(<< <<\A f \in DOMAIN rec.forms : rec.forms[f].out = "rejected", "incomplete-row-accepted">> >>)
(* a large table: written twice, with one digit changed, and again with another option *)
JudgeBig(rec) == Clauses(<<
    <<\A i \in DOMAIN rec.obs : rec.obs[i].out = "ok" /\ rec.obs[i].all, "nodes">>,
    <<rec.obs[1].hash = rec.obs[2].hash,                                 "hash-changes-for-the-same-data">>,
    <<rec.obs[3].hash # rec.obs[1].hash,                                 "hash-misses-a-change">>,
    <<rec.obs[4].hash # rec.obs[1].hash /\ rec.obs[4].hash # rec.obs[3].hash, "hash-misses-an-option">> >>)
Judge(rec) == IF rec.kind = "source" THEN JudgeSource(rec) ELSE IF rec.kind = "big" THEN JudgeBig(rec) ELSE JudgeRagged(rec)
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
