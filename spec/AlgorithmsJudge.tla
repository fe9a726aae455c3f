-------------------------- MODULE AlgorithmsJudge --------------------------
(* Judges recorded uses of declared algorithms (C16) and saved and loaded      *)
(* algorithms (C17).                                                            *)
EXTENDS Judging, Algorithms
(* JSON gives sequences where TLA+ wrote sets *)
Alg(d) == [vars |-> [n \in DOMAIN d.vars |-> [d.vars[n] EXCEPT !.choices = Range(@)]], slots |-> d.slots]
Fn(a) == IF DOMAIN a = {} THEN [x \in {} |-> 0] ELSE a
(* every observed setting is the expected value *)
SameSlots(o, e) == \A s \in Slots : o[s].kind = "value" /\ o[s].t = e[s].t /\ o[s].v = e[s].v
SameDecl(o, e)  == \A s \in Slots : IF e[s].ref THEN o[s].kind = "ref" /\ o[s].name = e[s].name
                                    ELSE o[s].kind = "value" /\ o[s].t = e[s].val.t /\ o[s].v = e[s].val.v
SameVars(o, e)  == /\ SetIs([i \in DOMAIN o |-> o[i].name], DOMAIN e)
                   /\ \A i \in DOMAIN o : LET w == e[o[i].name] IN o[i].t = w.t /\ o[i].def = w.def.v /\ o[i].deft = w.def.t /\ Range(o[i].choices) = w.choices
(* expected models after the first i operations *)
RECURSIVE After(_, _, _)
After(d, ops, i) ==
  IF i = 0 THEN <<>>
  ELSE LET m == After(d, ops, i - 1)
           p == ops[i]
       IN CASE p.k \in {"checked", "direct", "default"} -> IF Buildable(d, Fn(p.a)) THEN Append(m, Resolved(d, Fn(p.a))) ELSE m
            [] p.k = "again" -> Append(m, m[p.i])
            [] OTHER -> m
JudgeUse(rec) ==
  LET d == Alg(rec.D)
      bad(i) == LET o == rec.obs[i]
                    p == rec.ops[i]
                    exp == After(d, rec.ops, i)
                    builds == p.k \in {"checked", "direct", "default"}
                IN Clauses(<<
        <<~(builds /\ Buildable(d, Fn(p.a))) \/ o.out = "ok",                          "valid-assignment-rejected">>,
        <<~(builds /\ ~ValidAssignment(d, Fn(p.a))) \/ o.out = "rejected",              "invalid-assignment-accepted">>,
        <<~(builds /\ ~KnownRefs(d)) \/ o.out = "rejected",                            "unknown-reference-accepted">>,
        <<~builds \/ o.out # "ok" \/ p.k # "checked" \/ o.eff = [x \in DOMAIN d.vars |-> Effective(d, Fn(p.a))[x]] \/ DOMAIN d.vars = {}, "effective-variables">>,
        <<SameDecl(o.decl, d.slots),                                                   "declared-algorithm-changed">>,
        <<SameVars(o.vars, d.vars),                                                    "declared-variables-changed">>,
        <<Len(o.models) = Len(exp),                                                    "number-of-models">>,
        <<\A j \in DOMAIN exp : SameSlots(o.models[j], exp[j]),                         "model-settings">>,
        <<\A j \in DOMAIN o.origs : SameDecl(o.origs[j], d.slots),                     "original-algorithm">>,
        <<p.k # "save" \/ o.out = "ok",                                                "save-failed">> >>)
      vs == [i \in DOMAIN rec.ops |-> bad(i)]
      worst == {i \in DOMAIN vs : vs[i] # "ok"}
  IN IF worst = {} THEN "ok" ELSE vs[Min(worst)]
(* rec.loaded: sequence of [via, out, slots, vars, structure, hash]; rec.hash: hash of the original; rec.twin: hash of the same *)
(* algorithm built again; rec.other: hashes of algorithms that differ in one setting                                             *)
JudgeSaved(rec) ==
  LET d == Alg(rec.D) IN Clauses(<<
    <<\A i \in DOMAIN rec.loaded : rec.loaded[i].out = "ok",                        "load-failed">>,
    <<\A i \in DOMAIN rec.loaded : SameDecl(rec.loaded[i].slots, d.slots),          "settings-differ">>,
    <<\A i \in DOMAIN rec.loaded : SameVars(rec.loaded[i].vars, d.vars),            "variables-differ">>,
    <<\A i \in DOMAIN rec.loaded : rec.loaded[i].structure = rec.structure,         "structure-differs">>,
    <<\A i \in DOMAIN rec.loaded : rec.loaded[i].hash = rec.hash,                   "hash-differs">>,
    <<rec.twin = rec.hash,                                                          "hash-unstable">>,
    <<\A i \in DOMAIN rec.others : rec.others[i] # rec.hash,                        "hash-of-other-settings-equal">> >>)
(* rec.runs: sequence of [via, out, result]; the first one is the original *)
JudgeRuns(rec) == Clauses(<<
    <<rec.runs[1].out = "ok",                                                       "original-run-failed">>,
    <<\A i \in DOMAIN rec.runs : rec.runs[i].out = "ok",                            "loaded-run-failed">>,
    <<\A i \in DOMAIN rec.runs : rec.runs[i].edges = rec.runs[1].edges,             "graph-differs">>,
    <<\A i \in DOMAIN rec.runs : rec.runs[i].log = rec.runs[1].log,                 "log-differs">> >>)
Judge(rec) == CASE rec.kind = "use" -> JudgeUse(rec) [] rec.kind = "saved" -> JudgeSaved(rec) [] rec.kind = "runs" -> JudgeRuns(rec)
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
