--------------------------- MODULE PipelineJudge ---------------------------
(* Judges recorded executions: rec.prog is the program with its hooks, rec.o  *)
(* what was observed of the real run (C03, C04, C24).                          *)
EXTENDS Judging, PipelineExec
InitOf(rec) == [nodes |-> [i \in 1..rec.n |-> i],
                arc  |-> [p \in Pairs |-> LET c == {x \in Range(rec.init) : x[1] = p[1] /\ x[2] = p[2]}
                                          IN IF c = {} THEN NoArc ELSE LET x == CHOOSE y \in c : TRUE IN LiveArc(x[3], x[4])],
                arch |-> [p \in Pairs |-> 0]]
Tag(a)   == <<a.k, a.u, a.v, a.m>>
Tags(s)  == [i \in DOMAIN s |-> Tag(s[i])]
(* entries of the log as they must look *)
LogOk(exp, kind, o) ==     \* exp: sequence of [cls, taken, prop] of the entry; o: recorded entry
  IF kind \in {"step", "dry"}
  THEN o.name = ToString(exp[1].cls) /\ o.taken = Tags(exp[1].taken) /\ o.prop = Tags(exp[1].prop) /\ o.steps = <<>>
  ELSE /\ o.name = kind
       /\ Len(o.steps) = Len(exp)
       /\ \A i \in DOMAIN exp : o.steps[i].name = ToString(exp[i].cls) /\ o.steps[i].taken = Tags(exp[i].taken) /\ o.steps[i].prop = Tags(exp[i].prop)
EdgeHist(eh, u, v) == Tags(LET s == SelectSeq(eh, LAMBDA x : x[1] = u /\ x[2] = v) IN [i \in DOMAIN s |-> s[i][3]])
HookLog(l, o) ==   \* calls with an empty batch are not compared
  LET w == SelectSeq(l, LAMBDA x : x.b # <<>>)
      g == SelectSeq(o, LAMBDA x : x.b # <<>>)
  IN /\ Len(w) = Len(g)
     /\ \A i \in DOMAIN w : g[i].h = w[i].h /\ g[i].b = Tags(w[i].b) /\ Range(g[i].live) = w[i].live
(* hooks after an update: the changes of a group may reach them in any batches  *)
RECURSIVE PostMatch(_, _)
PostMatch(w, g) ==
  IF w = <<>> \/ g = <<>> THEN w = g
  ELSE IF ~Head(w).any
       THEN Head(g).b = Tags(Head(w).b) /\ Range(Head(g).live) = Head(w).live /\ PostMatch(Tail(w), Tail(g))
       ELSE LET k == Len(Head(g).b)
            IN /\ k <= Len(w) /\ \A i \in 1..k : w[i].any
               /\ Head(g).b = [i \in 1..k |-> Tag(w[i].b[1])]
               /\ Range(Head(g).live) = w[k].live
               /\ PostMatch(SubSeq(w, k + 1, Len(w)), Tail(g))
PostLog(l, o, np) ==
  LET w == SelectSeq(l, LAMBDA x : x.b # <<>>)
      g == SelectSeq(o, LAMBDA x : x.b # <<>>)
  IN /\ \A j \in DOMAIN g : g[j].h = ((j - 1) % np) + 1
     /\ \A h \in 1..np : PostMatch(SelectSeq(w, LAMBDA x : x.h = h), SelectSeq(g, LAMBDA x : x.h = h))
TypeLog(w, g) ==
  /\ Len(w) = Len(g)
  /\ \A i \in DOMAIN w : /\ g[i].w = w[i].w /\ g[i].g = w[i].g /\ g[i].a = Tag(w[i].a)
                          /\ g[i].t = w[i].t /\ Range(g[i].live) = w[i].live
(* a run of shipped steps: only its log and its result are known *)
NoneTaken(steps, from, to) == \A i \in from..to : steps[i].taken = <<>>
LoopOk(k, steps) ==
  /\ Len(steps) > 0 /\ Len(steps) % Len(k.inner) = 0
  /\ \A i \in DOMAIN steps : steps[i].name = k.inner[((i - 1) % Len(k.inner)) + 1]
  /\ \A b \in 1..(Len(steps) \div Len(k.inner)) : NoneTaken(steps, (b - 1) * Len(k.inner) + 1, b * Len(k.inner)) <=> b = Len(steps) \div Len(k.inner)
JudgeShipped(rec) ==
  LET s0 == InitOf(rec)
      o == rec.o
      rp == TLCEval(View(ReplayLog(s0, [i \in DOMAIN o.log |-> o.log[i].acts])))
  IN Clauses(<<
    <<o.out = "ok",                                                      "run-failed">>,
    <<Len(o.log) = Len(rec.kinds) /\ \A i \in DOMAIN o.log : o.log[i].name = rec.kinds[i].name, "log-entries">>,
    <<\A i \in DOMAIN o.log : rec.kinds[i].kind = "step" => o.log[i].steps = <<>>, "nested-steps">>,
    <<\A i \in DOMAIN o.log : rec.kinds[i].kind = "group" => [j \in DOMAIN o.log[i].steps |-> o.log[i].steps[j].name] = rec.kinds[i].inner, "steps-of-group">>,
    <<\A i \in DOMAIN o.log : rec.kinds[i].kind = "loop" => LoopOk(rec.kinds[i], o.log[i].steps), "iterations-of-loop">>,
    <<SetIs(o.final, rp.edges),                                          "log-replay">> >>)
JudgeProgram(rec) ==
  LET s0 == InitOf(rec)
      x  == RunProg([acc |-> Acc0(s0), logs |-> <<>>], rec.hs, rec.np, rec.prog)
      o  == rec.o
      w  == View(x.acc.s)
      rp == ReplayLog(s0, [i \in DOMAIN o.log |-> o.log[i].acts])
      C(n, c) == <<n \notin Range(rec.claims) \/ c, n>>
  IN IF x.acc.unf THEN "ok"
     ELSE Clauses(<<
    <<o.out = "ok",                                                    "run-failed">>,
    C("final-graph",  SetIs(o.final, w.edges)),
    C("log-entries",  Len(o.log) = Len(rec.prog)),
    C("log-entry",    \A i \in DOMAIN rec.prog : i \in DOMAIN o.log /\ LogOk(x.logs[i], rec.prog[i].kind, o.log[i])),
    C("edge-history", \A h \in Range(o.eh) : h.b = EdgeHist(x.acc.eh, h.u, h.v)),
    C("calls",        Len(o.calls) = Len(x.acc.calls)),
    C("graph-seen-by-step", \A i \in DOMAIN o.calls : Range(o.calls[i]) = x.acc.calls[i]),
    C("pre-hooks",    HookLog(x.acc.pre, o.pre)),
    C("post-hooks",   PostLog(x.acc.post, o.post, rec.np)),
    C("edge-type-hooks", TypeLog(x.acc.ety, o.ety)),
    C("log-replay",   View(rp).edges = w.edges) >>)
(* one shipped step: its proposed changes explain what happened to the graph *)
JudgeApplied(rec) ==
  LET s0 == InitOf(rec)
      o == rec.o
      x == TakeAll(Acc0(s0), o.prop)
      f == IF rec.dry THEN s0 ELSE x.s
  IN IF ~rec.dry /\ x.unf THEN "ok"
     ELSE Clauses(<<
    <<o.out = "ok",                              "run-failed">>,
    <<SetIs(o.final, View(f).edges),             IF rec.dry THEN "dry-run-changes-graph" ELSE "final-graph">>,
    <<rec.dry \/ Tags(o.taken) = Tags(x.taken),  "taken">>,
    <<\A h \in Range(o.eh) : Tags(h.new) = (IF rec.dry THEN <<>> ELSE EdgeHist(x.eh, h.u, h.v)), "edge-history">> >>)
Judge(rec) == IF Range(rec.claims) = {"applied"} THEN JudgeApplied(rec) ELSE IF Range(rec.claims) = {"shipped"} THEN JudgeShipped(rec) ELSE JudgeProgram(rec)
JInit == JStart /\ st = 0 /\ hist = 0
JNext == JStep(Judge) /\ UNCHANGED <<st, hist>>
JSpec == JInit /\ [][JNext]_<<jvars, st, hist>>
JOk == JLogged
=============================================================================
