---------------------------- MODULE OrientJudge ----------------------------
(* rec.kind "pass":     rec.before, rec.rule, rec.final: one pass of a rule (C08)            *)
(*     "colliders":     rec.skel, rec.sep (sequence of <<u, v, set>>), rec.order, rec.strat,  *)
(*                      rec.final: the collider step (C09)                                    *)
(*     "phase":         the same plus rec.passes: sequence of [rule, removed arcs, restored]  *)
(*                      from the run log: the whole orientation phase (C10)                   *)
(* rec.types: sequence of <<u, v, type, value kept>> of the arcs of the final graph           *)
EXTENDS Orientation, Judging
Sep(rec) ==
  LET T == {<<s[1], s[2]>> : s \in Range(rec.sep)}
      Of(u, v) == LET i == CHOOSE j \in DOMAIN rec.sep : {rec.sep[j][1], rec.sep[j][2]} = {u, v} IN Range(rec.sep[i][3])
  IN TLCEval([p \in {q \in (1..rec.n) \X (1..rec.n) : q[1] # q[2]} |->
       IF <<p[1], p[2]>> \in T \/ <<p[2], p[1]>> \in T THEN Of(p[1], p[2]) ELSE {}])
TypesOk(rec, H) ==
  \A i \in DOMAIN rec.types :
     LET t == rec.types[i]
     IN t[3] = (IF <<t[2], t[1]>> \in H THEN "UNDIRECTED" ELSE "DIRECTED")
ValuesKept(rec) == \A i \in DOMAIN rec.types : rec.types[i][4] = "kept"
(* pass: which part of PassOk fails *)
JudgePass(rec) ==
  LET G == TLCEval(Range(rec.before))
      H == TLCEval(Range(rec.final))
      W == TLCEval(Wants(rec.rule, G))
      D == TLCEval({e \in Und(G) : <<e[2], e[1]>> \notin H})
  IN Clauses(<< <<rec.out = "ok", "fails-" \o rec.out>>,
                <<H \subseteq G, "adds-arcs">>,
                <<Skel(H) = Skel(G), "loses-edges">>,
                <<D \subseteq W, "unjustified-orientation">>,
                <<(W \ Contra(W)) \subseteq D, "missing-orientation">>,
                <<TypesOk(rec, H), "types">>,
                <<ValuesKept(rec), "values">> >>)
JudgeColliders(rec) ==
  LET S == TLCEval(Range(rec.skel))
      H == TLCEval(Range(rec.final))
      X == TLCEval(Colliders(S, Sep(rec), rec.order, rec.strat))
  IN Clauses(<< <<rec.out = "ok", "fails-" \o rec.out>>,
                <<Skel(H) = S, "skeleton">>,
                <<H = X, "colliders">>,
                <<TypesOk(rec, H), "types">>,
                <<ValuesKept(rec), "values">> >>)
(* replay of the logged changes of the rule passes *)
Arcs(x) == Range(x)
RECURSIVE PassesOk(_, _, _)
PassesOk(rec, G, i) ==
  IF i > Len(rec.passes) THEN "ok"
  ELSE LET p == rec.passes[i]
           H == TLCEval((G \ Arcs(p.removed)) \cup Arcs(p.restored))
       IN IF p.rule = 0 THEN PassesOk(rec, H, i + 1)
          ELSE IF ~(Arcs(p.removed) \subseteq Und(G)) \/ p.restored # <<>> THEN "flips-a-direction"
          ELSE IF \E a \in Arcs(p.removed) : <<a[2], a[1]>> \in Arcs(p.removed) THEN "loses-edges-in-a-pass"
          ELSE PassesOk(rec, H, i + 1)
RECURSIVE After(_, _, _)
After(rec, G, i) ==
  IF i > Len(rec.passes) THEN G
  ELSE After(rec, TLCEval((G \ Arcs(rec.passes[i].removed)) \cup Arcs(rec.passes[i].restored)), i + 1)
JudgePhase(rec) ==
  LET S == TLCEval(Range(rec.skel))
      H == TLCEval(Range(rec.final))
      p == PassesOk(rec, S, 1)
  IN Clauses(<< <<rec.out = "ok", "fails-" \o rec.out>>,
                <<Skel(H) = S, "skeleton">>,
                <<p = "ok", p>>,
                <<After(rec, S, 1) = H, "log">>,
                <<Fixpoint(H), "no-fixpoint">>,
                <<TypesOk(rec, H), "types">>,
                <<ValuesKept(rec), "values">> >>)
Judge(rec) == CASE rec.kind = "pass" -> JudgePass(rec)
                [] rec.kind = "colliders" -> JudgeColliders(rec)
                [] rec.kind = "phase" -> JudgePhase(rec)
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
