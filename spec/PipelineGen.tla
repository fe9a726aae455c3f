---------------------------- MODULE PipelineGen ----------------------------
(* Generates programs for PipelineExec.                                       *)
(* BFS: one program per transition of the machine that applies changes and    *)
(* ends steps (VIEW hides the program).  Simulation: random programs with     *)
(* loops, groups, chunks and hooks.                                            *)
EXTENDS PipelineExec, Json, IOUtils, CSV
NN == atoi(IOEnv.NN)
ND == 1..NN
Start(arcs) == SetArcs([Empty EXCEPT !.nodes = [i \in ND |-> i]], arcs)
Complete == [p \in Pairs |-> LiveArc("UNDIRECTED", 0)]
InitSpec(s) == {<<p[1], p[2], s.arc[p].t, s.arc[p].m>> : p \in LivePairs(s)}
SetSeq(S) == LET RECURSIVE f(_) f(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o f(T \ {x}) IN f(S)

(* ---------------- breadth first ---------------- *)
Acts(vals) == {a \in [k : Kinds, u : ND, v : ND, t : Types, m : vals] :
                 /\ a.u # a.v
                 /\ (a.k \notin {"UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED"} => a.t = "UNDIRECTED")
                 /\ (a.k \notin {"UPDATE_EDGE", "UPDATE_EDGE_DIRECTED"} => a.m = 1)}
BInit == st = Start(Complete) /\ hist = <<<<>>>>        \* hist: sequence of steps, each a sequence of changes
BNext == \/ \E a \in Acts(Vals) : /\ ActFixed(st, a)
                                 /\ st' = TakeOne(Acc0(st), a).s
                                 /\ hist' = [hist EXCEPT ![Len(hist)] = Append(@, a)]
         \/ st # Purge(st) /\ st' = Purge(st) /\ hist' = Append(hist, <<>>)
BView == st
EmitB == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.GENOUT)

(* ---------------- random programs ---------------- *)
(* the state of the machine: st = [acc, prog, cur, depth]                       *)
MaxEntries == atoi(IOEnv.MAXENTRIES)
MaxIters == atoi(IOEnv.MAXITERS)
Wide == IOEnv.WIDE = "yes"                             \* long batches, many batches, many hooks
Hooks == IOEnv.HOOKS = "yes"
KindSet == {k \in {"step", "loop", "group", "dry"} : IOEnv["K_" \o k] = "yes"}
(* "parallel": as "batch", but the combinations are handed to worker processes *)
Modes == {"batch", "sync", "chunked"} \cup (IF IOEnv.PAR = "yes" THEN {"parallel"} ELSE {})
SInitState(s, hs, np) == [acc |-> Acc0(s), prog |-> <<>>, hs |-> hs, np |-> np, init |-> SetSeq(InitSpec(s)), tag |-> 1]
RandArcs(x) == [p \in {q \in Pairs : q[1] < q[2]} |-> RandomElement(0..5)]
(* each pair: absent, ->, <-, or undirected *)
RandState(x) == LET f == TLCEval(RandArcs(x)) IN
  Start([p \in {q \in Pairs : LET d == f[<<IF q[1] < q[2] THEN q[1] ELSE q[2], IF q[1] < q[2] THEN q[2] ELSE q[1]>>]
                              IN d >= 3 \/ (d = 1 /\ q[1] < q[2]) \/ (d = 2 /\ q[1] > q[2])} |->
          LET d == f[<<IF p[1] < p[2] THEN p[1] ELSE p[2], IF p[1] < p[2] THEN p[2] ELSE p[1]>>]
          IN LiveArc(IF d >= 3 THEN "UNDIRECTED" ELSE "DIRECTED", 0)])
RandHooks(x) == IF ~Hooks THEN <<>>
             ELSE TLCEval([i \in 1..RandomElement(IF Wide THEN 3..6 ELSE 0..3) |-> RandomElement({"id", "dropfirst", "keepfirst", "droprem", "none", "reverse", "double", "flip", "addrem", "noop"})])
RandAct(s, tag) ==
  LET pr == RandomElement(Pairs)
      all == {a \in [k : Kinds, u : {pr[1]}, v : {pr[2]}, t : Types, m : {tag}] :
                /\ (a.k \notin {"UPDATE_EDGE_TYPE", "UPDATE_EDGE_TYPE_DIRECTED"} => a.t = "UNDIRECTED")
                /\ ActFixed(s, a)}
      kt  == {a \in all : Taken(s, a)}
  IN RandomElement(IF kt # {} /\ RandomElement(1..4) > 1 THEN kt ELSE all)
RECURSIVE RandActs(_, _, _)
RandActs(s, tag, n) ==
  IF n = 0 THEN <<>>
  ELSE LET a == TLCEval(RandAct(s, tag)) IN <<a>> \o RandActs(TLCEval(TakeOne(Acc0(s), a).s), tag + 1, n - 1)
(* a batch of changes (at most 3, or 18), such that what the hooks leave is fixed in state s *)
RECURSIVE AllActFixed(_, _)
AllActFixed(s, b) == b = <<>> \/ (ActFixed(s, Head(b)) /\ AllActFixed(TakeOne(Acc0(s), Head(b)).s, Tail(b)))
RandBatch(s, hs, tag) ==
  LET n == RandomElement(IF Wide THEN {0, 1, 6, 12, 18} ELSE 0..3)
      b == TLCEval(RandActs(s, tag, n))
  IN IF AllActFixed(s, Hooked(hs, b)) THEN b
     ELSE LET a == b[1] IN IF n > 0 /\ AllActFixed(s, Hooked(hs, <<a>>)) THEN <<a>> ELSE <<>>
(* a chunk of batches; x = [s, tag] is the state while they are applied *)
RECURSIVE RandChunk(_, _, _)
RandChunk(x, hs, n) ==
  IF n = 0 THEN [x |-> x, bs |-> <<>>]
  ELSE LET b  == TLCEval(RandBatch(x.s, hs, x.tag))
           s1 == TLCEval(TakeAll(Acc0(x.s), Hooked(hs, b)).s)
           r  == TLCEval(RandChunk([s |-> s1, tag |-> x.tag + (IF Wide THEN 18 ELSE 3)], hs, n - 1))
       IN [x |-> r.x, bs |-> <<b>> \o r.bs]
RECURSIVE RandChunks(_, _, _, _)
RandChunks(x, hs, sizes, i) ==
  IF i > Len(sizes) THEN [x |-> x, cs |-> <<>>]
  ELSE LET c == TLCEval(RandChunk(x, hs, sizes[i]))
           r == TLCEval(RandChunks(c.x, hs, sizes, i + 1))
       IN [x |-> r.x, cs |-> <<c.bs>> \o r.cs]
RandInner(x, hs) ==
  LET mode  == RandomElement(Modes)
      sizes == TLCEval(IF mode \in {"batch", "parallel"} THEN <<RandomElement(IF Wide THEN {0, 3, 12, 30} ELSE 0..5)>>
               ELSE IF mode = "sync" THEN [i \in 1..RandomElement(1..4) |-> 1]
               ELSE [i \in 1..RandomElement(1..3) |-> RandomElement(0..3)])
      r == TLCEval(RandChunks(x, hs, sizes, 1))
  IN [x |-> r.x, st |-> [cls |-> RandomElement(1..3), mode |-> mode, chunks |-> r.cs]]
RECURSIVE RandSteps(_, _, _)
RandSteps(x, hs, n) ==
  IF n = 0 THEN [x |-> x, steps |-> <<>>]
  ELSE LET i == TLCEval(RandInner(x, hs))
           r == TLCEval(RandSteps(i.x, hs, n - 1))
       IN [x |-> r.x, steps |-> <<i.st>> \o r.steps]
(* the same inner steps (class, mode) with other proposals in every iteration *)
Shape(steps, x, hs) ==
  LET RECURSIVE f(_, _)
      f(y, i) == IF i > Len(steps) THEN [x |-> y, steps |-> <<>>]
                 ELSE LET sizes == [j \in DOMAIN steps[i].chunks |-> Len(steps[i].chunks[j])]
                          r == TLCEval(RandChunks(y, hs, sizes, 1))
                          q == TLCEval(f(r.x, i + 1))
                      IN [x |-> q.x, steps |-> <<[steps[i] EXCEPT !.chunks = r.cs]>> \o q.steps]
  IN f(x, 1)
Idle(steps) == [i \in DOMAIN steps |-> [steps[i] EXCEPT !.chunks = [j \in DOMAIN @ |-> [l \in DOMAIN @[j] |-> <<>>]]]]
RECURSIVE RandIters(_, _, _, _)
RandIters(x, hs, steps, n) ==
  IF n = 0 THEN [x |-> x, iters |-> <<Idle(steps)>>]
  ELSE LET s == TLCEval(Shape(steps, x, hs))
           r == TLCEval(RandIters(s.x, hs, steps, n - 1))
       IN [x |-> r.x, iters |-> <<s.steps>> \o r.iters]
RandEntry(x, hs) ==
  LET kind == RandomElement(KindSet)
      first == TLCEval(RandSteps(x, hs, IF kind \in {"step", "dry"} THEN 1 ELSE RandomElement(1..3)))
  IN IF kind = "loop"
     THEN LET r == TLCEval(RandIters(first.x, hs, first.steps, RandomElement(0..MaxIters)))
          IN [x |-> r.x, e |-> [kind |-> kind, iters |-> <<first.steps>> \o r.iters]]
     ELSE [x |-> first.x, e |-> [kind |-> kind, iters |-> <<first.steps>>]]

RInit == /\ st = SInitState(Start(Complete), <<>>, 0) /\ hist = 0
RNext == \/ hist = 0 /\ hist' = 1 /\ st' = SInitState(RandState(hist), RandHooks(hist), IF Hooks THEN RandomElement(IF Wide THEN 3..6 ELSE 0..2) ELSE 0)
         \/ /\ hist \in 1..MaxEntries
            /\ \E r \in {RandEntry([s |-> st.acc.s, tag |-> st.tag], st.hs)} :     \* one random draw
                  st' = [st EXCEPT !.prog = Append(@, r.e), !.tag = r.x.tag,
                                   !.acc = Acc0(RunEntry(Acc0(st.acc.s), st.hs, st.np, r.e).acc.s)]
            /\ hist' = hist + 1
EmitR == hist' # MaxEntries + 1 \/ CSVWrite("%1$s", <<ToJson([n |-> NN, init |-> st'.init, prog |-> st'.prog, hs |-> st'.hs, np |-> st'.np])>>, IOEnv.GENOUT)
=============================================================================
