---------------------------- MODULE ParallelExec ----------------------------
(* Parallel execution of a step: the combinations 1..c are cut into chunks,    *)
(* workers finish the chunks in any order, the results of a finished chunk are *)
(* applied one after another in the calling process.  The machine: a program   *)
(* is fixed, then the chunks are delivered one by one; every behaviour is a     *)
(* schedule.                                                                    *)
EXTENDS PipelineExec

(* chunk number of combination i, and the combinations of a chunk in order *)
ChunkOf(i, size) == (i - 1) \div size + 1
NChunks(c, size) == (c + size - 1) \div size
Members(k, size, c) == [j \in 1..(IF k * size <= c THEN size ELSE c - (k - 1) * size) |-> (k - 1) * size + j]
(* completion order of combinations for a completion order of chunks *)
RECURSIVE Expand(_, _, _)
Expand(ks, size, c) == IF ks = <<>> THEN <<>> ELSE Members(Head(ks), size, c) \o Expand(Tail(ks), size, c)

(* effect of a step whose results arrive in the given order of combinations *)
RECURSIVE Deliver(_, _, _)
Deliver(acc, results, order) ==
  IF order = <<>> THEN acc
  ELSE LET b == results[Head(order)]
       IN Deliver(TakeAll([acc EXCEPT !.prop = @ \o b], b), results, Tail(order))

(* proposals that do not depend on each other: at most one change per pair *)
Independent(results) ==
  \A i, j \in DOMAIN results : \A x \in DOMAIN results[i] : \A y \in DOMAIN results[j] :
     (<<i, x>> # <<j, y>>) => {results[i][x].u, results[i][x].v} # {results[j][y].u, results[j][y].v}
=============================================================================
