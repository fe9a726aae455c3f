----------------------------- MODULE Workspace -----------------------------
(* A workspace: named pipelines, data loaders and experiments (the workspace   *)
(* file), the pipeline and data files they point to, and the stored results.   *)
(* state w: [pipes : name -> pipeline file,                                     *)
(*           loads : name -> [file, opts],                                      *)
(*           exps  : name -> [pipe, load, vars: variable -> value],             *)
(*           pfile : pipeline file -> [set, defs: variable -> default],         *)
(*           dfile : data file -> content,                                      *)
(*           store : experiment name -> sequence of stored runs, oldest first]  *)
(* A run is identified by its inputs: the content of its data, the options of   *)
(* its loader, the content of its pipeline and the effective variables; the     *)
(* names and files under which they were reached are kept as well.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VarType == [i |-> "integer", n |-> "integer", f |-> "float", g |-> "float", o |-> "integer", b |-> "bool", s |-> "string", c |-> "string", threshold |-> "float"]
VarNames == DOMAIN VarType \ {"threshold"}
ChoicesOf == [n |-> {1, 2}, c |-> {0, 1}, o |-> {1}, g |-> {0, 1, 4}]              \* variables not listed take any value
(* what a text typed by the user means for a variable: value number, or -1 for invalid *)
IntTexts  == <<0, 1, 2, 3, -1, -1, -1>>                \* "0" "1" "2" "3" "x" "2.5" "True"
FltTexts  == <<0, 1, 2, 3, 4, -1, -1>>                \* "0" "0.05" "1e-05" ".5" "1" "abc" "True"
BoolTexts == <<1, 0, 1, 0, -1, -1, -1>>               \* "true" "False" "TRUE" "false" "maybe" "x" ""
StrTexts  == <<0, 1, 2, 3, 4, 0, 1>>                  \* the strings themselves
NTexts == 7
TextsOf(x) == CASE VarType[x] = "integer" -> IntTexts [] VarType[x] = "float" -> FltTexts [] VarType[x] = "bool" -> BoolTexts [] OTHER -> StrTexts
Cast(x, t) == TextsOf(x)[t]
ValidValue(x, v) == v # -1 /\ (x \in DOMAIN ChoicesOf => v \in ChoicesOf[x])

Effective(w, e) == LET d == w.pfile[w.pipes[w.exps[e].pipe]].defs
                   IN [x \in DOMAIN d |-> IF x \in DOMAIN w.exps[e].vars THEN w.exps[e].vars[x] ELSE d[x]]
Inputs(w, e) == LET x == w.exps[e] IN
  [data |-> w.dfile[w.loads[x.load].file], opts |-> w.loads[x.load].opts, pipe |-> w.pfile[w.pipes[x.pipe]], eff |-> Effective(w, e),
   names |-> <<x.pipe, x.load, w.pipes[x.pipe], w.loads[x.load].file>>]
SameRun(a, b) == a.data = b.data /\ a.opts = b.opts /\ a.pipe = b.pipe /\ a.eff = b.eff
Stored(w, e) == IF e \in DOMAIN w.store THEN w.store[e] ELSE <<>>

(* executing all experiments: which are run *)
MustRun(w, e, force) == force \/ Stored(w, e) = <<>> \/ ~SameRun(Inputs(w, e), Last(Stored(w, e)))
(* nothing changed but the names under which the same inputs are reached: left open *)
MayRun(w, e) == ~MustRun(w, e, FALSE) /\ Inputs(w, e).names # Last(Stored(w, e)).names

(* the graph found by the pipelines of these histories: nodes 1..3, pairs 1 = (1,2), 2 = (1,3), 3 = (2,3) *)
Code(r) == r.data + r.pipe.set + (IF "i" \in DOMAIN r.eff THEN r.eff.i ELSE 0) + (IF "n" \in DOMAIN r.eff THEN r.eff.n ELSE 0) + (IF "f" \in DOMAIN r.eff THEN r.eff.f ELSE 0) + (IF "g" \in DOMAIN r.eff THEN r.eff.g ELSE 0) + (IF "o" \in DOMAIN r.eff THEN r.eff.o ELSE 0)
           + 2 * (IF "b" \in DOMAIN r.eff THEN r.eff.b ELSE 0) + (IF "s" \in DOMAIN r.eff THEN r.eff.s ELSE 0) + (IF "c" \in DOMAIN r.eff THEN r.eff.c ELSE 0)
PairU == <<1, 1, 2>>
PairV == <<2, 3, 3>>
PairKind(r, k) == ((Code(r) + 1) * k) % 5           \* 0 and 4: no edge, 1: undirected, 2: u -> v, 3: v -> u
EdgesOf(r) == UNION {LET kd == PairKind(r, k) IN
                  CASE kd = 1 -> {[u |-> PairU[k], v |-> PairV[k], t |-> "UNDIRECTED", m |-> Code(r) + k]}
                    [] kd = 2 -> {[u |-> PairU[k], v |-> PairV[k], t |-> "DIRECTED", m |-> Code(r) + k]}
                    [] kd = 3 -> {[u |-> PairV[k], v |-> PairU[k], t |-> "DIRECTED", m |-> Code(r) + k]}
                    [] OTHER -> {} : k \in 1..3}

(* --- the commands ------------------------------------------------------- *)
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
PipeUsed(w, n) == \E e \in DOMAIN w.exps : w.exps[e].pipe = n
LoadUsed(w, n) == \E e \in DOMAIN w.exps : w.exps[e].load = n
(* may the command do what it says? *)
Enabled(w, o) ==
  CASE o.k = "rmpipe" -> o.e \in DOMAIN w.pipes /\ ~PipeUsed(w, o.e)
    [] o.k = "rmload" -> o.e \in DOMAIN w.loads /\ ~LoadUsed(w, o.e)
    [] o.k \in {"rmexp", "clear", "execute"} -> o.e \in DOMAIN w.exps
    [] o.k = "import" -> o.e \in DOMAIN w.exps /\ Stored(w, o.e) # <<>>
    [] o.k = "update" -> /\ o.e \in DOMAIN w.exps
                         /\ o.x \in DOMAIN w.pfile[w.pipes[w.exps[o.e].pipe]].defs
                         /\ ValidValue(o.x, Cast(o.x, o.v))
    [] OTHER -> TRUE
(* pipelines as they are added: the shipped PC, a copy of it to edit, an empty one *)
Shipped == [set |-> 91, defs |-> [threshold |-> 1]]
Empty   == [set |-> 90, defs |-> [x \in {} |-> 0]]
NewFile(o) == CASE o.y = "PRECONFIGURED" -> "PC" [] o.y = "EJECT" -> o.e \o ".yml" [] OTHER -> o.e \o ".py"
NewContent(o) == IF o.y = "SKELETON" THEN Empty ELSE Shipped
(* the graph is only specified for the pipelines of these histories *)
KnownGraph(r) == r.pipe.set < 90
(* everything but runs; ran: the experiments that were run *)
Step(w, o, ran) ==
  LET u == IF ~Enabled(w, o) THEN w ELSE
        CASE o.k = "rmpipe" -> [w EXCEPT !.pipes = Without(@, o.e)]
          [] o.k = "rmload" -> [w EXCEPT !.loads = Without(@, o.e)]
          [] o.k = "rmexp"  -> [w EXCEPT !.exps = Without(@, o.e), !.store = Without(@, o.e)]
          [] o.k = "clear"  -> [w EXCEPT !.store = Without(@, o.e)]
          [] o.k = "update" -> [w EXCEPT !.exps[o.e].vars = With(@, o.x, Cast(o.x, o.v))]
          (* edits by the user *)
          [] o.k = "editdata" -> [w EXCEPT !.dfile[o.e] = o.v]
          [] o.k = "editset"  -> [w EXCEPT !.pfile[o.e].set = o.v]
          [] o.k = "editdef"  -> [w EXCEPT !.pfile[o.e].defs = With(@, o.x, o.v)]
          [] o.k = "editopts" -> [w EXCEPT !.loads[o.e].opts = o.v]
          [] o.k = "usepipe"  -> [w EXCEPT !.exps[o.e].pipe = o.x, !.exps[o.e].vars = [x \in DOMAIN @ \cap DOMAIN w.pfile[w.pipes[o.x]].defs |-> @[x]]]
          [] o.k = "import"   -> [w EXCEPT !.store[o.e] = <<Head(@)>> \o @]    \* the oldest version once more, under an older number
          [] o.k = "useload"  -> [w EXCEPT !.exps[o.e].load = o.x]
          [] o.k = "unset"    -> [w EXCEPT !.exps[o.e].vars = Without(@, o.x)]
          [] o.k = "addexp"   -> [w EXCEPT !.exps = With(@, o.e, [pipe |-> o.x, load |-> o.y, vars |-> w.pfile[w.pipes[o.x]].defs])]
          [] o.k = "addpipe"  -> LET f == NewFile(o) IN [w EXCEPT !.pipes = With(@, o.e, f), !.pfile = With(@, f, NewContent(o))]
          (* a new workspace file: v = 0: the question whether to replace the old one is answered with no, 1: nothing configured,
             2: a pipeline, 3: a data loader, 4: both, 5: both and an experiment; stored results stay *)
          [] o.k = "init" /\ o.v > 0 ->
               LET f  == NewFile([o EXCEPT !.e = o.x])
                   pf == IF o.v \in {2, 4, 5} THEN With(w.pfile, f, NewContent(o)) ELSE w.pfile
                   none == [x \in {} |-> 0]
               IN [w EXCEPT !.pfile = pf,
                            !.pipes = IF o.v \in {2, 4, 5} THEN With(none, o.x, f) ELSE none,
                            !.loads = IF o.v >= 3 THEN With(none, "d_1", [file |-> "x.json", opts |-> 0]) ELSE none,
                            !.exps  = IF o.v = 5 THEN With(none, o.e, [pipe |-> o.x, load |-> "d_1", vars |-> pf[f].defs]) ELSE none]
          [] o.k = "addload"  -> [w EXCEPT !.loads = With(@, o.e, [file |-> o.x, opts |-> 0])]
          [] OTHER -> w                               \* execute, badexec, foreign files, looking
  IN [u EXCEPT !.store = [e \in (DOMAIN @) \cup ran |-> (IF e \in DOMAIN @ THEN @[e] ELSE <<>>) \o (IF e \in ran THEN <<Inputs(w, e)>> ELSE <<>>)]]
(* the experiments a command has to run, those it may run *)
Runs(w, o)  == CASE o.k = "execute" -> IF o.e \in DOMAIN w.exps THEN {o.e} ELSE {}
                 [] o.k = "executeall" -> {e \in DOMAIN w.exps : MustRun(w, e, o.v = 1)}
                 [] OTHER -> {}
(* badexec: an experiment is given an unknown variable or an invalid value, executed (alone or with all others) and put right again *)
MayRuns(w, o) == Runs(w, o) \cup CASE o.k = "executeall" -> {e \in DOMAIN w.exps : MayRun(w, e)}
                                  [] o.k = "badexec" /\ o.v = 1 -> {e \in DOMAIN w.exps \ {o.e} : MustRun(w, e, FALSE) \/ MayRun(w, e)}
                                  [] OTHER -> {}

(* --- invariants of the design -------------------------------------------- *)
Closed(w) == \A e \in DOMAIN w.exps : /\ w.exps[e].pipe \in DOMAIN w.pipes /\ w.exps[e].load \in DOMAIN w.loads
                                      /\ DOMAIN w.exps[e].vars \subseteq DOMAIN w.pfile[w.pipes[w.exps[e].pipe]].defs
                                      /\ \A x \in DOMAIN w.exps[e].vars : ValidValue(x, w.exps[e].vars[x])
UpToDate(w, e) == Stored(w, e) # <<>> /\ SameRun(Inputs(w, e), Last(Stored(w, e)))
=============================================================================
