----------------------------- MODULE Algorithms -----------------------------
(* Declared algorithms: variables, settings ("slots") that hold a value or a   *)
(* reference to a variable, and the models built from them.                    *)
(* A value is [t, v]: a type and a number that stands for a value of that      *)
(* type.  A setting is [ref, name, val].  An algorithm is                       *)
(* [vars, slots]: vars maps a name to [t, def, choices] (choices = {} means     *)
(* any), slots maps every setting to its content.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VarTypes == {"integer", "float", "string", "bool"}
(* the settings of the pipeline the implementation is driven with, by place:    *)
(* a step at the top, one inside a loop, one in a loop inside a loop, one in an  *)
(* action group, one in a group in a loop in a group, one with a sampling generator around another generator, one    *)
(* with a chunking generator, one with settings of its own, and the exit         *)
(* condition of the loop                                                         *)
SlotType == [
  top_threshold |-> "float", top_chunk_size |-> "integer", top_parallel |-> "bool", top_sync |-> "bool", top_display |-> "string",
  top_gen_min |-> "integer", top_gen_max |-> "integer", top_gen_chunked |-> "bool",
  rnd_threshold |-> "float", rnd_every_nth |-> "integer", rnd_chunked |-> "bool",
  rnd_in_shuffle |-> "bool", rnd_in_chunked |-> "bool", rnd_in_min |-> "integer", rnd_in_max |-> "integer",
  edges_chunk_size |-> "integer", edges_chunked |-> "bool",
  own_int |-> "integer", own_float |-> "float", own_string |-> "string", own_bool |-> "bool",
  loop_display |-> "string", loop_exit_limit |-> "integer", loop_threshold |-> "float", loop_strategy |-> "string", loop_gen_max |-> "integer", loop_parallel |-> "bool",
  deep_threshold |-> "float", deep_gen_min |-> "integer", deep_display |-> "string",
  group_display |-> "string", group_threshold |-> "float", group_gen_shuffle |-> "bool", group_gen_max |-> "integer", group_chunk_size |-> "integer",
  pit_display |-> "string", pit_exit_limit |-> "integer", pit_threshold |-> "float", pit_gen_max |-> "integer", pit_parallel |-> "bool" ]
Slots == DOMAIN SlotType

(* a value is acceptable for a variable *)
ValidFor(w, val) == val.t = w.t /\ (w.choices = {} \/ val.v \in w.choices)
(* an assignment (function from names to values) is acceptable for an algorithm *)
ValidAssignment(D, a) == \A x \in DOMAIN a : x \in DOMAIN D.vars /\ ValidFor(D.vars[x], a[x])
KnownRefs(D) == \A s \in DOMAIN D.slots : D.slots[s].ref => D.slots[s].name \in DOMAIN D.vars
(* the values used by a model *)
Effective(D, a) == [x \in DOMAIN D.vars |-> IF x \in DOMAIN a THEN a[x] ELSE D.vars[x].def]
Resolved(D, a) == [s \in DOMAIN D.slots |-> IF D.slots[s].ref THEN Effective(D, a)[D.slots[s].name] ELSE D.slots[s].val]
Buildable(D, a) == ValidAssignment(D, a) /\ KnownRefs(D)
=============================================================================
