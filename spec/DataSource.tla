----------------------------- MODULE DataSource -----------------------------
(* A table of numbers and the data loaders that read it.                       *)
(* state: [cols  : sequence of column names (each once),                        *)
(*         rows  : sequence of rows, a row is a sequence of values, one per      *)
(*                 column,                                                       *)
(*         layout: the way it is written down (order of the columns, of the keys  *)
(*                 in each row, white space): no observable may depend on it,     *)
(*         opts  : the options of the loader (a number, 0 for none),              *)
(*         order : the order in which the options are written down]               *)
(* A graph made from it has one node per column holding that column's values in  *)
(* row order; the fingerprint identifies the data and the options.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Column(s, c) == [r \in DOMAIN s.rows |-> s.rows[r][c]]
(* the loader option "shift" of the dynamic loaders adds to every value; the    *)
(* options differ in further entries (left out, empty, nested, in another order) *)
Shifts == <<0, 1, 2, 3, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>
NOpts == Len(Shifts)
Shift(o) == Shifts[o + 1]
Nodes(s, form) == {[name |-> s.cols[c], values |-> [r \in DOMAIN s.rows |-> s.rows[r][c] + IF form = "dynamic" THEN Shift(s.opts) ELSE 0]] : c \in DOMAIN s.cols}
Data(s) == <<{<<s.cols[c], Column(s, c)>> : c \in DOMAIN s.cols}, Len(s.rows)>>

Apply(s, op) ==
  CASE op.op = "cell"    -> [s EXCEPT !.rows[op.r][op.c] = op.v]
    [] op.op = "append"  -> [s EXCEPT !.rows = Append(@, op.row)]
    [] op.op = "drop"    -> [s EXCEPT !.rows = RemoveAt(@, op.r)]
    [] op.op = "swap"    -> [s EXCEPT !.rows = [@ EXCEPT ![op.r] = s.rows[op.c], ![op.c] = s.rows[op.r]]]
    [] op.op = "rename"  -> [s EXCEPT !.cols[op.c] = op.v]
    [] op.op = "layout"  -> [s EXCEPT !.layout = op.v]
    [] op.op = "options" -> [s EXCEPT !.opts = op.v]
    [] op.op = "order"   -> [s EXCEPT !.order = op.v]
    [] OTHER             -> s                               \* "same": written again as it is
WellFormed(s) == /\ \A i, j \in DOMAIN s.cols : s.cols[i] = s.cols[j] => i = j
                 /\ \A r \in DOMAIN s.rows : Len(s.rows[r]) = Len(s.cols)
(* what the fingerprint may and must depend on *)
SameSource(a, b)  == a.cols = b.cols /\ a.rows = b.rows /\ a.layout = b.layout /\ a.opts = b.opts
OtherSource(a, b) == Data(a) # Data(b) \/ a.opts # b.opts
=============================================================================
