--------------------------- MODULE DataSourceGen ---------------------------
(* Histories of a table: edits, rewrites in another layout, option changes.    *)
EXTENDS DataSource, FiniteSetsExt, TLC, Json, IOUtils, CSV
VARIABLES s, n, first, ops
vars == <<s, n, first, ops>>
MaxOps == atoi(IOEnv.MAXOPS)
NNames == atoi(IOEnv.NAMES)
NValues == atoi(IOEnv.VALUES)
RandRow(k, x) == [i \in 1..k |-> RandomElement(0..NValues-1)]
RandTable(x) ==
  LET k == TLCEval(RandomElement(1..5))
      m == TLCEval(RandomElement(1..6))
      cs == TLCEval(RandomElement(kSubset(k, 0..NNames-1)))
  IN [cols |-> TLCEval(SetToSeq(cs)), rows |-> TLCEval([r \in 1..m |-> RandRow(k, r)]), layout |-> RandomElement(0..9), opts |-> RandomElement(0..NOpts-1), order |-> 0]
Init == s = [cols |-> <<>>, rows |-> <<>>, layout |-> 0, opts |-> 0, order |-> 0] /\ n = 0 /\ first = s /\ ops = <<>>
Start == n = 0 /\ n' = 1 /\ \E t \in {RandTable(n)} : s' = t /\ first' = t /\ UNCHANGED ops
Op(k) ==
  LET r == TLCEval(RandomElement(DOMAIN s.rows))
      c == TLCEval(RandomElement(DOMAIN s.cols))
      z == [op |-> k, r |-> r, c |-> c, v |-> 0, row |-> <<>>]
  IN CASE k = "cell"   -> [z EXCEPT !.v = RandomElement(0..NValues-1)]
       [] k = "append" -> [z EXCEPT !.row = TLCEval(RandRow(Len(s.cols), n))]
       [] k = "drop"   -> IF Len(s.rows) = 1 THEN [z EXCEPT !.op = "same"] ELSE z
       [] k = "swap"   -> [z EXCEPT !.c = RandomElement(DOMAIN s.rows)]
       [] k = "rename" -> [z EXCEPT !.v = RandomElement((0..NNames-1) \ {s.cols[i] : i \in DOMAIN s.cols \ {c}})]
       [] k = "layout" -> [z EXCEPT !.v = RandomElement(0..9)]
       [] k = "options" -> [z EXCEPT !.v = RandomElement(0..NOpts-1)]
       [] k = "order"  -> [z EXCEPT !.v = 1 - s.order]
       [] OTHER        -> z
Act == /\ n \in 1..MaxOps /\ n' = n + 1 /\ UNCHANGED first
       /\ \E k \in {<<"cell", "append", "drop", "swap", "rename", "layout", "options", "options", "order", "same">>[RandomElement(1..10)]} :
            \E o \in {TLCEval(Op(k))} : ops' = Append(ops, o) /\ s' = Apply(s, o)
Next == Start \/ Act
Inv == WellFormed(s)
(* the layout is not part of the data *)
LayoutFree == [][ops' # ops /\ Last(ops').op \in {"layout", "order", "same"} => Data(s') = Data(s) /\ ~OtherSource(s', s)]_vars
Emit == n' # MaxOps + 1 \/ CSVWrite("%1$s", <<ToJson([first |-> first', ops |-> ops'])>>, IOEnv.GENOUT)
=============================================================================
