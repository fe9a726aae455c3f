---------------------------- MODULE FileRefsGen ----------------------------
(* Random trees with links and sibling directories of similar names, and       *)
(* references into them.                                                        *)
EXTENDS FileRefs, Json, IOUtils, CSV
VARIABLES fs, n, refs
vars == <<fs, n, refs>>
Grow == atoi(IOEnv.GROW)
Refs == atoi(IOEnv.REFS)
Depth == atoi(IOEnv.DEPTH)
DirNames == {"w", "W", "w2", "wx", "sub", "deep", "..w", "w.json"}
FileNames == {"a.json", "A.json", "b.yml", "c", "..d.json", "w"}
LinkNames == {"l1", "l2", "lf.json"}
Cwd == <<"w">>
Dir == [kind |-> "dir", id |-> 0, abs |-> FALSE, to |-> <<>>]
File(i) == [kind |-> "file", id |-> i, abs |-> FALSE, to |-> <<>>]
Link(a, t) == [kind |-> "link", id |-> 0, abs |-> a, to |-> t]
Dirs == {p \in DOMAIN fs : fs[p].kind = "dir"}
Deepest == CHOOSE p \in Dirs : \A q \in Dirs : Len(q) <= Len(p)
Ups(k) == [i \in 1..k |-> ".."]
CommonLen(p, q) == LET ks == {k \in 0..Len(p) : k <= Len(q) /\ SubSeq(p, 1, k) = SubSeq(q, 1, k)} IN CHOOSE k \in ks : \A j \in ks : j <= k
RelTo(from, p) == LET k == TLCEval(CommonLen(from, p)) IN Ups(Len(from) - k) \o SubSeq(p, k + 1, Len(p))
(* a way to p from a directory, relative or from the root, now and then with a detour *)
Way(from, p) ==
  LET k == TLCEval(RandomElement(1..10))
      d == TLCEval(RandomElement(Dirs))
      base == IF k <= 3 THEN [abs |-> TRUE, to |-> p] ELSE [abs |-> FALSE, to |-> RelTo(from, p)]
  IN IF k = 10 THEN [abs |-> TRUE, to |-> d \o RelTo(d, p)]
     ELSE IF k = 9 THEN [abs |-> FALSE, to |-> RelTo(from, d) \o RelTo(d, p)]
     ELSE IF k = 8 THEN [base EXCEPT !.to = <<".">> \o @]
     ELSE base
(* through a link that happens to be there *)
ViaLink(from) ==
  LET ls == {p \in DOMAIN fs : fs[p].kind = "link"}
  IN IF ls = {} THEN Way(from, RandomElement(DOMAIN fs))
     ELSE LET l == TLCEval(RandomElement(ls))
              below == {p \in DOMAIN fs : Len(p) > 0}
              tail == TLCEval(RandomElement({<<>>, <<"a.json">>, <<"b.yml">>, <<"sub", "a.json">>, <<"..", "a.json">>, <<"..", "w", "a.json">>, <<"..", "w2", "a.json">>, <<"..", "W", "a.json">>}))
          IN LET b == Way(from, l) IN [b EXCEPT !.to = @ \o tail]
Init == fs = ((<<>> :> Dir) @@ (Cwd :> Dir)) /\ n = 0 /\ refs = <<>>
AddEntry(p, e) == fs' = IF p \in DOMAIN fs THEN fs ELSE (p :> e) @@ fs
Build ==
  /\ n < Grow /\ n' = n + 1 /\ UNCHANGED refs
  /\ \E d \in {IF Depth > 3 /\ RandomElement(1..3) > 1 THEN Deepest ELSE RandomElement(Dirs)} : \E k \in {RandomElement(1..10)} :
       CASE k <= 3 -> \E m \in {RandomElement(DirNames)} : IF Len(d) > Depth THEN UNCHANGED fs ELSE AddEntry(Append(d, m), Dir)
         [] k <= 7 -> \E m \in {RandomElement(FileNames)} : AddEntry(Append(d, m), File(n + 1))
         [] OTHER  -> \E m \in {RandomElement(LinkNames)} : \E t \in {RandomElement(DOMAIN fs)} : \E w \in {TLCEval(Way(d, t))} : AddEntry(Append(d, m), Link(w.abs, w.to))
Ask == /\ n \in Grow..(Grow + Refs - 1) /\ n' = n + 1 /\ UNCHANGED fs
       /\ \E k \in {RandomElement(1..10)} : \E t \in {RandomElement(DOMAIN fs)} :
            \E w \in {TLCEval(IF k <= 3 THEN ViaLink(Cwd) ELSE Way(Cwd, IF k = 4 THEN Append(t, "a.json") ELSE t))} :
              refs' = Append(refs, w)
Next == Build \/ Ask
Inv == WellFormed(fs)
(* what may be loaded is a file below the working directory, and the way to it never matters *)
Contained == \A i \in DOMAIN refs : LET id == MayLoad(fs, Cwd, refs[i]) IN id = 0 \/ \E p \in DOMAIN fs : fs[p].kind = "file" /\ fs[p].id = id /\ IsPrefix(Cwd, p)
Emit == n' # Grow + Refs \/ CSVWrite("%1$s", <<ToJson([fs |-> {[p |-> p, e |-> fs'[p]] : p \in DOMAIN fs'}, cwd |-> Cwd, refs |-> refs'])>>, IOEnv.GENOUT)
=============================================================================
