------------------------------ MODULE FileRefs ------------------------------
(* A directory tree with symbolic links, and what a file reference means.      *)
(* A path is a sequence of names below the root of the tree.                    *)
(* fs: function from paths to [kind: "dir" | "file" | "link", id: identity of    *)
(* a file, abs: link target counted from the root, to: its components].         *)
(* A reference is [abs, to] as well, read in the working directory.             *)
(* Resolution is physical: links are followed before "..", as by the system.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Missing == <<"missing">>   \* names never contain these
Outside == <<"outside">>
Bad == {Missing, Outside}
Fuel == 12                 \* links followed at most

RECURSIVE Walk(_, _, _, _)
Walk(fs, at, todo, fuel) ==                     \* at: a real directory, or the result when todo is empty
  IF todo = <<>> THEN at
  ELSE IF at \notin DOMAIN fs \/ fs[at].kind # "dir" THEN Missing
  ELSE LET h == Head(todo)
           t == Tail(todo)
       IN IF h = "." THEN Walk(fs, at, t, fuel)
          ELSE IF h = ".." THEN IF at = <<>> THEN Outside ELSE Walk(fs, Front(at), t, fuel)
          ELSE LET p == Append(at, h)
               IN IF p \notin DOMAIN fs THEN Missing
                  ELSE IF fs[p].kind = "link"
                       THEN IF fuel = 0 THEN Missing ELSE Walk(fs, IF fs[p].abs THEN <<>> ELSE at, fs[p].to \o t, fuel - 1)
                       ELSE Walk(fs, p, t, fuel)
Resolve(fs, cwd, ref) == Walk(fs, IF ref.abs THEN <<>> ELSE cwd, ref.to, Fuel)
Inside(cwd, p) == p \notin Bad /\ IsPrefix(cwd, p) /\ p # cwd
(* the file a reference may be loaded from: its identity, or 0 for none *)
MayLoad(fs, cwd, ref) == LET p == TLCEval(Resolve(fs, cwd, ref)) IN IF Inside(cwd, p) /\ fs[p].kind = "file" THEN fs[p].id ELSE 0
(* the tree is closed: every entry is in a directory *)
WellFormed(fs) == <<>> \in DOMAIN fs /\ fs[<<>>].kind = "dir" /\ \A p \in DOMAIN fs \ {<<>>} : Front(p) \in DOMAIN fs /\ fs[Front(p)].kind = "dir"
=============================================================================
