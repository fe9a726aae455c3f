------------------------------ MODULE Judging ------------------------------
(* Binding of a specification to recorded behaviour of the implementation.   *)
(* OBS names a file with one observation (JSON) per line.  A module that      *)
(* EXTENDS this one defines Judge(rec), a total operator that evaluates the   *)
(* specification on the observation and yields "ok" or the name of the        *)
(* clause that fails; it then defines JInit/JNext/JSpec with the macros       *)
(* below.  The observations are cut into NCHUNK chunks so that TLC's workers  *)
(* judge them in parallel; the verdicts that are not "ok" go to BAD.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, SequencesExt, FiniteSetsExt

Obs  == ndJsonDeserialize(IOEnv.OBS)
NObs == Len(Obs)
NCh  == atoi(IOEnv.NCHUNK)
FirstOf(c) == ((c - 1) * NObs) \div NCh + 1
LastOf(c)  == (c * NObs) \div NCh

VARIABLES jc, jp, jv
jvars == <<jc, jp, jv>>

JStart == /\ jc \in 1..NCh
          /\ jp = FirstOf(jc) - 1
          /\ jv = "ok"
JStep(J(_)) == /\ jp < LastOf(jc)
               /\ jp' = jp + 1
               /\ jc' = jc
               /\ jv' = J(Obs[jp + 1])
(* evaluated once per distinct state: logs the verdicts that are not "ok" *)
JLogged == jv = "ok" \/ CSVWrite("%1$s;%2$s", <<jp, jv>>, IOEnv.BAD)

(* ---- small helpers used by the judges ---- *)
NoDup(s)    == Cardinality(Range(s)) = Len(s)
SetIs(s, S) == Range(s) = S /\ NoDup(s)           \* a list that is exactly the set S
(* first failing clause of a sequence of <<holds, name>> *)
RECURSIVE FirstFail(_, _)
FirstFail(cl, i) == IF i > Len(cl) THEN "ok" ELSE IF ~cl[i][1] THEN cl[i][2] ELSE FirstFail(cl, i + 1)
Clauses(cl) == FirstFail(cl, 1)
=============================================================================
