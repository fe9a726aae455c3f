-------------------------- MODULE SignificanceJudge --------------------------
(* Decisions of the independence tests.  The data of an observation has the     *)
(* (partial) correlation r of the pair given k variables exactly; the           *)
(* observation gives it as Fisher's z (rec.z = atanh r in units of 10^-4) or as *)
(* Student's t (rec.t = r sqrt(df / (1 - r^2)) in units of 10^-3).              *)
(* rec.alpha in units of 10^-3; rec.decisions: one per order of the variables,  *)
(* scale and shift of the data.                                                 *)
EXTENDS Judging
(* two-sided critical values of the standard normal, 10^-4 *)
ZCrit(alpha) == CASE alpha = 500 -> 6745 [] alpha = 200 -> 12816 [] alpha = 100 -> 16449
                  [] alpha = 50 -> 19600 [] alpha = 10 -> 25758 [] alpha = 1 -> 32905
(* two-sided critical values of Student's t, 10^-3, by degrees of freedom *)
TTable50  == <<12706, 4303, 3182, 2776, 2571, 2447, 2365, 2306, 2262, 2228, 2201, 2179, 2160, 2145, 2131>>
TTable10  == <<63657, 9925, 5841, 4604, 4032, 3707, 3499, 3355, 3250, 3169, 3106, 3055, 3012, 2977, 2947>>
TTable100 == <<6314, 2920, 2353, 2132, 2015, 1943, 1895, 1860, 1833, 1812, 1796, 1782, 1771, 1761, 1753>>
TCrit(alpha, df) ==
  CASE df = 30  -> (CASE alpha = 50 -> 2042 [] alpha = 10 -> 2750 [] alpha = 100 -> 1697)
    [] df = 60  -> (CASE alpha = 50 -> 2000 [] alpha = 10 -> 2660 [] alpha = 100 -> 1671)
    [] df = 120 -> (CASE alpha = 50 -> 1980 [] alpha = 10 -> 2617 [] alpha = 100 -> 1658)
    [] OTHER    -> (CASE alpha = 50 -> TTable50[df] [] alpha = 10 -> TTable10[df] [] alpha = 100 -> TTable100[df])
Abs(x) == IF x < 0 THEN -x ELSE x
Independent(rec) ==
  IF rec.stat = "fisher" THEN rec.z * rec.z < (ZCrit(rec.alpha) * ZCrit(rec.alpha)) \div (rec.N - rec.k - 3)
  ELSE Abs(rec.t) < TCrit(rec.alpha, rec.N - rec.k - 2)
Judge(rec) ==
  IF rec.stat = "perfect"
  THEN IF \A d \in Range(rec.decisions) : d = "dependent" THEN "ok" ELSE "perfectly-correlated"
  ELSE LET x == IF Independent(rec) THEN "independent" ELSE "dependent"
       IN IF \A d \in Range(rec.decisions) : d = x THEN "ok" ELSE "expected-" \o x
JInit == JStart
JNext == JStep(Judge)
JSpec == JInit /\ [][JNext]_jvars
JOk == JLogged
=============================================================================
