------------------------------ MODULE Bignum ------------------------------
(* Exact integers beyond TLC's 32 bits: a number is <<sign, limbs>> with sign   *)
(* 1 or -1 and little-endian limbs in base 10^4 without leading zeros; zero is  *)
(* <<1, <<>>>>.                                                                 *)
EXTENDS Integers, Sequences, TLC
Base == 10000
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE MagOfNat(_)
MagOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MagOfNat(n \div Base)
Big(n) == IF n < 0 THEN <<-1, MagOfNat(-n)>> ELSE <<1, MagOfNat(n)>>
(* from an observation: [s |-> 1 or -1, d |-> limbs] written by the harness *)
FromObs(o) == LET m == Trim(o.d) IN IF m = <<>> THEN <<1, m>> ELSE <<o.s, m>>
L(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, n, c) ==
  IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == L(a, i) + L(b, i) + c IN <<t % Base>> \o AddFrom(a, b, i + 1, n, t \div Base)
MagAdd(a, b) == AddFrom(a, b, 1, Max2(Len(a), Len(b)), 0)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==      \* a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - L(b, i) - c
       IN IF t < 0 THEN <<t + Base>> \o SubFrom(a, b, i + 1, 1) ELSE <<t>> \o SubFrom(a, b, i + 1, 0)
MagSub(a, b) == Trim(SubFrom(a, b, 1, 0))
RECURSIVE MulLimb(_, _, _, _)
MulLimb(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[i] * d + c IN <<t % Base>> \o MulLimb(a, d, i + 1, t \div Base)
RECURSIVE MagMul(_, _)
MagMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET rest == TLCEval(MagMul(a, Tail(b)))
           sh   == IF rest = <<>> THEN <<>> ELSE <<0>> \o rest
       IN Trim(MagAdd(MulLimb(a, Head(b), 1, 0), sh))
Norm(s, m) == IF m = <<>> THEN <<1, m>> ELSE <<s, m>>
Neg(a) == Norm(-a[1], a[2])
Abs(a) == <<1, a[2]>>
Add(a, b) == TLCEval(
  IF a[1] = b[1] THEN Norm(a[1], MagAdd(a[2], b[2]))
  ELSE IF MagCmp(a[2], b[2]) >= 0 THEN Norm(a[1], MagSub(a[2], b[2]))
  ELSE Norm(b[1], MagSub(b[2], a[2])))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == TLCEval(Norm(a[1] * b[1], MagMul(a[2], b[2])))
Sign(a) == IF a[2] = <<>> THEN 0 ELSE a[1]
Lt(a, b)  == Sign(Sub(a, b)) < 0
Leq(a, b) == Sign(Sub(a, b)) <= 0
RECURSIVE TenTo(_)
TenTo(k) == IF k >= 4 THEN Norm(1, <<0>> \o TenTo(k - 4)[2]) ELSE Big(IF k = 0 THEN 1 ELSE IF k = 1 THEN 10 ELSE IF k = 2 THEN 100 ELSE 1000)
(* sums and determinants over sequences of big numbers *)
RECURSIVE BSumFrom(_, _)
BSumFrom(s, i) == IF i > Len(s) THEN Big(0) ELSE Add(s[i], BSumFrom(s, i + 1))
BSum(s) == BSumFrom(s, 1)
Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
RECURSIVE Det(_)
Det(M) ==   \* sequence of rows
  IF Len(M) = 0 THEN Big(1)
  ELSE IF Len(M) = 1 THEN M[1][1]
  ELSE LET minor(j) == [i \in 1..(Len(M) - 1) |-> Drop(M[i + 1], j)]
           term(j)  == LET t == Mul(M[1][j], Det(TLCEval(minor(j)))) IN IF j % 2 = 1 THEN t ELSE Neg(t)
       IN BSum(TLCEval([j \in 1..Len(M) |-> term(j)]))
=============================================================================
