---------------------------- MODULE BignumCheck ----------------------------
(* The arithmetic of Bignum.tla against TLC's own integers (where they reach). *)
EXTENDS Bignum
VARIABLES a, b
Vals == {0, 1, -1, 7, 9999, 10000, 10001, -9999, -10000, 12345, -46000, 46340, 99999999, -100000000, 123456789}
Init == a \in Vals /\ b \in Vals
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Small == a \in -46340..46340 /\ b \in -46340..46340
Sums  == Add(Big(a), Big(b)) = Big(a + b) /\ Sub(Big(a), Big(b)) = Big(a - b)
Prods == Small => Mul(Big(a), Big(b)) = Big(a * b)
Order == Lt(Big(a), Big(b)) = (a < b) /\ Leq(Big(a), Big(b)) = (a <= b)
Ring  == LET x == Mul(Big(a), Big(b)) IN Mul(x, Add(x, Big(b))) = Add(Mul(x, x), Mul(Big(b), x))
Dets  == Det(<< <<Big(a), Big(b), Big(3)>>, <<Big(2), Big(5), Big(a)>>, <<Big(1), Big(b), Big(7)>> >>)
           = Add(Sub(Mul(Big(a), Sub(Big(35), Mul(Big(a), Big(b)))), Mul(Big(b), Sub(Big(14), Big(a)))), Mul(Big(3), Sub(Mul(Big(2), Big(b)), Big(5))))
=============================================================================
