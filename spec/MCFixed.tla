------------------------------- MODULE MCFixed -------------------------------
(* Self-check of FixedPoint: identities on a sweep of angles and vectors. *)
EXTENDS FixedPoint, TLC
VARIABLE a
Init == a \in 0..511
Next == UNCHANGED a
ang == (a - 256) * 36807
Pyth == Near(Mul(Sin(ang), Sin(ang)) + Mul(Cos(ang), Cos(ang)), S, 6)
Shift == /\ Near(Sin(ang + HALFPI), Cos(ang), 6) /\ Near(Sin(-ang), -Sin(ang), 6)
         /\ Near(Cos(ang + PI), -Cos(ang), 6)
Inv == AngDist(Atan2(Sin(ang), Cos(ang)), ang) <= 12
Dbl == Near(Sin(2 * ang), 2 * Mul(Sin(ang), Cos(ang)), 12)
Sq == LET n == a * a * 113 + a IN LET r == ISqrt(n) IN r * r <= n /\ (r + 1) * (r + 1) > n
Hyp == Near(Hypot(3 * a, 4 * a), 5 * a, 6) /\ Near(Hypot(300 * a, -400 * a) , 500 * a, 3)
Ex == Near(Sin(523599), 500000, 4) /\ Near(Cos(1047198), 500000, 4) /\ Near(Sin(643501), 600000, 4)
RotOk == LET v == <<a * 100, 5000 - a>> IN LET w == Rot(ang, v) IN
         Near(Hypot(w[1], w[2]), Hypot(v[1], v[2]), 6)
=============================================================================
