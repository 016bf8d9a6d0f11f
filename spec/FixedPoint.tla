----------------------------- MODULE FixedPoint -----------------------------
(***************************************************************************)
(* 32-bit fixed-point arithmetic and trigonometry (TLC integers are 32 bit *)
(* and overflow is an error).  Angles and trigonometric values: 1/S.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

S == 1000000
PI == 3141593
TWOPI == 6283185
HALFPI == 1570796

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Clip(a, lo, hi) == Max2(lo, Min2(hi, a))
Near(a, b, tol) == Abs(a - b) <= tol

\* rounded quotient, d > 0
DivR(a, d) == IF a >= 0 THEN (a + d \div 2) \div d ELSE -(((-a) + d \div 2) \div d)

\* a*b/S for |a| <= 1400000, |b| <= 1400000, error <= 1
Mul(a, b) ==
  LET x == Abs(a)  y == Abs(b)
      hi == (x \div 1000) * y
      lo == (x % 1000) * y
      p == hi \div 1000 + ((hi % 1000) * 1000 + lo + 500000) \div 1000000
  IN IF Sgn(a) * Sgn(b) < 0 THEN -p ELSE p

\* a*b/d; requires (|a| \div d)*|b| and d*|b| < 2^31
MulDiv(a, b, d) ==
  LET x == Abs(a)  y == Abs(b)
      p == (x \div d) * y + ((x % d) * y + d \div 2) \div d
  IN IF Sgn(a) * Sgn(b) < 0 THEN -p ELSE p

\* exact floor(a*b/d) for 0 <= a < 2^29, 0 <= b < 2^30, 0 < d < 2^29 (shift and add)
RECURSIVE BMD(_, _, _, _, _, _)
BMD(a, b, d, bit, qq, r) ==
  IF bit = 0 THEN qq
  ELSE LET r2 == 2 * r + (IF (b \div bit) % 2 = 1 THEN a % d ELSE 0)
           q2 == 2 * qq + (IF (b \div bit) % 2 = 1 THEN a \div d ELSE 0)
       IN BMD(a, b, d, bit \div 2, q2 + r2 \div d, r2 % d)
RECURSIVE TopBit(_, _)
TopBit(b, bit) == IF bit * 2 > b THEN bit ELSE TopBit(b, bit * 2)
BigMulDiv(a, b, d) ==
  LET p == IF b = 0 THEN 0 ELSE BMD(Abs(a), Abs(b), d, TopBit(Abs(b), 1), 0, 0)
  IN IF Sgn(a) * Sgn(b) < 0 THEN -p ELSE p

\* floor(sqrt(n)), n >= 0, bit by bit from 2^30
RECURSIVE SqrtBits(_, _, _)
SqrtBits(n, bit, res) ==
  IF bit = 0 THEN res
  ELSE IF n >= res + bit THEN SqrtBits(n - (res + bit), bit \div 4, res \div 2 + bit)
  ELSE SqrtBits(n, bit \div 4, res \div 2)
ISqrt(n) == SqrtBits(n, 1073741824, 0)

\* hypot with |a|,|b| <= 3*10^6, error about 1 (one Newton step when large)
Newton(a, b, h) == (h + BigMulDiv(a, a, h) + BigMulDiv(b, b, h) + 1) \div 2
Hypot(a, b) ==
  LET m == Max2(Abs(a), Abs(b)) IN
  IF m <= 32000 THEN ISqrt(a * a + b * b)
  ELSE LET x == DivR(a, 100)  y == DivR(b, 100) IN Newton(a, b, ISqrt(x * x + y * y) * 100)

\* ---- sine/cosine on [0, pi/4] by Taylor, then octant reduction ----
SinT(x) == LET x2 == Mul(x, x) IN
  Mul(x, S - Mul(x2, 166667 - Mul(x2, 8333 - Mul(x2, 198))))
CosT(x) == LET x2 == Mul(x, x) IN
  S - Mul(x2, 500000 - Mul(x2, 41667 - Mul(x2, 1389 - Mul(x2, 25))))
SinQ(x) == IF x <= 785398 THEN SinT(x) ELSE CosT(HALFPI - x)     \* [0, pi/2]
CosQ(x) == IF x <= 785398 THEN CosT(x) ELSE SinT(HALFPI - x)
Sin(a) == LET r == a % TWOPI IN
  IF r <= HALFPI THEN SinQ(r)
  ELSE IF r <= PI THEN SinQ(Max2(0, PI - r))
  ELSE IF r <= PI + HALFPI THEN -SinQ(r - PI)
  ELSE -SinQ(Max2(0, TWOPI - r))
Cos(a) == LET r == a % TWOPI IN
  IF r <= HALFPI THEN CosQ(r)
  ELSE IF r <= PI THEN -CosQ(Max2(0, PI - r))
  ELSE IF r <= PI + HALFPI THEN -CosQ(r - PI)
  ELSE CosQ(Max2(0, TWOPI - r))

\* representative of an angle in [-pi, pi)
Wrap(a) == ((a + PI) % TWOPI) - PI
\* distance between two angles modulo 2 pi
AngDist(a, b) == LET d == (a - b) % TWOPI IN Min2(d, TWOPI - d)

\* ---- atan2 by CORDIC (vectoring mode), |y|,|x| <= 10^6, scaled up first ----
AtanTab == <<785398, 463648, 244979, 124355, 62419, 31240, 15624, 7812, 3906, 1953,
             977, 488, 244, 122, 61, 31, 15, 8, 4, 2, 1>>
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768,
          65536, 131072, 262144, 524288, 1048576>>
ShR(a, n) == IF a >= 0 THEN a \div Pow2[n] ELSE -((-a) \div Pow2[n])
RECURSIVE Cordic(_, _, _, _)
Cordic(x, y, z, i) ==
  IF i > 21 THEN z
  ELSE IF y >= 0 THEN Cordic(x + ShR(y, i), y - ShR(x, i), z + AtanTab[i], i + 1)
  ELSE Cordic(x - ShR(y, i), y + ShR(x, i), z - AtanTab[i], i + 1)
RECURSIVE ScaleUp(_, _)
ScaleUp(x, y) == IF Max2(Abs(x), Abs(y)) < 100000000 THEN ScaleUp(x * 4, y * 4) ELSE <<x, y>>
Atan2(y, x) ==
  IF x = 0 /\ y = 0 THEN 0
  ELSE LET s == ScaleUp(x, y) IN
       IF s[1] >= 0 THEN Cordic(s[1], s[2], 0, 1)
       ELSE IF s[2] >= 0 THEN PI - Cordic(-s[1], s[2], 0, 1)
       ELSE -PI - Cordic(-s[1], s[2], 0, 1)

\* rotate the vector <<vx, vy>> by angle a (|v| <= 1400000)
Rot(a, v) == LET c == Cos(a)  s == Sin(a) IN
  <<Mul(v[1], c) - Mul(v[2], s), Mul(v[1], s) + Mul(v[2], c)>>
=============================================================================
