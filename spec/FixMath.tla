------------------------------ MODULE FixMath ------------------------------
(* Fixed-point arithmetic within TLC's 32-bit integers.                      *)
(*                                                                           *)
(*   tick  1e-4 m      lengths and coordinates                               *)
(*   ru    1e-8 rad    angles and headings                                   *)
(*   one   10^8        the number 1 in fractions (cosines, ratios)           *)
(*                                                                           *)
(* MulF(a,c) = a*c/10^8 needs |a|*|c| < 2*10^17, DivF(n,d) = n*10^8/d needs  *)
(* |d| <= 2*10^8 and |n/d| < 21.                                             *)
EXTENDS Integers, Sequences

One   == 100000000
E4    == 10000
PiR   == 314159265          \* pi in ru (314159265.36)
TwoPi == 628318531          \* 2 pi in ru (628318530.72)
HalfPi == 157079633

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

MulPos(a, c) ==
  LET a1 == a \div E4  a0 == a % E4
      c1 == c \div E4  c0 == c % E4
  IN  a1 * c1 + (a1 * c0 + a0 * c1 + ((a0 * c0) \div E4) + 5000) \div E4

MulF(a, c) == LET p == MulPos(Abs(a), Abs(c))
              IN  IF (a < 0) = (c < 0) THEN p ELSE -p

RECURSIVE DivLoop(_, _, _, _)
DivLoop(q, r, d, k) ==
  IF k = 0 THEN (IF 2 * r >= d THEN q + 1 ELSE q)
  ELSE DivLoop(q * 10 + (r * 10) \div d, (r * 10) % d, d, k - 1)

DivPos(n, d) == DivLoop(n \div d, n % d, d, 8)
DivF(n, d) == LET p == DivPos(Abs(n), Abs(d))
              IN  IF (n < 0) = (d < 0) THEN p ELSE -p

RoundDiv(n, d) == IF n >= 0 THEN (n + d \div 2) \div d
                  ELSE -((-n + d \div 2) \div d)

(* angles *)
Wrap(x) == LET y == (x + PiR) % TwoPi IN y - PiR       \* into [-pi, pi)
AngDiff(x, y) == Abs(Wrap(Wrap(x) - Wrap(y)))

SinT(x) == LET x2 == MulF(x, x)
               e  == One - x2 \div 72
               d  == One - MulF(x2, e) \div 42
               c  == One - MulF(x2, d) \div 20
               b  == One - MulF(x2, c) \div 6
           IN  MulF(x, b)
CosT(x) == LET x2 == MulF(x, x)
               f  == One - x2 \div 90
               e  == One - MulF(x2, f) \div 56
               d  == One - MulF(x2, e) \div 30
               c  == One - MulF(x2, d) \div 12
           IN  One - MulF(x2, c) \div 2

(* <<cos, sin>> of an angle in ru *)
CosSin(ang) ==
  LET w == Wrap(ang)
      q == RoundDiv(w, HalfPi)          \* -2 .. 2
      x == w - q * HalfPi - (IF q = 2 THEN 0 ELSE 0)
      c == CosT(x)
      s == SinT(x)
      m == q % 4
  IN  IF m = 0 THEN <<c, s>>
      ELSE IF m = 1 THEN <<-s, c>>
      ELSE IF m = 2 THEN <<-c, -s>>
      ELSE <<s, -c>>

(* square root of a fraction 1 <= s <= 2, by Newton *)
RECURSIVE SqrtLoop(_, _, _)
SqrtLoop(s, x, k) == IF k = 0 THEN x ELSE SqrtLoop(s, (x + DivF(s, x)) \div 2, k - 1)

Hypot(u, v) ==
  LET m == Max2(Abs(u), Abs(v))
      n == Min2(Abs(u), Abs(v))
  IN  IF m = 0 THEN 0
      ELSE IF n = 0 THEN m
      ELSE LET r == DivF(n, m)
               s == One + MulF(r, r)
           IN  MulF(m, SqrtLoop(s, One + (s - One) \div 2, 3))

(* direction of a non-zero vector, in ru *)
RECURSIVE AtanLoop(_, _, _, _)
AtanLoop(c, s, t, k) ==
  IF k = 0 THEN t
  ELSE LET cs == CosSin(t)
           cr == MulF(s, cs[1]) - MulF(c, cs[2])
       IN  AtanLoop(c, s, t + cr + MulF(MulF(cr, cr), cr) \div 6, k - 1)
Atan2(v, u) ==
  LET h == Hypot(u, v)
      c == DivF(u, h)
      s == DivF(v, h)
      g == IF Abs(u) >= Abs(v) THEN (IF u > 0 THEN 0 ELSE PiR)
           ELSE (IF v > 0 THEN HalfPi ELSE -HalfPi)
  IN  Wrap(AtanLoop(c, s, g, 5))
=============================================================================
