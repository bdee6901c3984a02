------------------------------ MODULE Geometry ------------------------------
(* Poses, and the geometries of a road as displacements of poses.            *)
(*                                                                           *)
(* A geometry is specified by its curvature along its length: the heading    *)
(* after the fraction t of its length is  a*t + b*t^2.  Its displacement     *)
(* [u, v, t, len] is the end seen from the start: u metres ahead, v to the   *)
(* left, turned by t, after len metres.  It is obtained by integrating the   *)
(* heading (Simpson), independently of the closed forms and Fresnel          *)
(* integrals the implementation uses.                                        *)
EXTENDS FixMath

Pose(x, y, h) == [x |-> x, y |-> y, h |-> h]
Origin == Pose(0, 0, 0)
Reverse(p) == [p EXCEPT !.h = Wrap(p.h + PiR)]
ShiftLeft(p, d) == LET cs == CosSin(p.h)
                   IN  Pose(p.x - MulF(d, cs[2]), p.y + MulF(d, cs[1]), p.h)

Near(p, q, tol, htol) == /\ Abs(p.x - q.x) <= tol
                         /\ Abs(p.y - q.y) <= tol
                         /\ AngDiff(p.h, q.h) <= htol

(* --- integration of the heading a*t + b*t^2, t in 0..1 ------------------- *)
HeadingAt(a, b, i, n) ==
  LET t == (One \div n) * i + ((One % n) * i) \div n IN MulF(a, t) + MulF(b, MulF(t, t))

RECURSIVE SimpsonSum(_, _, _, _, _)
SimpsonSum(a, b, i, n, acc) ==
  IF i > 2 * n THEN acc
  ELSE LET w  == IF i = 0 \/ i = 2 * n THEN 1 ELSE IF i % 2 = 1 THEN 4 ELSE 2
           cs == CosSin(HeadingAt(a, b, i, 2 * n))
       IN  SimpsonSum(a, b, i + 1, n, <<acc[1] + w * RoundDiv(cs[1], 20),
                                        acc[2] + w * RoundDiv(cs[2], 20)>>)

(* average in units of 1/One of a sum of n6 values given in units of 20/One *)
Average(s, n6) == LET m == Abs(s)
                      v == (m \div n6) * 20 + ((m % n6) * 20 + n6 \div 2) \div n6
                  IN  IF s < 0 THEN -v ELSE v

Panels(a, b) == LET m == Max2(Abs(a), Abs(a + 2 * b))
                IN  IF m = 0 THEN 2
                    ELSE IF m < One \div 3 THEN 4
                    ELSE IF m < One THEN 8
                    ELSE IF m < 3 * One THEN 16
                    ELSE IF m < 5 * One THEN 32
                    ELSE 64

MeanDirection(a, b) ==
  LET n == Panels(a, b)
      s == SimpsonSum(a, b, 0, n, <<0, 0>>)
  IN  <<Average(s[1], 6 * n), Average(s[2], 6 * n)>>

Curve(len, a, b) ==
  IF a = 0 /\ b = 0 THEN [u |-> len, v |-> 0, t |-> 0, len |-> len]
  ELSE LET d == MeanDirection(a, b)
       IN  [u |-> MulF(len, d[1]), v |-> MulF(len, d[2]), t |-> a + b, len |-> len]

(* --- the four kinds ------------------------------------------------------ *)
(* Curvatures are given as signed radii in ticks, 0 meaning straight.        *)
TurnOver(len, r) == IF r = 0 THEN 0 ELSE DivF(len, r)

LineDisp(len) == Curve(len, 0, 0)

(* an arc of given length, or of given angle: then it turns by that angle in *)
(* the direction of its curvature                                            *)
ArcDisp(r, len) == Curve(len, TurnOver(len, r), 0)
ArcLenOfAngle(r, ang) == MulF(Abs(r), Abs(ang))

SpiralDisp(r0, r1, len) ==
  LET a == TurnOver(len, r0)
      e == TurnOver(len, r1)
  IN  Curve(len, a, RoundDiv(e - a, 2))

SpiralTurnDisp(r0, r1, len, ang) ==             \* when the turn is known
  LET a == TurnOver(len, r0)
      e == TurnOver(len, r1)
      t == Sgn(a + e) * Abs(ang)
  IN  Curve(len, a, t - a)

(* length at which a spiral turns by |ang|:  2|ang| / |k0 + k1|.  The mean   *)
(* curvature is formed as a fraction of the larger of the two.               *)
SpiralLenOfAngle(r0, r1, ang) ==
  IF r0 = 0 THEN MulF(Abs(r1), 2 * Abs(ang))
  ELSE IF r1 = 0 THEN MulF(Abs(r0), 2 * Abs(ang))
  ELSE LET rs == IF Abs(r0) <= Abs(r1) THEN r0 ELSE r1     \* sharper one
           rl == IF Abs(r0) <= Abs(r1) THEN r1 ELSE r0
           q  == DivF(Abs(rs), Abs(rl))                    \* kl/ks
           m  == IF (rs < 0) = (rl < 0) THEN One + q ELSE One - q
       IN  MulF(DivF(MulF(Abs(rs), 2 * Abs(ang)), m) , One) 

(* cubic polynomials; coefficients in ticks, already multiplied by the       *)
(* powers of the parameter range, so that the end is their sum               *)
SumFrom(c, i) == IF i = 1 THEN c[1] + c[2] + c[3] + c[4] ELSE c[2] + c[3] + c[4]
PolyDir(c) == c[2] + 2 * c[3] + 3 * c[4]
PolySpeed(c, t) == c[2] + 2 * MulF(c[3], t) + 3 * MulF(c[4], MulF(t, t))

RECURSIVE PolyLenSum(_, _, _, _, _)
PolyLenSum(u, v, i, n, acc) ==
  IF i > 2 * n THEN acc
  ELSE LET w == IF i = 0 \/ i = 2 * n THEN 1 ELSE IF i % 2 = 1 THEN 4 ELSE 2
           t == RoundDiv(i * (One \div 4), n \div 2)
           h == Hypot(PolySpeed(u, t), PolySpeed(v, t))
       IN  PolyLenSum(u, v, i + 1, n, acc + w * h)
PolyLength(u, v) == RoundDiv(PolyLenSum(u, v, 0, 16, 0), 96)

PolyDisp(u, v, len) == [u |-> SumFrom(u, 1), v |-> SumFrom(v, 1),
                        t |-> Atan2(PolyDir(v), PolyDir(u)), len |-> len]

(* --- moving along a geometry ---------------------------------------------- *)
EndOf(p, d) == LET cs == CosSin(p.h)
               IN  Pose(p.x + MulF(d.u, cs[1]) - MulF(d.v, cs[2]),
                        p.y + MulF(d.u, cs[2]) + MulF(d.v, cs[1]),
                        Wrap(Wrap(p.h) + d.t))
(* p: the end with its direction reversed; result: the start, reversed *)
StartOf(p, d) == LET h == Wrap(Wrap(p.h + PiR) - d.t)
                     cs == CosSin(h)
                 IN  Pose(p.x - MulF(d.u, cs[1]) + MulF(d.v, cs[2]),
                          p.y - MulF(d.u, cs[2]) - MulF(d.v, cs[1]),
                          Wrap(h + PiR))

RECURSIVE ChainEnd(_, _)
ChainEnd(p, ds) == IF ds = <<>> THEN p ELSE ChainEnd(EndOf(p, Head(ds)), Tail(ds))
RECURSIVE TotalLen(_)
TotalLen(ds) == IF ds = <<>> THEN 0 ELSE Head(ds).len + TotalLen(Tail(ds))
=============================================================================
