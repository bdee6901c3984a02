-------------------------------- MODULE MC_Geom ---------------------------------
(* C14, C22: a grid of geometries, poses and every sequence of questions.       *)
(* Invariants: the specified displacements are consistent with each other.      *)
EXTENDS Build
CONSTANTS K, Poses, Fine
VARIABLES g, asked, p, stop

Q == 157079633
Lines == {CLine("g", l) : l \in {10000, 1234567}}
Rs == IF Fine THEN {50000, -50000, 1000000, -314159, 25000, -4000000} ELSE {50000, -314159}
ArcL == {CArcLen("g", r, l) : r \in Rs, l \in {10000, 100000}}
ArcA == {CArcAng("g", r, a) : r \in Rs, a \in {Q, -Q, 314159265, 10000000, -470000000, 850000000}}
Sp == LET R == IF Fine THEN {<<0, 50000>>, <<50000, 0>>, <<0, -200000>>, <<100000, -300000>>, <<-100000, -300000>>, <<400000, 90000>>}
                       ELSE {<<0, 50000>>, <<-200000, 0>>, <<100000, -300000>>, <<-100000, -300000>>}
      IN  {CSpiral("g", r[1], r[2], h[1], h[2]) : r \in R, h \in {<<"len", 100000>>, <<"ang", 50000000>>, <<"ang", -100000000>>, <<"rate", 80000>>}}
          \cup {CSpiral("g", r, -r, "len", 90000) : r \in {50000, -80000}} \cup {CSpiral("g", r, r, "len", 90000) : r \in {0, 50000, -80000}} \cup {CSpiral("g", r, r, "ang", 70000000) : r \in {50000, -80000}}
Po == {CPoly("g", "normalized", 0, <<0, 100000, u, 0>>, <<0, 0, v, w>>) : u \in {0, 10000}, v \in {0, 30000}, w \in {0, -20000}}
      \cup {CPoly("g", "arcLength", 500000, <<0, 500000, 0, 0>>, <<0, 0, v, 200>>) : v \in {0, -1000}}
      \cup {CPoly("g", "normalized", 0, <<0, 100000, u, 0>>, <<0, 0, v, 0>>) : u \in {-80000, -60000}, v \in {90000, -70000}}   \* more than a right angle
Geos == Lines \cup ArcL \cup ArcA \cup Sp \cup Po
PoseOf_(i) == CASE i = 1 -> Origin [] i = 2 -> Pose(-123456, 400000000, -250000000) [] OTHER -> Pose(70000, 0, Q)

Ask(k, i) == [op |-> k, g |-> "g", x |-> PoseOf_(i).x, y |-> PoseOf_(i).y, hd |-> PoseOf_(i).h]

Init == g \in Geos /\ asked = <<>> /\ p \in 1 .. Poses /\ stop = FALSE
Go == /\ ~stop /\ Len(asked) < K
      /\ \E k \in {"GEnd", "GStart", "GBack"}, i \in {1, p} : asked' = Append(asked, Ask(k, i))
      /\ UNCHANGED <<g, p, stop>>
Stop == /\ ~stop /\ Len(asked) = K
        /\ Program(<<g>> \o asked)
        /\ stop' = TRUE
        /\ UNCHANGED <<g, asked, p>>
Next == Go \/ Stop

Disp == After(EmptyLib, <<g>>).geo["g"].disp
(* walking back undoes walking there *)
Inverse == asked = <<>> =>
             LET q == PoseOf_(p)
                 e == EndOf(q, Disp)
                 s == StartOf(Reverse(e), Disp)
             IN  Near(Reverse(s), q, 8 + Disp.len \div 10000000, 8)
(* an arc as a spiral of constant curvature, and against the closed form *)
ArcForms == (asked = <<>> /\ g.op = "Arc") =>
   LET d == Disp
       cs == CosSin(d.t)
       c == [u |-> MulF(Abs(g.r), cs[2]), v |-> MulF(g.r, One - cs[1])]
       a == SpiralDisp(g.r, g.r, d.len)
   IN  /\ Abs(d.u - (IF g.r > 0 THEN c.u ELSE -c.u)) <= 4 + Abs(g.r) \div 1000000
       /\ Abs(d.v - c.v) <= 4 + Abs(g.r) \div 1000000
       /\ Abs(a.u - d.u) <= 4 /\ Abs(a.v - d.v) <= 4 /\ Abs(a.t - d.t) <= 4000
(* angle-defined curves turn by their angle, to the side of their (mean) curvature *)
Turns == (asked = <<>> /\ g.op \in {"Arc", "Spiral"} /\ g.ha) => Abs(Disp.t) = Abs(g.ang)
Sides == (asked = <<>> /\ g.op = "Arc") => (Disp.t > 0) = (g.r > 0)
(* a spiral is the mirror image of the one with the opposite curvatures, and *)
(* the reverse of the one with exchanged ends                                 *)
Mirror == (asked = <<>> /\ g.op = "Spiral") =>
   LET d == Disp
       m == SpiralDisp(-g.r0, -g.r1, d.len)
       x == SpiralDisp(-g.r1, -g.r0, d.len)
       back == EndOf(Reverse(EndOf(Origin, d)), x)
   IN  /\ Abs(m.u - d.u) <= 4 /\ Abs(m.v + d.v) <= 4 /\ Abs(m.t + d.t) <= 4000
       /\ Near(back, Reverse(Origin), 10, 4000)
(* a curve cut in two equal halves is the curve *)
Halves == (asked = <<>> /\ g.op \in {"Line", "Arc"}) =>
   LET d == Disp
       h == d.len \div 2
       a == IF g.op = "Line" THEN LineDisp(h) ELSE ArcDisp(g.r, h)
   IN  Near(EndOf(EndOf(Origin, a), a), EndOf(Origin, d), 6, 6000)
=============================================================================
