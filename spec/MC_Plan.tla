-------------------------------- MODULE MC_Plan ---------------------------------
(* C01: every chain of up to K geometries (the same one repeated included),     *)
(* placed from its start or from its end, with and without a given pose.        *)
EXTENDS Build
CONSTANTS K, Poses
VARIABLES gs, place, stop

Setup == <<CLine("line", 234500), CArcAng("left", 100000, 157079633), CArcLen("right", -70000, 150000), CSpiral("spi", 0, 50000, "ang", -60000000),
           CSpiral("ess", 90000, -200000, "len", 200000), CPoly("poly", "normalized", 0, <<0, 300000, 20000, 0>>, <<0, 0, 80000, -30000>>)>>
Kinds == {"line", "left", "right", "spi", "ess", "poly"}
P(i) == CASE i = 1 -> Origin [] i = 2 -> Pose(-1234567, 87654321, 200000000) [] OTHER -> Pose(0, 10000, -314159265)
(* turns: every geometry is given its own heading, the first the one it starts with *)
Places == [fixed : BOOLEAN, set : BOOLEAN, back : BOOLEAN, turns : BOOLEAN, p : Poses]
StartH == IF place.set THEN P(place.p).h ELSE P(1 + (place.p % 3)).h
Add(i) == IF place.turns THEN [hd |-> IF i = 1 THEN StartH ELSE 60000000 * i] @@ CPGeo("v", gs[i]) ELSE CPGeo("v", gs[i])
Calls == <<CPlan("v", place.fixed, P(1 + (place.p % 3)))>> \o [i \in 1 .. Len(gs) |-> Add(i)]
         \o <<[op |-> "PAdj", p |-> "v", set |-> place.set, back |-> place.back, x |-> P(place.p).x, y |-> P(place.p).y, hd |-> P(place.p).h],
              [op |-> "PEl", p |-> "v"], [op |-> "PStart", p |-> "v"], [op |-> "PEnd", p |-> "v"], [op |-> "PLen", p |-> "v"], [op |-> "PEl", p |-> "v"]>>

Init == /\ gs = <<>> /\ stop = FALSE
        /\ place \in {x \in Places : (x.fixed # x.set \/ x.set) /\ (x.turns => ~x.back)}    \* something says where it is
Go == ~stop /\ Len(gs) < K /\ \E k \in Kinds : gs' = Append(gs, k) /\ UNCHANGED <<place, stop>>
Stop == /\ ~stop /\ gs # <<>>
        /\ Program(Setup \o Calls)
        /\ stop' = TRUE
        /\ UNCHANGED <<gs, place>>
Next == Go \/ Stop

Base == After(EmptyLib, Setup)
St == After(Base, Calls)
(* placing the chain from its end at the reached pose gives the same start *)
BothWays == gs # <<>> /\ ~stop /\ ~place.turns =>
   LET ds == PlanDisps(St, "v")
       e == ChainEnd(P(place.p), ds)
   IN  Near(StartFromEnd(e, ds), P(place.p), 25, 60)
InOrder == gs # <<>> => St.plan["v"].gs = gs /\ Len(St.plan["v"].hds) = Len(gs)
=============================================================================
