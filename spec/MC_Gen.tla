--------------------------------- MODULE MC_Gen ---------------------------------
(* C20: two generated roads of every kind and number of lanes, with later calls  *)
(* on one of them; the other is as it was made.                                  *)
EXTENDS Build, Randomization
CONSTANT Sample
VARIABLES cfg, stop

Counts == {-1, 0, 1, 2, 3}
Kinds == {"free", "free2", "straight", "cloth", "back"}
Later == {"mark", "centre", "lane", "geo", "neigh", "none"}
Configs == [k1 : Kinds, k2 : Kinds, l1 : Counts, r1 : Counts, l2 : Counts, r2 : {-1, 2}, type : {"~", "-1", "5"}, w1 : {"~", "35000", "1000"}, later : Later,
            when : {"before", "after"}, cm : BOOLEAN]
Width(w) == CASE w = "~" -> NG [] w = "35000" -> N(35000) [] OTHER -> N(1000)
Setup == <<CLine("g1", 300000), CArcAng("g2", -150000, 60000000), CLine("g3", 123400), CMark("m", "solid_broken"), CMark("m2", "curb"),
           CLane("x", 20000), CLine("g4", 70000)>>
Free(h, id, gs, l, r, c) == [op |-> "GenRoad", h |-> h, id |-> id, gs |-> gs, single |-> Len(gs) = 1, left |-> l, right |-> r, type |-> c.type,
                             cm |-> IF c.cm THEN "m" ELSE "~", w |-> Width(c.w1)]
Make(h, id, k, l, r, g, c) ==
  CASE k = "free" -> Free(h, id, <<g>>, l, r, c)
    [] k = "free2" -> Free(h, id, <<g, "g2">>, l, r, c)
    [] k = "straight" -> [op |-> "GenStraight", h |-> h, id |-> id, len |-> IF r = 2 THEN N(765000) ELSE NG, type |-> c.type, n |-> l, w |-> Width(c.w1)]
    [] OTHER -> [op |-> "GenCloth", h |-> h, id |-> id, r |-> IF k = "back" THEN -250000 ELSE 250000, arc |-> 70000000, cloth |-> 30000000, type |-> c.type,
                 n |-> l, w |-> Width(c.w1), k0 |-> 0, k |-> "k", kn |-> "-k", k0s |-> "k0", k0n |-> "-k0"]
(* in programs the outer curvature of the spirals is left to the library *)
Bare(c) == IF c.op = "GenCloth" THEN [c EXCEPT !.k0 = "~"] ELSE c
Later1(c) == CASE c.later = "mark" /\ c.l1 # 0 -> <<[op |-> "LMark", l |-> "P.l1", m |-> "m2"]>>
               [] c.later = "centre" -> <<[op |-> "LMark", l |-> "P.c", m |-> "m2"]>>
               [] c.later = "lane" -> <<CAddL("P.s0", "x")>>
               [] c.later = "geo" -> <<CPGeo("P.pv", "g4")>>
               [] c.later = "neigh" -> <<CNeigh("P", "44", "same")>>
               [] OTHER -> <<>>
C1 == Make("P", "1", cfg.k1, cfg.l1, cfg.r1, "g1", cfg)
C2 == Make("Q", "2", cfg.k2, cfg.l2, cfg.r2, "g3", cfg)
Mid(a, b) == IF cfg.when = "before" THEN <<a>> \o Later1(cfg) \o <<b>> ELSE <<a, b>> \o Later1(cfg)
Nets == <<CNet("n"), CAddRoad("n", "P"), CNet("o"), CAddRoad("o", "Q"), CAdjust("n"), CAdjust("o"), CExport("n"), CExport("o")>>

Init == cfg \in (IF Sample = 0 THEN Configs ELSE RandomSubset(Sample, Configs)) /\ stop = FALSE
Next == /\ ~stop
        /\ Program(Setup \o Mid(Bare(C1), Bare(C2)) \o Nets)
        /\ stop' = TRUE /\ UNCHANGED cfg

Base == After(EmptyLib, Setup)
St == After(Base, Mid(C1, C2))
Alone(c) == After(Base, <<c>>)
Own(st, h) == LET s == st.sec[h \o ".s0"] IN
   [road |-> st.road[h], plan |-> st.plan[h \o ".pv"], gs |-> PlanDisps(st, h \o ".pv"),
    left |-> [i \in 1 .. Len(s.left) |-> st.lane[s.left[i]]], right |-> [i \in 1 .. Len(s.right) |-> st.lane[s.right[i]]], c |-> st.lane[s.c]]
(* whatever happens to the first road, the second is what it is when made alone *)
Independent(q) == q = Own(Alone(C2), "Q")
NumberOf(c) == IF c.op = "GenRoad" THEN <<IF c.left < 0 THEN 1 ELSE c.left, IF c.right < 0 THEN 1 ELSE c.right>>
               ELSE LET n == IF c.n < 0 THEN 1 ELSE c.n IN <<n, n>>
Counted(q) == Len(q.left) = NumberOf(C2)[1] /\ Len(q.right) = NumberOf(C2)[2]
(* solid outside, broken inside *)
Edges_(q) == C2.op = "GenRoad" => \A side \in {q.left, q.right} :
             \A i \in 1 .. Len(side) : side[i].mark.type = IF i = Len(side) THEN "solid" ELSE "broken"
(* a curve of clothoids and an arc turns by twice the spiral's and the arc's angle, to the side of its curvature *)
Turns(q) == C2.op = "GenCloth" =>
   LET t == q.gs[1].t + q.gs[2].t + q.gs[3].t IN Abs(Abs(t) - 130000000) <= 10 /\ Sgn(t) = Sgn(C2.r)
Inv == stop => LET q == Own(St, "Q") IN Independent(q) /\ Counted(q) /\ Edges_(q) /\ Turns(q)
=============================================================================
