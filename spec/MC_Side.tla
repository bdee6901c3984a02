-------------------------------- MODULE MC_Side ---------------------------------
(* C15: objects put along the side of roads of one or two lane sections, with    *)
(* every number of lanes, side and offset, refused before the adjustment and     *)
(* done after it, once or twice with the same prototype.                         *)
EXTENDS Build, Randomization
CONSTANT Sample
VARIABLES cfg, stop

Side == {0, 1, 2, 3}
Secs == {<<<<l, r>>>> : l, r \in Side} \cup {<<<<l, r>>, <<m, s>>>> : l, r, m, s \in {0, 1, 3}}
Configs == [c : Secs, geo : {"line", "arc", "two"}, so : {"~", "0", "5"}, to : {"~", "0", "2", "-1"}, side : {"~", "both", "left", "right"},
            again : {"no", "same", "other"}, early : BOOLEAN, rep : BOOLEAN, asked : {"~", "5"}]
Num_(s) == CASE s = "~" -> NG [] s = "0" -> N(0) [] s = "5" -> N(53750) [] s = "2" -> N(20000) [] s = "-1" -> N(-12500)

Setup == <<CLine("line", 1000000), CArcLen("arc", -400000, 600000)>>
Gs(c) == CASE c.geo = "line" -> <<"line">> [] c.geo = "arc" -> <<"arc">> [] OTHER -> <<"arc", "line">>
S(o, side, c) == [op |-> "Side", r |-> "A", o |-> o, dist |-> N(75000), so |-> Num_(c.so), to |-> Num_(c.to), side |-> side,
                  ids |-> <<>>, proto |-> "", proto2 |-> ""]
Proto(h, id) == [CObj(h, id) EXCEPT !.type = "pole", !.height = "2.0", !.width = "0.5"]
Rep == [op |-> "Rep", o |-> "p", len |-> "4.0", dist |-> "1.5", a |-> NoFun]
Before(c) == RoadCalls("A", "1", "-1", TRUE, Origin, Gs(c), c.c) \o RoadCalls("B", "2", "-1", TRUE, Pose(0, 9000000, 0), <<"line">>, <<<<2, 1>>>>)
             \o <<Proto("p", c.asked)>> \o (IF c.rep THEN <<Rep>> ELSE <<>>)
Net_ == <<CNet("n"), CAddRoad("n", "A"), CAddRoad("n", "B"), CAdjust("n")>>
After_(c) == <<S("p", c.side, c)>>
             \o (CASE c.again = "no" -> <<>> [] c.again = "same" -> <<S("p", c.side, c)>> [] OTHER -> <<[S("p", "right", c) EXCEPT !.r = "B"]>>)
Calls(c) == Before(c) \o (IF c.early THEN <<S("p", c.side, c)>> ELSE <<>>) \o Net_ \o After_(c) \o <<CExport("n")>>
Base == After(EmptyLib, Setup)

Init == cfg \in (IF Sample = 0 THEN Configs ELSE RandomSubset(Sample, Configs)) /\ stop = FALSE
Next == /\ ~stop
        /\ Program(Setup \o Calls(cfg))
        /\ stop' = TRUE /\ UNCHANGED cfg

At_ == After(Base, Before(cfg))                      \* before the adjustment
One_ == S("p", cfg.side, cfg)
(* refused, and without effect, as long as the road is not placed *)
Early(At, Here) == "ok" \notin Outs(At, One_) /\ "ok" \in Outs(Here, One_)
(* one copy for each section and side, in order; they cover the road from the offset to its end *)
Number(Cps) == Len(Cps) = Len(cfg.c) * (IF cfg.side \in {"~", "both"} THEN 2 ELSE 1)
ToTheEnd(Cps, Total) == \A i \in 1 .. Len(Cps) : Cps[i].s + Cps[i].len = Total /\ Cps[i].s >= Num_(cfg.so).q
(* just outside the outermost lane: the lanes of the side, then the offset *)
Outside(Cps) == \A k \in 1 .. Len(cfg.c) : LET to == Num_(cfg.to).q IN
             /\ \A i \in 1 .. Len(Cps) : Cps[i].s = 100000 * (k - 1) + Num_(cfg.so).q =>
                   Abs(Cps[i].t) = (IF Cps[i].h # 0 THEN cfg.c[k][1] ELSE cfg.c[k][2]) * 30000 + to \/ to < 0
(* both sides at once is each side alone *)
BothIsEach(Here, Cps) == cfg.side \in {"~", "both"} =>
   SeqSet(Cps) = SeqSet(SideCopies(Here, S("p", "left", cfg))) \cup SeqSet(SideCopies(Here, S("p", "right", cfg)))
(* the same road seen the other way round has the other sides *)
Mirror(Here) == LET sw == [k \in 1 .. Len(cfg.c) |-> <<cfg.c[k][2], cfg.c[k][1]>>]
              There == After(Base, Before([cfg EXCEPT !.c = sw]) \o Net_)
              L == SideCopies(Here, S("p", "left", cfg))
              R == SideCopies(There, S("p", "right", cfg))
          IN  Len(L) = Len(R) /\ \A i \in 1 .. Len(L) : L[i].t = -R[i].t /\ L[i].s = R[i].s
Inv == stop => LET At == At_
                   Here == After(At, Net_)
                   Cps == SideCopies(Here, One_)
               IN  /\ Early(At, Here) /\ Number(Cps) /\ ToTheEnd(Cps, TotalLen(PlanDisps(Here, "A.p"))) /\ Outside(Cps)
                   /\ BothIsEach(Here, Cps) /\ Mirror(Here)
=============================================================================
