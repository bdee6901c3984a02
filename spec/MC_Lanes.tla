-------------------------------- MODULE MC_Lanes --------------------------------
(* C04: two roads of one or two lane sections with every number of lanes on     *)
(* each side, linked end to start in every way (from both sides, from one side,  *)
(* as a ring), added in any order; the pairs of roads are handled one by one.    *)
EXTENDS Build, Randomization
CONSTANT Sample, Max
VARIABLES cfg, todo, links, err, stop

Side == 0 .. Max
Pair == Side \X Side
Secs == {<<p>> : p \in Pair} \cup {<<p, q>> : p \in Pair, q \in Pair}
Ways == {"both", "succ", "pred", "none"}
Configs == [a : Secs, b : Secs, ab : Ways, ba : Ways, swap : BOOLEAN, far : BOOLEAN]

Setup == <<CLine("ga", 1000000), CLine("gb", 500000)>>
Join(x, y, id, jd, way) == (IF way \in {"both", "succ"} THEN <<CSucc(x, "road", jd, "start", 0)>> ELSE <<>>)
                           \o (IF way \in {"both", "pred"} THEN <<CPred(y, "road", id, "end", 0)>> ELSE <<>>)
(* far: another road is added between the two *)
Calls(c) == RoadCalls("A", "1", "-1", TRUE, Origin, <<"ga">>, c.a)
         \o RoadCalls("B", "2", "-1", TRUE, Pose(1000000, 0, 0), <<"gb">>, c.b)
         \o (IF c.far THEN RoadCalls("C", "12", "-1", TRUE, Pose(0, 5000000, 0), <<"ga">>, <<<<1, 2>>>>) ELSE <<>>)
         \o Join("A", "B", "1", "2", c.ab) \o Join("B", "A", "2", "1", c.ba)
         \o <<CNet("n")>>
         \o (LET x == IF c.swap THEN "B" ELSE "A"
                 y == IF c.swap THEN "A" ELSE "B"
             IN  <<CAddRoad("n", x)>> \o (IF c.far THEN <<CAddRoad("n", "C")>> ELSE <<>>) \o <<CAddRoad("n", y)>>)
Base == After(EmptyLib, Setup)
Net_(c) == AbsNet(After(Base, Calls(c)), "n")

Chosen == IF Sample = 0 THEN Configs ELSE RandomSubset(Sample, Configs)
Init == /\ cfg \in Chosen
        /\ todo = {p \in Roads(Net_(cfg)) \X Roads(Net_(cfg)) : p[1] < p[2]}
        /\ links = {} /\ err = FALSE /\ stop = FALSE

(* one pair: whatever the order in which the pairs are handled *)
PairLinks(net, i, j) == IF Consecutive(net, i, j)
   THEN LET k == Len(net[i].nl) IN
        {[road |-> i, sec |-> k, lane |-> l, tag |-> "successor", to |-> l] : l \in LanesOf(net, i, k)}
        \cup {[road |-> j, sec |-> 1, lane |-> l, tag |-> "predecessor", to |-> l] : l \in LanesOf(net, j, 1)}
   ELSE {}
Handle(p) == LET net == Net_(cfg) IN
   /\ todo' = todo \ {p}
   /\ LET bad == \E q \in {p, <<p[2], p[1]>>} : Consecutive(net, q[1], q[2]) /\ CountsDiffer(net, q[1], q[2]) IN
      IF bad THEN err' = TRUE /\ UNCHANGED links
      ELSE links' = links \cup PairLinks(net, p[1], p[2]) \cup PairLinks(net, p[2], p[1]) /\ UNCHANGED err
   /\ UNCHANGED <<cfg, stop>>
Finish == /\ ~stop /\ (todo = {} \/ err)
          /\ Program(Setup \o Calls(cfg) \o <<CAdjust("n"), CExport("n")>>)
          /\ stop' = TRUE
          /\ UNCHANGED <<cfg, todo, links, err>>
Next == (~stop /\ ~err /\ \E p \in todo : Handle(p)) \/ Finish

(* refused exactly when touching sections differ *)
Refused == stop => (err <=> LaneCountError(Net_(cfg)))
(* complete: the specification's links; reciprocal; only touching sections; each lane at most one of a kind *)
Complete == stop /\ ~err => links = RoadLaneLinks(Net_(cfg))
Reciprocal == ~err => \A x \in links : \E y \in links :
   /\ x.to = y.lane /\ y.to = x.lane /\ x.tag # y.tag
   /\ y.road = Target(Net_(cfg), IF x.tag = "successor" THEN Net_(cfg)[x.road].succ ELSE Net_(cfg)[x.road].pred)
Single == \A x, y \in links : x.road = y.road /\ x.sec = y.sec /\ x.lane = y.lane /\ x.tag = y.tag => x = y
=============================================================================
