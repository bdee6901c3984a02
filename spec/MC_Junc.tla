-------------------------------- MODULE MC_Junc ---------------------------------
(* C18: generated junctions of three and four arms, with every split of the turn *)
(* between spirals and arc, numbers of lanes, ids and order of addition; every   *)
(* pair of arms is connected once and the arms meet whichever way one goes round.*)
EXTENDS Build, Randomization
CONSTANT Sample
VARIABLES cfg, stop

Arms == {<<0, 90, 180>>, <<0, 90, 270>>, <<0, 180, 270>>, <<0, 120, 240>>, <<0, 90, 180, 270>>}
Splits == {<<-1, -1>>, <<25000000, 50000000>>, <<10000000, 80000000>>, <<40000000, 20000000>>}
Configs == [angs : Arms, split : Splits, lanes : 1 .. 3, far : 1 .. 4, odd : 0 .. 8, rad : {60000, 150000, 423700}, jid : {"~", "1", "9"}, start : {-1, 500}, w : {30000, 35000},
            order : 1 .. 24, user : 0 .. 4, table : {"no", "first", "last"}]
A(i) == "A" \o ToString(i)
Id(i) == ToString(10 * i)
N_(c) == Len(c.angs)
(* an arm whose number of lanes differs at the junction refuses the lot; elsewhere it may differ *)
LaneCount(c, i) == IF c.odd = i THEN c.lanes + 1 ELSE c.lanes
Arm(c, i) == IF c.user = i
  THEN LET near == <<LaneCount(c, i), LaneCount(c, i)>>
           far_ == <<c.far, 1>>
       IN  RoadCalls(A(i), Id(i), "-1", FALSE, Origin, <<"ga">>, IF i = 1 THEN <<far_, near>> ELSE <<near, far_>>)
  ELSE <<[op |-> "GenStraight", h |-> A(i), id |-> Id(i), len |-> N(300000 + 100000 * i), type |-> "~", n |-> LaneCount(c, i), w |-> N(c.w)]>>
Setup == <<CArcLen("ga", 500000, 200000)>>
Base == After(EmptyLib, Setup)
JR(c) == [op |-> "GenJR", h |-> "jr", roads |-> [i \in 1 .. N_(c) |-> A(i)], angs |-> c.angs, rad |-> c.rad, jid |-> c.jid, sp |-> c.split[1], ap |-> c.split[2],
          start |-> c.start, k |-> "k", kn |-> "-k"]
RECURSIVE ArmsOf(_, _)
ArmsOf(c, i) == IF i > N_(c) THEN <<>> ELSE Arm(c, i) \o ArmsOf(c, i + 1)
NP(c) == Len(ArmPairs(N_(c)))
J(i) == "jr." \o ToString(i - 1)
GenJ(c) == [op |-> "GenJ", h |-> "J", jr |-> [i \in 1 .. NP(c) |-> J(i)], id |-> OrS(c.jid, "1"), roads |-> [i \in 1 .. N_(c) |-> A(i)]]
Table(c, when) == IF c.table = when THEN <<GenJ(c), CAddJunc("n", "J")>> ELSE <<>>
(* the first arm first; the others in some order, connecting roads before or after or among them *)
Others(c) == LET m == N_(c) - 1 + NP(c) IN
   [k \in 1 .. m |-> LET x == 1 + ((k * (IF c.order % 2 = 0 THEN 1 ELSE m - 1) + c.order) % m)
                     IN  IF x < N_(c) THEN A(x + 1) ELSE J(x - N_(c) + 1)]
Adds(c) == <<CNet("n")>> \o Table(c, "first") \o <<CAddRoad("n", "A1")>> \o [k \in 1 .. Len(Others(c)) |-> CAddRoad("n", Others(c)[k])] \o Table(c, "last")
Bad(c) == c.odd \in 1 .. N_(c)
Bare(c) == [k \in DOMAIN JR(c) \ {"k", "kn"} |-> JR(c)[k]]
Program_(c) == Setup \o ArmsOf(c, 1) \o <<Bare(c)>> \o (IF Bad(c) THEN <<>> ELSE Adds(c) \o <<CAdjust("n"), CExport("n")>>)
Init == cfg \in (IF Sample = 0 THEN Configs ELSE RandomSubset(Sample, Configs)) /\ stop = FALSE
Next == /\ ~stop
        /\ Program(Program_(cfg))
        /\ stop' = TRUE /\ UNCHANGED cfg

Armed == After(Base, ArmsOf(cfg, 1))
Pairs == ArmPairs(N_(cfg))
(* refused exactly if an arm differs at the junction; then nothing is linked *)
Refused == stop => (Bad(cfg) <=> "ok" \notin Outs(Armed, JR(cfg)))
(* each pair of arms once, the first the predecessor, numbered from the start number *)
Wired == stop /\ ~Bad(cfg) =>
  LET st == Eff(Armed, JR(cfg)) IN
  /\ {<<Pairs[k][1], Pairs[k][2]>> : k \in 1 .. Len(Pairs)} = {p \in (1 .. N_(cfg)) \X (1 .. N_(cfg)) : p[1] < p[2]}
  /\ Len(Pairs) = (N_(cfg) * (N_(cfg) - 1)) \div 2
  /\ \A k \in 1 .. Len(Pairs) : LET r == st.road[J(k)] IN
       /\ r.pred.id = Id(Pairs[k][1]) /\ r.succ.id = Id(Pairs[k][2])
       /\ r.pred.cp = ArmCp(Pairs[k][1]) /\ r.succ.cp = "start"
       /\ r.id = ToString((IF cfg.start < 0 THEN 100 ELSE cfg.start) + k - 1)
       /\ r.type = OrS(cfg.jid, "1")
       /\ Len(st.sec[st.lns[r.lns][1]].left) = cfg.lanes /\ Len(st.sec[st.lns[r.lns][1]].right) = cfg.lanes
  /\ \A i \in 1 .. N_(cfg) : LET l == IF i = 1 THEN st.road[A(i)].succ ELSE st.road[A(i)].pred IN l.has /\ l.et = "junction" /\ l.id = OrS(cfg.jid, "1")
(* going round: place the arms by the roads that leave the first; the roads between the others fit *)
Fits == stop /\ ~Bad(cfg) =>
  LET st == Eff(Armed, JR(cfg))
      Ds(k) == PlanDisps(st, J(k) \o ".pv")
      At(k) == ChainEnd(Origin, Ds(k))
      first == [j \in 2 .. N_(cfg) |-> At(CHOOSE k \in 1 .. Len(Pairs) : Pairs[k] = <<1, j>>)]
  IN  /\ \A j \in 2 .. N_(cfg) : AngDiff(first[j].h, Wrap(Degrees(cfg.angs[j] - cfg.angs[1]) - PiR)) <= 300
      /\ \A k \in 1 .. Len(Pairs) : Pairs[k][1] > 1 =>
           Near(ChainEnd(Reverse(first[Pairs[k][1]]), Ds(k)), first[Pairs[k][2]], 60, 600)
=============================================================================
