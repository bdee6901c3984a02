-------------------------------- MODULE MC_Match --------------------------------
(* C23: instead of adjusting a network, its roads are placed and the lanes of    *)
(* its pairs of roads are linked one pair after the other: every order of pairs, *)
(* with the arguments in either order, placing at any point.  What results is    *)
(* what adjusting does.                                                          *)
EXTENDS Build, Randomization
CONSTANTS Sample
VARIABLES cfg, st, prog, todo, placed, stop

Counts == {<<1, 1>>, <<2, 0>>, <<1, 2>>, <<0, 2>>}
Ends == {"start", "end"}
Configs == [kind : {"chain", "ring", "conn", "back", "single"}, c : Counts, other : Counts, cpa : Ends, cpb : Ends, off : {0, 1},
            order : Perms({"A", "B", "C"}), anchor : {"A", "B", "C", "none"}, refuse : {TRUE, FALSE, FALSE}]
Fit(c) == (c.kind \in {"conn", "back"} => ~c.refuse /\ (c.off = 1 => c.c = <<2, 0>>))
          /\ (c.kind \notin {"conn", "back"} => c.off = 0 /\ c.cpa = "end" /\ c.cpb = "start")
          /\ (c.kind = "back" => c.cpa # c.cpb /\ c.anchor # "B" /\ (c.anchor = "none" => c.order[1] # "B"))
          /\ (c.refuse => c.c # c.other)
Setup == <<CArcAng("g", 300000, 50000000), CLine("h", 500000)>>
P(x) == CASE x = "A" -> Pose(-30000, 20000, 40000000) [] x = "B" -> Pose(900000, 0, -150000000) [] OTHER -> Pose(77000, -20000, 300000000)
Fixed(c, x) == c.anchor = x \/ (x = "B" /\ c.kind = "back") \/ (x = "C" /\ c.kind = "ring" /\ c.anchor # "C") \/ (x = "B" /\ c.kind = "single" /\ c.anchor = "C")
Far(c) == IF c.refuse THEN c.other ELSE c.c
RoadsOf(c) ==
  LET three == <<3, 3>>
      sa == IF c.kind \in {"conn", "back"} THEN <<three>> ELSE <<c.other, c.c>>
      sb == IF c.kind \in {"conn", "back"} THEN <<three>> ELSE IF c.kind = "ring" THEN <<Far(c), c.other>> ELSE <<Far(c), c.c>>
      sc == IF c.kind \in {"conn", "back"} THEN <<c.c>> ELSE <<c.c, c.other>>
  IN  RoadCalls("A", "1", "-1", Fixed(c, "A"), P("A"), <<"g">>, sa)
      \o RoadCalls("B", "2", "-1", Fixed(c, "B"), P("B"), <<"h">>, sb)
      \o RoadCalls("C", "3", IF c.kind \in {"conn", "back"} THEN "7" ELSE "-1", Fixed(c, "C"), P("C"), <<"g", "h">>, sc)
Both(x, y, i, j) == <<CSucc(x, "road", j, "start", 0), CPred(y, "road", i, "end", 0)>>
ToJ(h, cp) == IF cp = "start" THEN CPred(h, "junction", "7", "~", 0) ELSE CSucc(h, "junction", "7", "~", 0)
LinksCalls(c) ==
  CASE c.kind = "chain" -> Both("A", "B", "1", "2") \o Both("B", "C", "2", "3")
    [] c.kind = "ring" -> Both("A", "B", "1", "2") \o Both("B", "A", "2", "1")
    [] c.kind = "single" -> <<CSucc("A", "road", "2", "start", 0)>> \o Both("C", "A", "3", "1")
    [] c.kind = "conn" -> <<ToJ("A", c.cpa), ToJ("B", c.cpb), CPred("C", "road", "1", c.cpa, c.off), CSucc("C", "road", "2", c.cpb, c.off)>>
    [] OTHER -> <<ToJ("A", c.cpa), ToJ("A", c.cpb), CPred("C", "road", "1", c.cpa, c.off), CSucc("C", "road", "1", c.cpb, c.off)>>
Calls(c) == RoadsOf(c) \o LinksCalls(c) \o <<CNet("n")>> \o [k \in 1 .. 3 |-> CAddRoad("n", c.order[k])]
Base == After(EmptyLib, Setup)

(* for each kind of network, with and without a refusal, some configurations *)
Picked == UNION {RandomSubset(Sample, {c \in Configs : c.kind = k /\ c.refuse = r /\ Fit(c)}) :
                 <<k, r>> \in ({"chain", "ring", "single"} \X {TRUE, FALSE}) \cup ({"conn", "back"} \X {FALSE})}
Init == /\ cfg \in Picked
        /\ st = After(Base, Calls(cfg)) /\ prog = <<>> /\ placed = FALSE /\ stop = FALSE
        /\ todo = {{"A", "B"}, {"A", "C"}, {"B", "C"}}
Do(c) == prog' = Append(prog, c) /\ st' = IF "ok" \in Outs(st, c) THEN Eff(st, c) ELSE st
Refusal(c) == Outs(st, c) # {"ok"}
(* a refused call ends the use of the network *)
Halted == prog # <<>> /\ Refusal(prog[Len(prog)])
Match == \E a, b \in {"A", "B", "C"} : {a, b} \in todo /\ Do(CMatch(a, b)) /\ todo' = todo \ {{a, b}} /\ UNCHANGED <<cfg, placed, stop>>
Place == ~placed /\ Do(CPlace("n")) /\ placed' = TRUE /\ UNCHANGED <<cfg, todo, stop>>
Stop == /\ (todo = {} /\ placed) \/ Halted
        /\ Program(Setup \o Calls(cfg) \o prog \o <<CExport("n")>>)
        /\ stop' = TRUE /\ UNCHANGED <<cfg, st, prog, todo, placed>>
Next == ~stop /\ (Stop \/ (~Halted /\ (Match \/ Place)))

(* nothing but lane links changes, and in the end they are those of adjusting *)
Whole == After(After(Base, Calls(cfg)), <<CAdjust("n")>>)
SameAsAdjusting == stop /\ ~Halted => st.lane = Whole.lane /\ st.plan = Whole.plan /\ AdjustErrors(st, "n") = {}
(* a refusal there is one that adjusting has, and of the same kind *)
SameRefusal == Halted => Outs(st, prog[Len(prog)]) \subseteq AdjustErrors(st, "n")
(* a pair gives links only to lanes of that pair *)
OnlyThePair == [][prog' # prog /\ prog'[Len(prog')].op = "Match" =>
   \A l \in DOMAIN st.lane : st'.lane[l] # st.lane[l] =>
      \E r \in {prog'[Len(prog')].a, prog'[Len(prog')].b} : \E s \in SeqSet(st.lns[st.road[r].lns]) : l \in SeqSet(st.sec[s].left) \cup SeqSet(st.sec[s].right)
   ]_<<cfg, st, prog, todo, placed, stop>>
=============================================================================
