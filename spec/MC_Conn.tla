-------------------------------- MODULE MC_Conn ---------------------------------
(* C05, C08: a connecting road between two roads (or back to the same) with every    *)
(* contact point, lane offset and number of lanes; its lanes are linked to the   *)
(* lanes whose centre lines they continue, and a junction made of it says the    *)
(* same.                                                                         *)
EXTENDS Build, Randomization
CONSTANTS Sample
VARIABLES cfg, stop

Ends == {"start", "end"}
Counts == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>, <<0, 2>>, <<2, 1>>, <<0, 3>>, <<1, 2>>}
Offs == -2 .. 2
Configs == [cpa : Ends, cpb : Ends, offa : Offs, offb : Offs, c1 : Counts, c2 : Counts, two : BOOLEAN,
            anchor : {"a", "b", "c", "none"}, order : Perms({"A", "B", "C"}), jfirst : BOOLEAN, made : {"before", "after", "no"}, ids : {1, 2},
            far : {"B", "A", "junction"}]      \* back to the same road; to a junction that has the id of a road
(* the lanes named exist and stay on the side of the centre line on which the connecting road's lanes are *)
Fits(n, off) == (off # 0 => n[1] = 0 \/ n[2] = 0) /\ \A x \in (1 .. n[1]) \cup {-y : y \in 1 .. n[2]} : Sgn(x + off) = Sgn(x) /\ Abs(x + off) <= 3
Far(c) == IF c.two THEN c.c2 ELSE c.c1
Valid(c) == (c.far = "junction" => c.made = "no" /\ c.offb = 0 /\ c.cpb = "start") /\ Fits(c.c1, c.offa) /\ Fits(Far(c), c.offb) /\ (c.two \/ c.c2 = <<1, 0>>)

Setup == <<CArcAng("ga", 300000, 100000000), CLine("gb", 500000), CSpiral("gc", 0, -80000, "len", 90000)>>
IdA(c) == IF c.ids = 1 THEN "1" ELSE "77"
IdB(c) == IF c.ids = 1 THEN "2" ELSE "7"
IdC(c) == IF c.ids = 1 THEN "10" ELSE "1"
JId == "7"
P(x) == CASE x = "a" -> Pose(-300000, 200000, 40000000) [] x = "b" -> Pose(9000000, 0, -150000000) [] OTHER -> Pose(77000, -20000, 300000000)
(* roads A and B lead to the junction with the end the connecting road touches *)
ToJunction(h, cp) == IF cp = "start" THEN CPred(h, "junction", JId, "~", 0) ELSE CSucc(h, "junction", JId, "~", 0)
Roads_(c) == RoadCalls("A", IdA(c), "-1", c.anchor = "a", P("a"), <<"ga">>, <<<<3, 3>>, <<3, 3>>>>)
          \o RoadCalls("B", IdB(c), "-1", c.anchor = "b", P("b"), <<"gb">>, <<<<3, 3>>>>)
          \o RoadCalls("C", IdC(c), JId, c.anchor = "c", P("c"), <<"gc">>, IF c.two THEN <<c.c1, c.c2>> ELSE <<c.c1>>)
Links_(c) == LET j == <<ToJunction("A", c.cpa)>> \o (CASE c.far = "B" -> <<ToJunction("B", c.cpb)>>
                                                         [] c.far = "A" /\ c.cpa # c.cpb -> <<ToJunction("A", c.cpb)>>
                                                         [] OTHER -> <<>>)
                 own == <<CPred("C", "road", IdA(c), c.cpa, c.offa),
                          CASE c.far = "B" -> CSucc("C", "road", IdB(c), c.cpb, c.offb)
                            [] c.far = "A" -> CSucc("C", "road", IdA(c), c.cpb, c.offb)
                            [] OTHER -> CSucc("C", "junction", IdB(c), "~", 0)>>
             IN  IF c.jfirst THEN j \o own ELSE own \o j
GenJ == [op |-> "GenJ", h |-> "J", jr |-> <<"C">>, id |-> JId, roads |-> <<"A", "B">>]
JCalls(c, when) == IF c.made = when THEN <<GenJ, CAddJunc("n", "J")>> ELSE <<>>
Calls(c) == Roads_(c) \o Links_(c) \o <<CNet("n")>> \o JCalls(c, "before") \o SelectSeq([k \in 1 .. 3 |-> CAddRoad("n", c.order[k])], LAMBDA x : c.far = "B" \/ x.r # "B" \/ c.anchor = "b")
Base == After(EmptyLib, Setup)
St(c) == After(Base, Calls(c))

Init == cfg \in {c \in (IF Sample = 0 THEN Configs ELSE RandomSubset(Sample, Configs)) : Valid(c)} /\ stop = FALSE
Next == /\ ~stop
        /\ Program(Setup \o Calls(cfg) \o <<CAdjust("n")>> \o JCalls(cfg, "after") \o <<CExport("n")>>)
        /\ stop' = TRUE /\ UNCHANGED cfg

(* place the connecting road anywhere and the two others flush with it *)
LaneMid(x) == IF x > 0 THEN x * LaneW - LaneW \div 2 ELSE x * LaneW + LaneW \div 2
Turned(p, cp, w) == (w = "pred" /\ cp = "start") \/ (w = "succ" /\ cp = "end")
(* centre of lane y of the linked road at the joint, seen in the direction of C *)
Centres == stop =>
           LET net == AbsNet(St(cfg), "n")
               ci == CHOOSE i \in Roads(net) : net[i].conn
               at == [w \in {"pred", "succ"} |-> IF w = "pred" THEN P("c") ELSE ChainEnd(P("c"), net[ci].disps)]
               Lnk(w) == IF w = "pred" THEN net[ci].pred ELSE net[ci].succ
               \* the linked road's pose at the joint, in its own direction
               Other(w) == LET f == ShiftLeft(at[w], -(Lnk(w).off * LaneW))
                           IN  IF SignOf(w, Lnk(w).cp) = 1 THEN f ELSE Reverse(f)
           IN  \A x \in ConnLaneLinks(net) :
                 LET w == IF x.tag = "predecessor" THEN "pred" ELSE "succ"
                 IN  Near(ShiftLeft(at[w], LaneMid(x.lane)),
                          LET o == ShiftLeft(Other(w), LaneMid(x.to)) IN IF SignOf(w, Lnk(w).cp) = 1 THEN o ELSE Reverse(o), 10, 100)
(* one predecessor per lane of the first section, one successor per lane of the last *)
EachOnce == stop => LET net == AbsNet(St(cfg), "n")
                ci == CHOOSE i \in Roads(net) : net[i].conn
                ls == ConnLaneLinks(net)
                n(tag) == {x.lane : x \in {y \in ls : y.tag = tag}}
            IN  /\ n("predecessor") = LanesOf(net, ci, 1) /\ n("successor") = IF cfg.far = "junction" THEN {} ELSE LanesOf(net, ci, Len(net[ci].nl))
                /\ Cardinality(ls) = Cardinality(n("predecessor")) + Cardinality(n("successor"))
                /\ \A x \in ls : x.to \in LanesOf(net, JointTo(net, <<ci, IF x.tag = "predecessor" THEN "pred" ELSE "succ">>), 1)
(* the table of the junction and the lane links are the same relation *)
Table == stop /\ cfg.far # "junction" => LET net == AbsNet(St(cfg), "n")
             ci == CHOOSE i \in Roads(net) : net[i].conn
             t == JunctionTable(net, {ci})
             g == GenJTable(St(cfg), GenJ)
         IN  /\ t = g
             /\ \A row \in t : row.ll = {<<x.to, x.lane>> : x \in {y \in ConnLaneLinks(net) : y.tag = IF row.cp = "start" THEN "predecessor" ELSE "successor"}}
=============================================================================
