--------------------------------- MODULE MC_Net ---------------------------------
(* C02, C03: networks of three roads with every way of linking them (which ends *)
(* meet, who declares it, connecting roads, lane offsets, junction links whose  *)
(* id is also a road's), every set of positioned roads, every order of adding.  *)
(* The placement is explored step by step in every order; whatever the order,   *)
(* the roads reached are those of Closure and the result is as C02 states.      *)
EXTENDS Build, Randomization
CONSTANT Sample
VARIABLES cfg, st, start, stop

R == 1 .. 3
Name(i) == CASE i = 1 -> "A" [] i = 2 -> "B" [] OTHER -> "C"
Ends == {"start", "end"}
NoJoint == [on |-> FALSE, ei |-> "start", ej |-> "start", by |-> "i"]
JointOpts == {NoJoint} \cup [on : {TRUE}, ei : Ends, ej : Ends, by : {"i", "j", "both"}]
Configs == [j12 : JointOpts, j13 : JointOpts, j23 : JointOpts, conn : SUBSET R, fixed : SUBSET R, order : Perms(R), off : {-1, 0, 1}, jl : BOOLEAN]

(* the joints of a configuration, as <<i, j, option>> *)
Js(c) == {x \in {<<1, 2, c.j12>>, <<1, 3, c.j13>>, <<2, 3, c.j23>>} : x[3].on}
Uses(c, i, e) == Cardinality({x \in Js(c) : (x[1] = i /\ x[3].ei = e) \/ (x[2] = i /\ x[3].ej = e)})
Valid(c) == /\ \A i \in R, e \in Ends : Uses(c, i, e) <= 1
            /\ \A x \in Js(c) : ~({x[1], x[2]} \subseteq c.conn)
            /\ (c.conn = {} => c.off = 0 /\ ~c.jl)
            \* a connecting road declares its own links
            /\ \A x \in Js(c) : (x[1] \in c.conn => x[3].by # "j") /\ (x[2] \in c.conn => x[3].by # "i")

P(i) == CASE i = 1 -> Pose(1000000, -200000, 100000000) [] i = 2 -> Pose(-5000000, 0, 314159265) [] OTHER -> Pose(0, 0, 0)
Geos == <<CLine("ga", 800000), CArcAng("gb", 200000, 157079633), CLine("gc", 120000), CSpiral("gd", 0, -90000, "len", 150000)>>
GeoOf(i) == CASE i = 1 -> <<"ga">> [] i = 2 -> <<"gb", "ga">> [] OTHER -> <<"gc", "gd">>
Base == After(EmptyLib, Geos)

CountsOf(c, i) == IF i \notin c.conn THEN <<2, 2>> ELSE IF c.off > 0 THEN <<1, 0>> ELSE IF c.off < 0 THEN <<0, 1>> ELSE <<1, 1>>
LinkOf(c, i, e) ==                  \* the calls that declare what is at end e of road i
  LET mine == {x \in Js(c) : (x[1] = i /\ x[3].ei = e) \/ (x[2] = i /\ x[3].ej = e)}
      op(et, id, cp, off) == IF e = "end" THEN CSucc(Name(i), et, id, cp, off) ELSE CPred(Name(i), et, id, cp, off)
  IN  IF mine = {} THEN <<>>
      ELSE LET x == CHOOSE y \in mine : TRUE
               first == x[1] = i
               o == IF first THEN x[2] ELSE x[1]
               cp == IF first THEN x[3].ej ELSE x[3].ei
               says == x[3].by = "both" \/ x[3].by = (IF first THEN "i" ELSE "j")
               back == o \in c.conn
               off == IF i \in c.conn THEN c.off ELSE IF back THEN 0 ELSE 0
           IN  IF back /\ (c.jl \/ c.off # 0) THEN IF c.jl THEN <<op("junction", "2", "~", 0)>> ELSE <<>>
               ELSE IF says THEN <<op("road", ToString(o), cp, off)>> ELSE <<>>
RoadAll(c, i) == RoadCalls(Name(i), ToString(i), IF i \in c.conn THEN "9" ELSE "-1", i \in c.fixed, P(i), GeoOf(i), <<CountsOf(c, i)>>)
Links_(c) == LinkOf(c, 1, "start") \o LinkOf(c, 1, "end") \o LinkOf(c, 2, "start") \o LinkOf(c, 2, "end")
            \o LinkOf(c, 3, "start") \o LinkOf(c, 3, "end")
Rest(c) == RoadAll(c, 1) \o RoadAll(c, 2) \o RoadAll(c, 3) \o Links_(c) \o <<CNet("n")>>
           \o [k \in 1 .. 3 |-> CAddRoad("n", Name(c.order[k]))]

Init == /\ cfg \in {c \in RandomSubset(Sample, Configs) : Valid(c)}
        /\ st = After(Base, Rest(cfg))
        /\ LET net == AbsNet(st, "n") IN
           start = [i \in Anchors(net) |-> net[i].start]
        /\ stop = FALSE
Place == /\ ~stop
         /\ LET net == AbsNet(st, "n") IN
            \E i \in Frontier(net, DOMAIN start) : \E p \in PlaceOptions(net, i, start) :
               start' = (i :> p) @@ start
         /\ UNCHANGED <<cfg, st, stop>>
Stop == /\ ~stop
        /\ LET net == AbsNet(st, "n") IN Frontier(net, DOMAIN start) = {}
        /\ Program(Geos \o Rest(cfg) \o <<CAdjust("n"), CExport("n")>>)
        /\ stop' = TRUE
        /\ UNCHANGED <<cfg, st, start>>
Next == Place \/ Stop

(* C03: what is placed in the end does not depend on the order *)
Confluent == LET net == AbsNet(st, "n") IN stop => DOMAIN start = Reached(net)
(* C02: linked roads meet, or at least chain to the positioned ones *)
Meets == stop =>
   LET net == AbsNet(st, "n")
       end == [i \in DOMAIN start |-> ChainEnd(start[i], net[i].disps)]
       good == {jt \in Joints(net) : Flush(net, jt[1], jt[2], start, end, 60, 300)}
   IN  AllReached(net) =>
         /\ FlushClosure(net, good, Anchors(net)) = Roads(net)
         /\ IsForest(net) => good = Joints(net)
(* a joint declared from both sides is one and the same place: flush seen from either side *)
Mirrored == stop => LET net == AbsNet(st, "n") IN
   AllReached(net) =>
     LET end == [i \in Roads(net) |-> ChainEnd(start[i], net[i].disps)] IN
     \A jt \in Joints(net) : \A m \in MirrorOf(net, jt) :
        Flush(net, jt[1], jt[2], start, end, 60, 300) => Flush(net, m[1], m[2], start, end, 70, 400)
=============================================================================
