--------------------------------- MODULE MC_Doc ---------------------------------
(* C12: a network is put together in any order: parts are handed over before or  *)
(* after they are complete.  Whatever the order, what is built is the same, and  *)
(* all of it is in the document, once.                                           *)
EXTENDS Build, Randomization
CONSTANT Sample
VARIABLES cfg, stop

Mk(h) == [CMark(h, "broken_solid") EXCEPT !.width = "0.25", !.color = "yellow", !.change = "increase"]
Names == {"~", "Main Street", "x<y & z", " lead", "None"}
(* threads: the calls of each keep their order *)
Making == <<CArcAng("g1", 250000, 90000000), CLine("g2", 123400), CPlan("pA", TRUE, Pose(10000, -20000, 50000000)), CPlan("pB", FALSE, Origin),
            CLanes("nA"), CLanes("nB"), CLane("cA", 0), CSec("sA", 0, "cA"), CLane("cA2", 0), CSec("sA2", 200000, "cA2"), CLane("cB", 0), CSec("sB", 0, "cB"),
            CLane("l1", 30000), CLane("l2", 27500), CLane("r1", 31000), CLane("m1", 30000), CLane("m2", 27500), CLane("b1", 30000), CLane("b2", 20000),
            CMark("k1", "solid"), Mk("k2"), [op |-> "Linker", h |-> "lk"],
            [CRoad("A", "11", "pA", "nA", "-1") EXCEPT !.name = cfg.name], [CRoad("B", "1", "pB", "nB", "-1") EXCEPT !.rule = "RHT"],
            CNet("n"), CJunc("J", "7"), CConn("c1", "1", "11", "end", "~"), CConn("c2", "11", "1", "start", "9"),
            [CObj("o1", "5") EXCEPT !.name = cfg.name, !.type = "tree", !.radius = "0.5"], [CObj("o2", "2") EXCEPT !.typeE = FALSE, !.type = "x y", !.width = "2.0"],
            [CSig("s1", "5") EXCEPT !.value = "30.0", !.unit = "km/h"], [CSig("s2", "2") EXCEPT !.dyn = "yes", !.name = cfg.name]>>
Threads == <<
  <<CPGeo("pA", "g1"), CPGeo("pA", "g2")>>,
  <<CPGeo("pB", "g2")>>,
  <<CAddL("sA", "l1"), CAddL("sA", "l2"), CAddL("sA2", "m1"), CAddR("sA2", "m2")>>,
  <<CAddR("sA", "r1"), CAddL("sB", "b1"), CAddR("sB", "b2")>>,
  <<CAddSec("nA", "sA", "none", <<>>), CAddSec("nA", "sA2", "none", <<>>), CAddSec("nB", "sB", "none", <<>>)>>,
  <<[op |-> "LMark", l |-> "l2", m |-> "k2"], [op |-> "LMark", l |-> "cA", m |-> "k1"], [op |-> "LMark", l |-> "b1", m |-> "k1"], [op |-> "LMark", l |-> "b1", m |-> "k2"], [op |-> "LLink", l |-> "b1", tag |-> "successor", id |-> -2]>>,
  <<CSucc("A", "road", "1", "start", 0), CNeigh("A", "33", "same"), CNeigh("A", "34", "opposite")>>,
  <<CPred("B", "road", "11", "end", 0), CSucc("B", "junction", "7", "~", 0), CNeigh("B", "33", "same")>>,
  <<CAddRoad("n", "A"), CAddRoad("n", "B")>>,
  <<CCLink("c1", 1, -1), CCLink("c1", 2, 1), CCLink("c2", -1, 1)>>,
  <<[CAddConn("J", "c1") EXCEPT !.got = "0"], [CAddConn("J", "c2") EXCEPT !.got = "9"]>>,
  <<CAddJunc("n", "J")>>,
  <<[CAddTo("AddObj", "A", <<"o1">>) EXCEPT !.ids = <<"5">>], [CAddTo("AddObj", "B", <<"o2">>) EXCEPT !.ids = <<"2">>]>>,
  <<[CAddTo("AddSig", "B", <<"s1">>) EXCEPT !.ids = <<"5">>], [CAddTo("AddSig", "A", <<"s2">>) EXCEPT !.ids = <<"2">>]>>,
  <<[op |-> "Rep", o |-> "o1", len |-> "10.0", dist |-> "2.5", a |-> [tEnd |-> "3.5"]], [op |-> "Rep", o |-> "o1", len |-> "1.0", dist |-> "0.0", a |-> NoFun]>>>>
NT == Len(Threads)
(* a schedule: priorities of the threads in ten rounds *)
Configs == [a : 1 .. 13, b : 1 .. 13, c : 1 .. 13, d : 1 .. 13, e : 1 .. 13, f : 1 .. 13, name : Names]
Seed(c) == <<c.a, c.b, c.c, c.d, c.e, c.f>>
RECURSIVE Run(_, _, _)
Run(f, i, ts) ==
  LET live == {t \in 1 .. NT : ts[t] # <<>>}
  IN  IF live = {} THEN <<>>
      ELSE LET x == (f[1 + (i % 6)] * (7 + 3 * i) + f[1 + ((i \div 6) % 6)] * 5 + i * i) % NT
               t == CHOOSE t \in live : \A u \in live : ((t + x) % NT) <= ((u + x) % NT)
           IN  <<Head(ts[t])>> \o Run(f, i + 1, [ts EXCEPT ![t] = Tail(@)])
RECURSIVE Flat(_)
Flat(ts) == IF ts = <<>> THEN <<>> ELSE Head(ts) \o Flat(Tail(ts))
Body == Run(Seed(cfg), 0, Threads)
Ends == <<CAdjust("n"), CExport("n")>>
Init == cfg \in RandomSubset(Sample, Configs) /\ stop = FALSE
Next == /\ ~stop
        /\ Program(Making \o Body \o Ends)
        /\ stop' = TRUE /\ UNCHANGED cfg

(* every order builds the same *)
Confluent == stop => LET made == After(EmptyLib, Making) IN After(made, Body) = After(made, Flat(Threads))
NothingLost == stop => Len(Body) = Len(Flat(Threads)) /\ SeqSet(Body) = SeqSet(Flat(Threads))
=============================================================================
