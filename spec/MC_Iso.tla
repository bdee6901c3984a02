--------------------------------- MODULE MC_Iso ---------------------------------
(* C21: two networks with the same ids and names built at the same time, step by *)
(* step in every order; each is what it is when built alone.                     *)
EXTENDS Build, Randomization
CONSTANTS Sample, Kinds
VARIABLES cfg, stop

(* a network as a sequence of steps *)
Pt(k) == IF k = "x" THEN Pose(0, 0, 0) ELSE Pose(500000, -300000, 120000000)
Block(k, kind) ==
  LET h(x) == k \o x
      road(r, id, fixed, secs) == RoadCalls(h(r), id, "-1", fixed, Pt(k), <<h("g")>>, secs)
      things == <<<<[CObj(h("o"), "~") EXCEPT !.type = "tree"], CAddTo("AddObj", h("A"), <<h("o")>>)>>,
                  <<CSig(h("s"), "3"), CAddTo("AddSig", h("A"), <<h("s")>>)>>>>
      adjust == <<<<CAdjust(h("n"))>>, <<CExport(h("n"))>>>>
  IN  CASE kind = "chain" ->
             <<<<CArcAng(h("g"), IF k = "x" THEN 300000 ELSE -200000, 80000000)>>, road("A", "1", TRUE, <<<<2, 1>>>>), road("B", "2", FALSE, <<<<2, 1>>>>),
               <<CSucc(h("A"), "road", "2", "start", 0), CPred(h("B"), "road", "1", "end", 0)>>,
               <<CNet(h("n")), CAddRoad(h("n"), h("A")), CAddRoad(h("n"), h("B"))>>>> \o things \o adjust
        [] kind = "gen" ->
             <<<<CLine(h("g"), 400000)>>,
               <<[op |-> "GenRoad", h |-> h("A"), id |-> "1", gs |-> <<h("g")>>, single |-> TRUE, left |-> 1, right |-> IF k = "x" THEN 2 ELSE 1, type |-> "~", cm |-> "~", w |-> NG]>>,
               <<[op |-> "GenStraight", h |-> h("B"), id |-> "2", len |-> N(300000), type |-> "~", n |-> IF k = "x" THEN 1 ELSE 2, w |-> NG]>>,
               <<CMark(h("m"), IF k = "x" THEN "solid_solid" ELSE "grass"), [op |-> "LMark", l |-> h("A.c"), m |-> h("m")], [op |-> "LMark", l |-> h("B.l1"), m |-> h("m")]>>,
               <<CLane(h("l"), 20000), CAddR(h("B.s0"), h("l"))>>,
               <<CNet(h("n")), CAddRoad(h("n"), h("A"))>>>> \o things \o adjust
        [] kind = "junc" ->
             <<<<CLine(h("g"), 500000)>>, road("A", "1", TRUE, <<<<1, 1>>>>), <<CJunc(h("J"), "7"), CConn(h("c"), "1", "2", "start", "~"), CCLink(h("c"), 1, 1)>>,
               <<CAddConn(h("J"), h("c"))>>,
               <<CConn(h("d"), "1", "3", "start", "~")>> \o (IF k = "x" THEN <<CCLink(h("d"), 1, 2)>> ELSE <<>>) \o <<CAddConn(h("J"), h("d"))>>,
               <<CNet(h("n")), CAddRoad(h("n"), h("A")), CAddJunc(h("n"), h("J"))>>>> \o things \o adjust
        [] OTHER ->
             <<<<CLine(h("g"), 500000)>>, road("A", "1", TRUE, <<<<1, 2>>, <<1, 2>>>>), <<[op |-> "Linker", h |-> h("k")]>>,
               <<CNet(h("n")), CAddRoad(h("n"), h("A")), CAdjust(h("n"))>>,
               <<[CObj(h("p"), "~") EXCEPT !.type = "pole"],
                 [op |-> "Side", r |-> h("A"), o |-> h("p"), dist |-> N(50000), so |-> NG, to |-> NG, side |-> IF k = "x" THEN "both" ELSE "left", ids |-> <<>>, proto |-> "", proto2 |-> ""]>>>>
             \o things \o <<<<CExport(h("n"))>>>>
Schedules == [1 .. 10 -> {1, 2}]
Configs == [a : Kinds, b : Kinds, f : Schedules, twin : {1, 2}]
RECURSIVE Run(_, _, _, _)                          \* all steps of both, as the schedule says
Run(f, i, p, q) == IF p = <<>> /\ q = <<>> THEN <<>>
  ELSE LET w == IF p = <<>> THEN 2 ELSE IF q = <<>> THEN 1 ELSE f[1 + (i % 10)]
       IN  IF w = 1 THEN Head(p) \o Run(f, i + 1, Tail(p), q) ELSE Head(q) \o Run(f, i + 1, p, Tail(q))
RECURSIVE Flat(_)
Flat(p) == IF p = <<>> THEN <<>> ELSE Head(p) \o Flat(Tail(p))
B1 == Block("x", cfg.a)
B2 == Block("y", cfg.b)
Both == Run(cfg.f, 0, B1, B2)
Init == cfg \in (IF Sample = 0 THEN Configs ELSE RandomSubset(Sample, Configs)) /\ stop = FALSE
Next == /\ ~stop
        /\ PrintT("PROGRAM " \o ToJson([calls |-> Both, why |-> "C21", twin |-> Flat(IF cfg.twin = 1 THEN B1 ELSE B2)]))
        /\ stop' = TRUE /\ UNCHANGED cfg

Fields == {"geo", "plan", "mark", "lane", "sec", "lns", "lnk", "road", "net", "junc", "conn", "sig", "obj"}
Isolated == stop => LET st == After(EmptyLib, Both) IN
  \A b \in {B1, B2} : LET alone == After(EmptyLib, Flat(b)) IN
     \A f \in Fields : \A h \in DOMAIN alone[f] : h \in DOMAIN st[f] /\ st[f][h] = alone[f][h]
=============================================================================
