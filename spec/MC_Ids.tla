--------------------------------- MODULE MC_Ids ---------------------------------
(* C10: every sequence of additions of signals and objects (one, two at once,  *)
(* along the roadside) with every mixture of asked and missing ids; the        *)
(* library may choose any id that IdsOk allows.                                *)
EXTENDS Build
CONSTANTS K, Ids, Pool
VARIABLES st, prog, n

Setup == <<CLine("g", 200000)>> \o RoadCalls("A", "1", "-1", TRUE, Origin, <<"g">>, <<<<1, 1>>>>)
         \o RoadCalls("B", "2", "-1", TRUE, Pose(0, 5000000, 0), <<"g">>, <<<<1, 0>>>>)
         \o <<CNet("n"), CAddRoad("n", "A"), CAddRoad("n", "B"), CAdjust("n")>>
H(i) == "x" \o ToString(i)
RoadOf(i) == IF i % 2 = 0 THEN "A" ELSE "B"

Base == After(EmptyLib, Setup)
Init == st = Base /\ prog = <<>> /\ n = 0

(* new elements with the ids asked, then one addition of all of them *)
Add(kind, asked, got) ==
  LET hs == [i \in 1 .. Len(asked) |-> H(n + i)]
      mk == [i \in 1 .. Len(asked) |-> IF kind = "Sig" THEN CSig(hs[i], asked[i]) ELSE CObj(hs[i], asked[i])]
      add == CAddTo(IF kind = "Sig" THEN "AddSig" ELSE "AddObj", RoadOf(n), hs)
  IN  /\ IdsOk(IF kind = "Sig" THEN st.sigIds ELSE st.objIds, asked, got)
      /\ st' = Eff(After(st, mk), [add EXCEPT !.ids = got])
      /\ prog' = prog \o mk \o <<add>>
      /\ n' = n + Len(asked)
Side(asked, got) ==
  LET c == [op |-> "Side", r |-> "A", o |-> H(n + 1), dist |-> N(50000), so |-> NG, to |-> NG, side |-> "both",
            ids |-> <<>>, proto |-> "", proto2 |-> ""]
      old == CHOOSE s \in [1 .. Cardinality(RoadObjIds(st, "A")) -> RoadObjIds(st, "A")] : SeqSet(s) = RoadObjIds(st, "A")
      mk == CObj(H(n + 1), asked)
  IN  /\ got[1] # got[2] /\ SeqSet(got) \cap st.objIds = {} /\ (Given(asked) /\ asked \notin st.objIds => asked \in SeqSet(got))
      /\ st' = Eff(Eff(st, mk), [c EXCEPT !.ids = old \o got])
      /\ prog' = prog \o <<mk, c>>
      /\ n' = n + 1
Steps == Len(SelectSeq(prog, LAMBDA c : c.op \in {"AddSig", "AddObj", "Side"}))
Go == /\ Steps < K
      /\ \/ \E kind \in {"Sig", "Obj"}, a \in Ids, g \in Pool : Add(kind, <<a>>, <<g>>)
         \/ \E kind \in {"Sig", "Obj"}, a, b \in {"~", "1"}, g, h \in Pool : Add(kind, <<a, b>>, <<g, h>>)
         \/ \E a \in {"~", "1"}, g, h \in Pool : Side(a, <<g, h>>)
Stop == /\ Steps = K
        /\ n < 100
        /\ Program(Setup \o prog \o <<CExport("n")>>)
        /\ n' = 100
        /\ UNCHANGED <<st, prog>>
Next == Go \/ Stop

(* uniqueness across the process, whatever was chosen *)
SigGot == [h \in DOMAIN st.sig |-> st.sig[h].got]
ObjGot == [h \in {x \in DOMAIN st.obj : st.obj[x].got # "~"} |-> st.obj[h].got]
SideIds == UNION {UNION {SeqSet(x.ids) : x \in SeqSet(st.road[r].sides)} : r \in {"A", "B"}}
Unique == /\ \A a, b \in DOMAIN SigGot : a # b => SigGot[a] # SigGot[b]
          /\ \A a, b \in DOMAIN ObjGot : a # b => ObjGot[a] # ObjGot[b]
          /\ \A a \in DOMAIN ObjGot : ObjGot[a] \notin SideIds
(* the first addition that asks for an id gets it, whatever the other kind did *)
Respect == \A h \in DOMAIN SigGot : Given(st.sig[h].id) =>
              \/ SigGot[h] = st.sig[h].id
              \/ \E g \in DOMAIN SigGot : g # h /\ SigGot[g] = st.sig[h].id
=============================================================================
