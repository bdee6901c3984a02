-------------------------------- MODULE MC_Write --------------------------------
(* C13: looking at a network (exports of the whole, of one road, writing it in   *)
(* any format over anything) in any order between the calls that change it.      *)
(* Each behaviour has a twin that makes the same changes and looks once, at the  *)
(* end; both must show the same.                                                 *)
EXTENDS Build
CONSTANTS K, Start
VARIABLES st, prog, seen, stop

Setup == <<CArcLen("g", 300000, 200000), CLine("h", 123400), CMark("m", "solid_broken")>>
   \o RoadCalls("A", "1", "-1", TRUE, Pose(0, 10000, 100000000), <<"g", "h">>, <<<<2, 1>>, <<1, 1>>>>)
   \o RoadCalls("B", "2", "-1", FALSE, Origin, <<"h">>, <<<<1, 1>>>>)
   \o <<CSucc("A", "road", "2", "start", 0), CPred("B", "road", "1", "end", 0), CNeigh("A", "5", "same"), CSucc("B", "junction", "7", "~", 0)>>
   \o <<[op |-> "LMark", l |-> "A.s1l1", m |-> "m"], [op |-> "LMark", l |-> "B.s1c", m |-> "m"]>>
   \o <<CJunc("J", "7"), CConn("c", "1", "2", "start", "~"), CCLink("c", 1, 1), CAddConn("J", "c")>>
   \o <<[CObj("p", "p0") EXCEPT !.type = "pole"], [op |-> "Rep", o |-> "p", len |-> "4.0", dist |-> "1.5", a |-> NoFun]>>
   \o <<CNet("n"), CAddRoad("n", "A"), CAddRoad("n", "B"), CAddJunc("n", "J"), CAdjust("n")>>
Setup2 == SubSeq(Setup, 1, Len(Setup) - 1)          \* not adjusted
From == IF Start = "adjusted" THEN Setup ELSE Setup2
Base == After(EmptyLib, From)

W(pretty, prior, times) == [op |-> "Write", n |-> "n", file |-> "f.xodr", pretty |-> pretty, prior |-> prior, times |-> times]
Looks == {CExport("n"), [op |-> "Show", n |-> "n"], CREl("A"), W("~", "~", 1), W("no", "garbage", 20000), W("yes", "~", 1), [op |-> "JEl", j |-> "J"], [op |-> "PEl", p |-> "A.p"],
          [W("yes", "~", 1) EXCEPT !.file = "~"], [W("yes", "garbage", 1) EXCEPT !.file = "viewer"] @@ [run |-> TRUE], [op |-> "REnd", r |-> "B"], [op |-> "LkGet", x |-> "A"], [op |-> "PLen", p |-> "A.p"], [op |-> "OEl", o |-> "p"]}
H == "x" \o ToString(Len(prog))
Changes == {<<CObj(H, "~"), CAddTo("AddObj", "A", <<H>>)>>, <<CSig(H, "~"), CAddTo("AddSig", "B", <<H>>)>>,
            <<CNeigh("B", "9", "opposite")>>,
            <<CConn(H, "2", "1", "end", "~"), CCLink(H, -1, 1), CAddConn("J", H)>>,
            <<[op |-> "Side", r |-> "A", o |-> "p", dist |-> N(50000), so |-> NG, to |-> NG, side |-> "both", ids |-> <<>>, proto |-> "", proto2 |-> ""]>>,
            <<CAdjust("n")>>}
Allowed(cs) == CASE cs[1].op = "Side" -> Adjusted(st, "A")
                 [] cs[1].op = "Adjust" -> st.net["n"].state = "open"
                 [] cs[1].op = "Neigh" -> st.road["B"].neigh < 2
                 [] OTHER -> TRUE
Init == st = Base /\ prog = <<>> /\ seen = 0 /\ stop = FALSE
(* exports of an unadjusted network are outside what the library promises: its geometries have no place yet *)
MayLook(c) == st.net["n"].state = "adjusted" \/ c.op \in {"JEl", "OEl"}
Look == \E c \in Looks : MayLook(c) /\ st' = After(st, <<c>>) /\ prog' = Append(prog, c) /\ seen' = seen + 1 /\ UNCHANGED stop
Change == \E cs \in Changes : Allowed(cs) /\ st' = After(st, cs) /\ prog' = prog \o cs /\ UNCHANGED <<seen, stop>>
Steps == seen + Len(SelectSeq(prog, LAMBDA c : c.op \in {"AddObj", "AddSig", "Neigh", "AddConn", "Side", "Adjust"}))
LookOps == {"Show", "Export", "REl", "Write", "JEl", "PEl", "REnd", "PLen", "OEl", "LkGet"}
Stop == /\ Steps = K /\ seen > 0 /\ st.net["n"].state = "adjusted"
        /\ PrintT("PROGRAM " \o ToJson([calls |-> From \o prog \o <<CExport("n")>>, why |-> "C13",
                                        twin |-> SelectSeq(From \o prog, LAMBDA c : c.op \notin LookOps) \o <<CExport("n")>>]))
        /\ stop' = TRUE /\ UNCHANGED <<st, prog, seen>>
Next == ~stop /\ (Stop \/ (Steps < K /\ (Look \/ Change)))

(* looking changes nothing: the state is that of the changes alone *)
OnlyChanges == stop => st = After(Base, SelectSeq(prog, LAMBDA c : c.op \notin LookOps))
LooksAreSilent == [][seen' # seen => st' = st]_<<st, prog, seen, stop>>
=============================================================================
