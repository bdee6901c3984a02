--------------------------------- MODULE MC_Sec ---------------------------------
(* C07: lanes are added to either side of two lane sections in every order, and  *)
(* the sections handed to the road before, between or after them; each lane is   *)
(* numbered by its place on its side at once and for good.                       *)
EXTENDS Build
CONSTANTS K
VARIABLES st, prog, n, given, stop

Widths == <<30000, 35000, 27500, 40000, 5000, 31234>>
Setup == <<CLine("g", 500000), CPlan("A.p", TRUE, Origin), CPGeo("A.p", "g"), CLanes("A.n"),
           CLane("c1", 0), CSec("s1", 0, "c1"), CLane("c2", 0), CSec("s2", 250000, "c2")>>
Base == After(EmptyLib, Setup)
Init == st = Base /\ prog = <<>> /\ n = 0 /\ given = 0 /\ stop = FALSE

Do(cs) == st' = After(st, cs) /\ prog' = prog \o cs
AddLane(s, side) ==
  LET l == "l" \o ToString(n)
  IN  /\ n < K
      /\ Do(<<CLane(l, Widths[1 + (n % 6)]), IF side = "l" THEN CAddL(s, l) ELSE CAddR(s, l)>>)
      /\ n' = n + 1 /\ UNCHANGED <<given, stop>>
(* the sections go to the road in their order *)
Give == /\ given < 2
        /\ Do(<<CAddSec("A.n", "s" \o ToString(given + 1), "none", <<>>)>>)
        /\ given' = given + 1 /\ UNCHANGED <<n, stop>>
Stop == /\ ~stop /\ n = K /\ given = 2
        /\ Program(Setup \o prog \o <<CRoad("A", "1", "A.p", "A.n", "-1"), CREl("A")>>)
        /\ stop' = TRUE /\ UNCHANGED <<st, prog, n, given>>
Next == ~stop /\ ((\E s \in {"s1", "s2"}, side \in {"l", "r"} : AddLane(s, side)) \/ Give \/ Stop)

Secs == {"s1", "s2"}
Numbered == \A s \in Secs : /\ \A i \in 1 .. Len(st.sec[s].left) : st.lane[st.sec[s].left[i]].lid = ToString(i)
                            /\ \A i \in 1 .. Len(st.sec[s].right) : st.lane[st.sec[s].right[i]].lid = ToString(-i)
                            /\ st.lane[st.sec[s].c].lid = "0"
(* every lane is on one side of one section, once *)
All == [s \in Secs |-> st.sec[s].left \o st.sec[s].right]
Once == /\ Distinct(All["s1"] \o All["s2"]) /\ Len(All["s1"]) + Len(All["s2"]) = n
(* numbers are never changed by a later call *)
Stable == [][\A l \in DOMAIN st.lane : st'.lane[l] = st.lane[l]]_<<st, prog, n, given, stop>>
(* the document of the specification: contiguous numbers on both sides *)
Contig == \A s \in Secs : {st.lane[l].num : l \in SeqSet(All[s])} = ((-Len(st.sec[s].right)) .. Len(st.sec[s].left)) \ {0}
=============================================================================
