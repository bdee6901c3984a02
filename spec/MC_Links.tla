-------------------------------- MODULE MC_Links --------------------------------
(* C11: every sequence of link calls on two roads, refused ones included, and  *)
(* the adjustment that follows.                                                *)
EXTENDS Build
CONSTANT K
VARIABLES st, prog, left, kept

Setup == <<CLine("ga", 1000000), CLine("gb", 500000)>>
         \o RoadCalls("A", "1", "-1", FALSE, Origin, <<"ga">>, <<<<1, 1>>>>)
         \o RoadCalls("B", "2", "-1", FALSE, Origin, <<"gb">>, <<<<1, 1>>>>)
Alphabet == {CSucc("A", "road", "2", "start", 0), CSucc("A", "junction", "7", "~", 0), CPred("B", "road", "1", "end", 0),
             CPred("A", "road", "2", "end", 0), CSucc("B", "road", "1", "start", 0), CPred("B", "junction", "8", "~", 0),
             CNeigh("A", "2", "same"), CNeigh("A", "3", "opposite"), CNeigh("A", "2", "~"),
             CSucc("A", "junction", "9", "~", 1), CPred("B", "road", "1", "end", 1)}
Look(x) == [op |-> "LkGet", x |-> x]
Tail_ == <<CREl("A"), CREl("B"), Look("A"), Look("B"), CNet("n"), CAddRoad("n", "A"), CAddRoad("n", "B"), CAdjust("n"), Look("B"), Look("A.s1r1"), Look("B.s1l1"), CExport("n")>>

Base == After(EmptyLib, Setup)
Init == /\ st = Base /\ prog = <<>> /\ left = K /\ kept = <<>>
Do(c) == /\ left > 0
         /\ left' = left - 1
         /\ prog' = Append(prog, c)
         /\ st' = IF "ok" \in Outs(st, c) THEN Eff(st, c) ELSE st
         /\ kept' = IF "ok" \in Outs(st, c) THEN Append(kept, c) ELSE kept
Stop == /\ left >= 0
        /\ PrintT("PROGRAM " \o ToJson([calls |-> Setup \o prog \o Tail_, twin |-> Setup \o kept \o Tail_, why |-> "C11"]))
        /\ left' = -1
        /\ UNCHANGED <<st, prog, kept>>
Next == (\E c \in Alphabet : Do(c)) \/ Stop

Kinds(r, t) == Cardinality({i \in 1 .. Len(st.road[r].links) : st.road[r].links[i].tag = t})
Limits == \A r \in {"A", "B"} : Kinds(r, "predecessor") <= 1 /\ Kinds(r, "successor") <= 1 /\ Kinds(r, "neighbor") <= 2
(* refused calls leave no trace *)
NoTrace == st = After(Base, kept)
(* what the adjustment will see is the first accepted link of each kind *)
FirstOf(r, op, k) == IF k > Len(prog) THEN 0 ELSE IF prog[k].op = op /\ prog[k].r = r THEN k ELSE 0
RECURSIVE First(_, _, _)
First(r, op, k) == IF k > Len(prog) THEN 0 ELSE IF FirstOf(r, op, k) # 0 THEN k ELSE First(r, op, k + 1)
FirstCounts == \A r \in {"A", "B"} :
   /\ LET k == First(r, "Succ", 1) IN IF k = 0 THEN ~st.road[r].succ.has ELSE st.road[r].succ.id = prog[k].id /\ st.road[r].succ.et = prog[k].et
   /\ LET k == First(r, "Pred", 1) IN IF k = 0 THEN ~st.road[r].pred.has ELSE st.road[r].pred.id = prog[k].id /\ st.road[r].pred.cp = prog[k].cp
=============================================================================
