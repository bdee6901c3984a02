-------------------------------- MODULE MC_Linker -------------------------------
(* C06: every order of recording lane pairs in two linkers and handing the     *)
(* linkers over, singly, in lists, repeatedly, with any section.               *)
EXTENDS Build
CONSTANTS Secs, Pairs, MaxPairs
VARIABLES st, prog, added, done

S(i) == "R.s" \o ToString(i)
L(i, side) == S(i) \o side
RECURSIVE MakeSecs(_)
MakeSecs(i) == IF i > Secs THEN <<>>
               ELSE <<CLane(S(i) \o "c", 0), CSec(S(i), 100000 * (i - 1), S(i) \o "c")>>
                    \o SideCalls(S(i), "l", 1, 30000, 1) \o SideCalls(S(i), "r", 2, 30000, 1) \o MakeSecs(i + 1)
Setup == <<CLine("g", 500000), CPlan("p", FALSE, Origin), CPGeo("p", "g"), CLanes("n"), [op |-> "Linker", h |-> "k1"], [op |-> "Linker", h |-> "k2"]>>
         \o MakeSecs(1)
(* a pair is written <<section, lane, section, lane>> *)
Lane_(s, l) == L(s, l)
PairCall(k, p) == [op |-> "LPair", k |-> k, p |-> Lane_(p[1], p[2]), s |-> Lane_(p[3], p[4])]
HandOvers == {<<"none", <<>>>>, <<"one", <<"k1">>>>, <<"list", <<"k1", "k2">>>>, <<"list", <<"k2", "k1", "k2">>>>, <<"one", <<"k2">>>>}

Base == After(EmptyLib, Setup)
Init == st = Base /\ prog = <<>> /\ added = 0 /\ done = FALSE
Recorded == {<<c.p, c.s>> : c \in SeqSet(SelectSeq(prog, LAMBDA x : x.op = "LPair"))}
Do(c) == prog' = Append(prog, c) /\ st' = Eff(st, c) /\ UNCHANGED done
Record == /\ Cardinality(Recorded) < MaxPairs
          /\ \E k \in {"k1", "k2"}, p \in Pairs :
               /\ <<Lane_(p[1], p[2]), Lane_(p[3], p[4])>> \notin Recorded
               /\ Do(PairCall(k, p))
          /\ UNCHANGED added
AddSec == /\ added < Secs
          /\ \E h \in HandOvers : Do(CAddSec("n", S(added + 1), h[1], h[2]))
          /\ added' = added + 1
Stop == /\ ~done /\ added = Secs
        /\ Program(Setup \o prog \o <<CRoad("R", "1", "p", "n", "-1"), CREl("R")>>)
        /\ done' = TRUE
        /\ UNCHANGED <<st, prog, added>>
Next == (~done /\ (Record \/ AddSec)) \/ Stop

(* each pair handed over after it was recorded is linked exactly once, the others not at all *)
HandedOver(k, i) == \E j \in (i + 1) .. Len(prog) : prog[j].op = "AddSec" /\ k \in SeqSet(prog[j].ks)
AllLinks == UNION {{<<h, i>> : i \in 1 .. Len(st.lane[h].llinks)} : h \in DOMAIN st.lane}
Exactly ==
  LET ps == {i \in 1 .. Len(prog) : prog[i].op = "LPair"}
      yes == {i \in ps : HandedOver(prog[i].k, i)}
  IN  /\ Cardinality(AllLinks) = 2 * Cardinality(yes)
      /\ \A i \in yes : /\ Count(st.lane[prog[i].p].llinks, [tag |-> "successor", id |-> st.lane[prog[i].s].lid])
                           = Cardinality({j \in yes : prog[j].p = prog[i].p /\ st.lane[prog[j].s].lid = st.lane[prog[i].s].lid})

QuickPairs == {<<1, "l1", 2, "l1">>, <<1, "r1", 2, "r1">>, <<1, "r1", 2, "r2">>}
ThoroughPairs == {<<1, "l1", 2, "l1">>, <<1, "r1", 2, "r2">>, <<2, "r2", 3, "r1">>}
=============================================================================
