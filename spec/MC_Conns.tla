-------------------------------- MODULE MC_Conns --------------------------------
(* C09: every sequence of connections with and without an id, over junctions.  *)
EXTENDS Build
CONSTANTS K, Juncs, Ids, Pool
VARIABLES st, prog, n

Seq_(S) == CHOOSE s \in [1 .. Cardinality(S) -> S] : SeqSet(s) = S
Setup == [i \in 1 .. Cardinality(Juncs) |-> CJunc(Seq_(Juncs)[i], ToString(i))]
Base == After(EmptyLib, Setup)
Init == st = Base /\ prog = <<>> /\ n = 0
Have(j) == {st.conn[c].got : c \in SeqSet(st.junc[j].conns)}
Add(j, id, got) ==
  LET h == "c" \o ToString(n)
      mk == <<CConn(h, ToString(n), "9", IF n % 2 = 0 THEN "start" ELSE "end", id), CCLink(h, -1, n + 1), CCLink(h, 1, -1)>>
  IN  /\ IF Given(id) THEN got = id ELSE got \notin Have(j)
      /\ st' = Eff(After(st, mk), [CAddConn(j, h) EXCEPT !.got = got])
      /\ prog' = prog \o mk \o <<CAddConn(j, h)>>
      /\ n' = n + 1
Go == n < K /\ \E j \in Juncs, id \in Ids, got \in Pool : Add(j, id, got)
Stop == /\ n = K
        /\ Program(Setup \o prog \o [i \in 1 .. Cardinality(Juncs) |-> [op |-> "JEl", j |-> Seq_(Juncs)[i]]])
        /\ n' = K + 1
        /\ UNCHANGED <<st, prog>>
Next == Go \/ Stop
(* an id chosen by the library is new; an id given is kept, also one that is there already *)
Unique == \A j \in Juncs : LET cs == st.junc[j].conns IN
             /\ \A a, b \in 1 .. Len(cs) : a < b /\ ~Given(st.conn[cs[b]].id) => st.conn[cs[a]].got # st.conn[cs[b]].got
             /\ \A a \in 1 .. Len(cs) : Given(st.conn[cs[a]].id) => st.conn[cs[a]].got = st.conn[cs[a]].id
=============================================================================
