--------------------------------- MODULE Trace ---------------------------------
(* Recorded behaviours of the real library against OdrLib/Doc: one initial    *)
(* state per program, one step per recorded call.  A call whose outcome the   *)
(* specification does not allow ends the behaviour; every violated clause is  *)
(* kept, and one verdict is printed per program.                              *)
EXTENDS Doc, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES pi, l, st, bad, alive
vars == <<pi, l, st, bad, alive>>

Calls == Progs[pi].calls

Init == /\ pi \in 1 .. Len(Progs)
        /\ l = 0
        /\ st = EmptyLib
        /\ bad = {}
        /\ alive = TRUE

(* one call of the library *)
Step ==
  LET e == Calls[l + 1]
      ok == e.out \in Outs(st, e)
      done == e.out = "ok"
  IN  /\ l >= 0
      /\ l < Len(Calls)
      /\ alive
      /\ l' = l + 1
      /\ pi' = pi
      /\ IF ok /\ done
         THEN /\ bad' = bad \cup ObsBad(st, e)
              /\ st' = Observe(Eff(st, e), e)
              /\ alive' = TRUE
         ELSE IF ok
         THEN /\ bad' = bad \cup RefusedBad(st, e)
              /\ st' = st
              /\ alive' = (e.op \notin {"Adjust", "Place", "Match", "GenJR"})   \* a refused network is not used any further
         ELSE /\ bad' = bad \cup V(FALSE, OutOwners(st, e), e.op \o " answered " \o e.out)
              /\ st' = st
              /\ alive' = FALSE

(* programs with a twin: the same calls without the exports, without the other *)
(* networks, or without refused link calls, must lead to the same documents    *)
Exports(cs, n) == SelectSeq(cs, LAMBDA e : e.op = "Export" /\ e.out = "ok" /\ e.n = n)
TwinBad ==
  IF ~Has(Progs[pi], "twin") THEN {}
  ELSE UNION {LET a == Exports(Calls, n)
                  b == Exports(Progs[pi].twin, n)
              IN  IF Progs[pi].why = "C13"
                  THEN IF b = <<>> \/ ~alive THEN {} ELSE V(a # <<>> /\ a[Len(a)].dig = b[Len(b)].dig, {"C13"}, "exporting changed a later export")
                  ELSE IF Progs[pi].why = "C11"
                  THEN V(Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : i <= Len(b) => a[i].dig = b[i].dig, {"C11"}, "a refused link call changed the document")
                  ELSE V(Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : i <= Len(b) => a[i].digm = b[i].digm, {"C21"}, "document depends on the other networks")
              : n \in {Progs[pi].twin[i].n : i \in 1 .. Len(Progs[pi].twin)}}

Finish ==
  /\ l >= 0
  /\ ~(l < Len(Calls) /\ alive)
  /\ LET all == bad \cup TwinBad
     IN  /\ bad' = all
         /\ PrintT("VERDICT " \o ToJson([id |-> Progs[pi].id, at |-> l, alive |-> alive, bad |-> all]))
  /\ l' = -1
  /\ UNCHANGED <<pi, st, alive>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
