-------------------------------- MODULE MC_Objs ---------------------------------
(* C16: objects of every shape with up to two repeats that say more or less, and *)
(* what a repeat leaves out is taken from the object at the time of the call.    *)
EXTENDS Build, Randomization
CONSTANT Sample
VARIABLES cfg, stop

Objs == [zo : {"~", "0.0", "1.25"}, hdg : {"~", "0.5"}, pitch : {"~", "0.0", "0.1"}, width : {"~", "0.0", "2.0"}, length : {"~", "3.5"},
         height : {"~", "0.0", "1.5"}, radius : {"~", "0.75"}, vl : {"~", "9.5"}, typeE : BOOLEAN, sub : {"~", "oak"}, dyn : {"~", "yes"}, ori : {"~", "negative"}]
RepKeySet == {"s", "tStart", "tEnd", "heightStart", "heightEnd", "zOffsetStart", "zOffsetEnd", "widthStart", "lengthEnd", "radiusStart"}
RepSets == SUBSET RepKeySet
Configs == [o : Objs, n : 0 .. 2, r1 : RepSets, zero : BOOLEAN]
(* the set of all configurations is too large for TLC to draw from at once *)
Pick == {[o |-> o, n |-> n, r1 |-> r1, r2 |-> RepKeySet \ r1, zero |-> zero] :
           o \in RandomSubset(Sample, Objs), n \in 0 .. 2, r1 \in RandomSubset(2, RepSets), zero \in BOOLEAN}
Init == cfg \in Pick /\ stop = FALSE

Val(k, zero) == IF zero THEN "0.0" ELSE CASE k = "s" -> "17.5" [] k = "tStart" -> "-4.25" [] k = "tEnd" -> "6.5" [] k = "heightStart" -> "0.3" [] k = "heightEnd" -> "4.0"
                [] k = "zOffsetStart" -> "-0.5" [] k = "zOffsetEnd" -> "2.25" [] k = "widthStart" -> "1.1" [] k = "lengthEnd" -> "5.5" [] OTHER -> "0.9"
(* an argument that is not given is not written *)
Rep(o, len, dist, ks, zero) == [op |-> "Rep", o |-> o, len |-> len, dist |-> dist, a |-> [k \in ks |-> Val(k, zero)]]
Obj == [op |-> "Obj", h |-> "o", s |-> N(123400), t |-> N(-20000), id |-> "7", type |-> IF cfg.o.typeE THEN "tree" ELSE "hedge", name |-> "~", roll |-> "~"] @@ cfg.o
Calls == <<Obj>> \o (IF cfg.n > 0 THEN <<Rep("o", "50.0", "2.5", cfg.r1, cfg.zero)>> ELSE <<>>)
                 \o (IF cfg.n > 1 THEN <<Rep("o", "0.0", "12.0", cfg.r2, ~cfg.zero)>> ELSE <<>>)
Next == /\ ~stop
        /\ Program(Calls \o <<[op |-> "OEl", o |-> "o"]>>)
        /\ stop' = TRUE /\ UNCHANGED cfg

O == After(EmptyLib, Calls).obj["o"]
AsGiven == stop => \A i \in 1 .. Len(O.reps) : LET ks == IF i = 1 THEN cfg.r1 ELSE cfg.r2 IN
              /\ \A k \in ks : O.reps[i][k] = Val(k, IF i = 1 THEN cfg.zero ELSE ~cfg.zero)
              /\ DOMAIN O.reps[i] = ks \cup RepKeys \cup {"length", "distance"}
(* without arguments a repeat is the object itself, continued *)
Default == stop => \A i \in 1 .. Len(O.reps) : LET ks == IF i = 1 THEN cfg.r1 ELSE cfg.r2 IN
              /\ "s" \notin ks => O.reps[i].s = Obj.s.s
              /\ \A k \in {"tStart", "tEnd"} \ ks : O.reps[i][k] = Obj.t.s
              /\ \A k \in {"zOffsetStart", "zOffsetEnd"} \ ks : O.reps[i][k] = ObjAt(O, "7").zOffset
              /\ \A k \in {"heightStart", "heightEnd"} \ ks : O.reps[i][k] = IF "height" \in DOMAIN ObjAt(O, "7") THEN ObjAt(O, "7").height ELSE "0.0"
(* a repeat changes nothing else of the object *)
Same == stop => After(EmptyLib, <<Obj>>).obj["o"] = [O EXCEPT !.reps = <<>>]
(* round or angular, never both *)
Shape == stop => LET a == ObjAt(O, "7") IN /\ ("radius" \in DOMAIN a) => {"width", "length"} \cap DOMAIN a = {}
                                   /\ ("width" \in DOMAIN a) = ("length" \in DOMAIN a)
=============================================================================
