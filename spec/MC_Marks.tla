-------------------------------- MODULE MC_Marks --------------------------------
(* C17: a road mark of every type with every combination of parameters left out, *)
(* given as zero and given; the document says what was asked for, and there is a *)
(* line exactly if one of the line's own parameters was asked for.               *)
EXTENDS Build, Randomization
CONSTANT Sample
VARIABLES a, b, stop

Types == {"none", "solid", "broken", "solid_solid", "solid_broken", "broken_solid", "broken_broken", "botts_dots", "grass", "curb", "custom", "edge"}
Marks == [type : Types, width : {"~", "0.0", "0.15"}, length : {"~", "0.0", "2.5"}, space : {"~", "0.0", "7.25"}, toffset : {"~", "0.0", "-0.5"},
          soffset : {"~", "0.0", "12.5"}, height : {"~", "0.0", "0.1"}, rule : {"~", "no_passing", "caution", "none"},
          color : {"~", "standard", "yellow"}, weight : {"~", "standard", "bold"}, change : {"~", "increase", "none"}]
Call(h, m) == [op |-> "Mark", h |-> h] @@ m
Pick == IF Sample = 0 THEN Marks ELSE RandomSubset(Sample, Marks)
Init == a \in Pick /\ b = [a EXCEPT !.type = "broken", !.width = IF a.width = "~" THEN "0.3" ELSE "~",
                                    !.length = IF a.length = "0.0" THEN "9.0" ELSE "~"] /\ stop = FALSE

Setup == <<CLine("g", 500000)>> \o RoadCalls("A", "1", "-1", TRUE, Origin, <<"g">>, <<<<1, 1>>>>)
(* one mark on two lanes, another on a third *)
Next == /\ ~stop
        /\ Program(Setup \o <<Call("m", a), Call("w", b), [op |-> "LMark", l |-> "A.s1l1", m |-> "m"], [op |-> "LMark", l |-> "A.s1c", m |-> "w"],
                              [op |-> "LMark", l |-> "A.s1r1", m |-> "m"], CREl("A"),
                              [op |-> "RLine", width |-> a.width, length |-> a.length, space |-> a.space, toffset |-> a.toffset, soffset |-> a.soffset,
                               rule |-> a.rule, color |-> a.color]>>)
        /\ stop' = TRUE /\ UNCHANGED <<a, b>>

M == MarkRec(Call("m", a))
Asked(k) == NonZero(a[k])
LineIff == stop => HasLine(M) <=> (Asked("length") \/ Asked("space") \/ Asked("toffset") \/ a.rule # "~")
SaysWhatAsked == stop =>
  /\ a.width # "~" /\ ~HasLine(M) => MarkAt(M).width = a.width
  /\ Asked("width") => MarkAt(M).width = a.width
  /\ \A k \in {"soffset", "height"} : Given(a[k]) => MarkAt(M)[IF k = "soffset" THEN "sOffset" ELSE "height"] = a[k]
  /\ HasLine(M) => /\ \A k \in {"length", "space"} : Asked(k) => LineAt(M)[k] = a[k]
                   /\ Asked("toffset") => LineAt(M).tOffset = a.toffset
                   /\ LineAt(M).width = MarkAt(M).width
                   /\ Given(a.soffset) => LineAt(M).sOffset = a.soffset
(* asking for one thing more does not change what is said of the others *)
NoInterference == stop =>
  \A k \in {"length", "space", "toffset"} :
    ~Asked(k) /\ HasLine(M) =>
      LET m2 == [M EXCEPT ![k] = "4.75"]
          key == IF k = "toffset" THEN "tOffset" ELSE k
      IN  /\ MarkAt(m2) = MarkAt(M)
          /\ \A f \in DOMAIN LineAt(M) \ {key} : LineAt(m2)[f] = LineAt(M)[f]
          /\ LineAt(m2)[key] = "4.75"
(* a line is complete *)
Complete == stop /\ HasLine(M) => DOMAIN LineAt(M) = {"length", "space", "tOffset", "width", "sOffset", "rule"} /\ "~" \notin {LineAt(M)[f] : f \in DOMAIN LineAt(M)}
=============================================================================
