-------------------------------- MODULE MC_Ctor ---------------------------------
(* C19: every subset of the optional arguments of arcs, spirals, polynomials    *)
(* and plan views, with zero and non-zero values; one construction a behaviour, *)
(* or two in a row (a refused one does not change what comes next).             *)
EXTENDS Build
CONSTANT K
VARIABLES prog, done

Angles == {0, 100000000, -100000000}
Lens == {0, 100000}
B == BOOLEAN
(* "~" is shown by the flag; the value is then 0 *)
Opts(S) == {<<FALSE, 0>>} \cup {<<TRUE, x>> : x \in S}
Arcs == {[op |-> "Arc", h |-> "a", r |-> r, k |-> "k", hl |-> l[1], len |-> l[2], ha |-> a[1], ang |-> a[2]] :
           r \in {0, 50000, -50000}, l \in Opts(Lens), a \in Opts(Angles)}
Spirals == {[op |-> "Spiral", h |-> "s", r0 |-> r[1], r1 |-> r[2], k0 |-> "k0", k1 |-> "k1", hl |-> l[1], len |-> l[2], ha |-> a[1], ang |-> a[2],
             hc |-> c[1], rl |-> c[2]] :
             r \in {<<0, 50000>>, <<50000, 0>>, <<-50000, -80000>>}, l \in Opts(Lens), a \in Opts(Angles), c \in Opts(Lens)}
Polys == {[op |-> "Poly", h |-> "p", pr |-> pr, hl |-> l[1], len |-> l[2], u |-> <<0, 100000, 0, 0>>, v |-> <<0, 0, 10000, 0>>, at |-> NoFun,
           explicit |-> e] : pr \in {"normalized", "arcLength"}, l \in Opts({100000}), e \in B}
Plans == {[op |-> "Plan", h |-> "v", gx |-> x[1], x |-> x[2], gy |-> y[1], y |-> y[2], gh |-> h[1], hd |-> h[2]] :
           x \in Opts({0, 10000}), y \in Opts({0, 10000}), h \in Opts({0, 100000000})}
All == Arcs \cup Spirals \cup Polys \cup Plans
Samples == {x \in All : x.op = "Plan" /\ x.gx /\ x.gy # x.gh} \cup {x \in All : x.op = "Arc" /\ x.r = 50000 /\ x.hl /\ x.ha}

Init == prog = <<>> /\ done = FALSE
Go == /\ ~done
      /\ \/ prog = <<>> /\ \E c \in All : prog' = <<c>>
         \/ K > 1 /\ Len(prog) = 1 /\ prog[1] \in Samples /\ \E c \in All : prog' = Append(prog, c)
      /\ UNCHANGED done
Stop == /\ ~done /\ prog # <<>>
        /\ Program(prog)
        /\ done' = TRUE
        /\ UNCHANGED prog
Next == Go \/ Stop

(* the rules, restated: exactly one definition of the extent, a real curve, a whole start position or none *)
One_ == \A i \in 1 .. Len(prog) :
  LET c == prog[i] IN
    CASE c.op = "Arc" -> (Outs(EmptyLib, c) = {"ok"}) <=> (c.r # 0 /\ (c.hl # c.ha))
      [] c.op = "Spiral" -> (Outs(EmptyLib, c) = {"ok"}) <=> (Cardinality({k \in {"hl", "ha", "hc"} : c[k]}) = 1)
      [] c.op = "Poly" -> (Outs(EmptyLib, c) = {"ok"}) <=> (c.pr = "normalized" \/ c.hl)
      [] c.op = "Plan" -> (Outs(EmptyLib, c) = {"ok"}) <=> (c.gx = c.gy /\ c.gy = c.gh)
=============================================================================
