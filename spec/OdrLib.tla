-------------------------------- MODULE OdrLib --------------------------------
(* The library as a state machine: what a user has built, and what each call  *)
(* may answer and changes.                                                    *)
(*                                                                            *)
(* The state st is a record of functions from handles (names given to the     *)
(* objects of a program) to what is known of the object.  A call c is a       *)
(* record with field op; numbers are [s, q] (exact text, "~" when not given;  *)
(* value in 1e-4 units), ids are texts, "~" means "not given".                *)
(*                                                                            *)
(*   Outs(st, c)      the outcomes the call may have ("ok" or error names)    *)
(*   Eff(st, c)       the state after the call succeeded                      *)
(*                                                                            *)
(* Where the library chooses a value (ids of signals, objects, connections)   *)
(* the call carries what was observed and Eff records it; that the choice was *)
(* allowed is stated separately (Doc.tla, and the invariants of the models).  *)
EXTENDS Network, TLC

Has(f, h) == h \in DOMAIN f
Put(f, h, v) == (h :> v) @@ f
NoFun == <<>>

EmptyLib ==
  [geo |-> NoFun, plan |-> NoFun, mark |-> NoFun, lane |-> NoFun, sec |-> NoFun,
   lns |-> NoFun, lnk |-> NoFun, road |-> NoFun, net |-> NoFun, junc |-> NoFun,
   conn |-> NoFun, sig |-> NoFun, obj |-> NoFun,
   sigIds |-> {}, objIds |-> {}, seen |-> NoFun, digs |-> NoFun,
   apart |-> FALSE]                            \* placed or linked pair by pair, not by adjusting

Num(s, q) == [s |-> s, q |-> q]
Zero == Num("0.0", 0)
Or(n, d) == IF n.s = "~" THEN d ELSE n
OrS(s, d) == IF s = "~" THEN d ELSE s
Given(s) == s # "~"
NonZero(s) == s \notin {"~", "0.0", "-0.0"}

RECURSIVE Fold(_, _, _, _)
Fold(F(_, _), acc, s, k) == IF k > Len(s) THEN acc ELSE Fold(F, F(acc, s[k]), s, k + 1)
FoldSeq_(F(_, _), acc, s) == Fold(F, acc, s, 1)

RECURSIVE SumSet(_, _)
SumSet(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN F(x) + SumSet(F, S \ {x})

-------------------------------------------------------------------------------
(* geometries *)
GeoLine(len) == [kind |-> "line", lt |-> "~", at |-> NoFun, r0 |-> 0, r1 |-> 0, len |-> len, disp |-> LineDisp(len), u |-> <<>>, v |-> <<>>]
GeoArc(k, r, len, disp) == [kind |-> "arc", at |-> [curvature |-> k], r0 |-> r, r1 |-> r, len |-> len,
                            disp |-> disp, u |-> <<>>, v |-> <<>>]
GeoSpiral(k0, k1, r0, r1, len, disp) ==
  [kind |-> "spiral", at |-> [curvStart |-> k0, curvEnd |-> k1], r0 |-> r0, r1 |-> r1, len |-> len,
   disp |-> disp, u |-> <<>>, v |-> <<>>]
GeoPoly(at, u, v, len) == [kind |-> "paramPoly3", at |-> at, r0 |-> 0, r1 |-> 0, len |-> len,
                           disp |-> PolyDisp(u, v, len), u |-> u, v |-> v]

(* the same geometry if it had another length *)
Redisp(g, len) ==
  IF Abs(len - g.disp.len) <= 2 + g.disp.len \div 1000000 THEN g.disp
  ELSE IF len <= 0 THEN [u |-> 0, v |-> 0, t |-> 0, len |-> len]
  ELSE IF g.kind = "line" THEN LineDisp(len)
  ELSE IF \E r \in {g.r0, g.r1} : r # 0 /\ len \div 20 > Abs(r) THEN [u |-> len, v |-> 0, t |-> 0, len |-> len]  \* absurd
  ELSE IF g.kind = "arc" THEN ArcDisp(g.r0, len)
  ELSE IF g.kind = "spiral" THEN SpiralDisp(g.r0, g.r1, len)
  ELSE [g.disp EXCEPT !.len = len]

ArcByAngle(k, r, ang) == LET len == ArcLenOfAngle(r, ang)
                         IN  GeoArc(k, r, len, Curve(len, Sgn(r) * Abs(ang), 0))
ArcGeo(c) == IF c.ha THEN ArcByAngle(c.k, c.r, c.ang) ELSE GeoArc(c.k, c.r, c.len, ArcDisp(c.r, c.len))
SpiralByAngle(k0, k1, r0, r1, ang) == LET len == SpiralLenOfAngle(r0, r1, ang)
                                      IN  GeoSpiral(k0, k1, r0, r1, len, SpiralTurnDisp(r0, r1, len, ang))
SpiralGeo(c) == IF c.ha THEN SpiralByAngle(c.k0, c.k1, c.r0, c.r1, c.ang)
                ELSE LET len == IF c.hc THEN c.rl ELSE c.len
                     IN  GeoSpiral(c.k0, c.k1, c.r0, c.r1, len, SpiralDisp(c.r0, c.r1, len))
PolyLen(c) == IF c.pr = "arcLength" THEN c.len ELSE PolyLength(c.u, c.v)

ArcErrors(c) == (IF ~c.hl /\ ~c.ha THEN {"NotEnoughInputArguments"} ELSE {})
                \cup (IF c.hl /\ c.ha THEN {"ToManyOptionalArguments"} ELSE {})
                \cup (IF c.r = 0 /\ ~Has(c, "flat") THEN {"ValueError"} ELSE {})
Count3(a, b, c) == (IF a THEN 1 ELSE 0) + (IF b THEN 1 ELSE 0) + (IF c THEN 1 ELSE 0)
SpiralErrors(c) == LET n == Count3(c.hl, c.ha, c.hc)
                   IN  IF n = 0 THEN {"NotEnoughInputArguments"}
                       ELSE IF n > 1 THEN {"ToManyOptionalArguments"} ELSE {}
PolyErrors(c) == IF c.pr = "arcLength" /\ ~c.hl THEN {"ValueError"} ELSE {}
PlanErrors(c) == LET n == Count3(c.gx, c.gy, c.gh)
                 IN  IF n \in {1, 2} THEN {"NotEnoughInputArguments"} ELSE {}

(* usable: extent is well defined and non-zero (zero extents are only constructed) *)
ArcUsable(c) == (c.hl /\ c.len > 0) \/ (c.ha /\ c.ang # 0)
SpiralUsable(c) == (c.hl /\ c.len > 0) \/ (c.ha /\ c.ang # 0 /\ c.r0 # -c.r1) \/ (c.hc /\ c.rl > 0)

ExactOf(c) == IF Has(c, "st") THEN c.st ELSE <<>>      \* the texts of x, y, heading, where recorded
NoHd == [has |-> FALSE, h |-> 0]
NewPlan(fixed, start) == [gs |-> <<>>, hds |-> <<>>, fixed |-> fixed, start |-> start, dir |-> "raw", at |-> Origin, st |-> <<>>, att |-> <<>>]
PlanDisps(st, p) == [i \in 1 .. Len(st.plan[p].gs) |-> st.geo[st.plan[p].gs[i]].disp]

-------------------------------------------------------------------------------
(* marks, lanes, sections *)
NoMark == [has |-> FALSE, user |-> FALSE]
MarkRec(c) == [has |-> TRUE, user |-> TRUE, type |-> c.type, width |-> c.width, length |-> c.length, space |-> c.space,
               toffset |-> c.toffset, soffset |-> c.soffset, height |-> c.height, rule |-> c.rule,
               color |-> c.color, weight |-> c.weight, change |-> c.change]
StdMark(type) == [has |-> TRUE, user |-> FALSE, type |-> type, width |-> "0.2", length |-> "~", space |-> "~", toffset |-> "~",
                  soffset |-> "~", height |-> "~", rule |-> "~", color |-> "~", weight |-> "~", change |-> "~"]

NewLane(type, a, b, c, d, so, mark) ==
  [type |-> type, a |-> a, b |-> b, c |-> c, d |-> d, so |-> so, mark |-> mark,
   lid |-> "none", num |-> 0, llinks |-> <<>>, mlinks |-> <<>>, alinks |-> {}]
SimpleLane(a, mark) == NewLane("driving", a, Zero, Zero, Zero, Zero, mark)
Three == Num("3.0", 30000)

NewSec(s, c) == [s |-> s, c |-> c, left |-> <<>>, right |-> <<>>]

SetId(st, l, n) == [st EXCEPT !.lane = Put(@, l, [st.lane[l] EXCEPT !.lid = ToString(n), !.num = n])]
AddLeft(st, s, l) == LET x == SetId(st, l, Len(st.sec[s].left) + 1)
                     IN  [x EXCEPT !.sec[s].left = Append(@, l)]
AddRight(st, s, l) == LET x == SetId(st, l, -(Len(st.sec[s].right) + 1))
                      IN  [x EXCEPT !.sec[s].right = Append(@, l)]
LaneAt(st, s, n) == IF n > 0 THEN st.sec[s].left[n] ELSE IF n < 0 THEN st.sec[s].right[-n] ELSE st.sec[s].c

(* handing over a linker applies its pairs that were not applied before *)
ApplyPair(st, k, i) ==
  LET p == st.lnk[k][i]
  IN  IF p.used THEN st
      ELSE [st EXCEPT
             !.lnk[k][i].used = TRUE,
             !.lane[p.p].llinks = Append(@, [tag |-> "successor", id |-> st.lane[p.s].lid]),
             !.lane[p.s].llinks = Append(@, [tag |-> "predecessor", id |-> st.lane[p.p].lid])]
RECURSIVE ApplyLinker(_, _, _)
ApplyLinker(st, k, i) == IF i > Len(st.lnk[k]) THEN st ELSE ApplyLinker(ApplyPair(st, k, i), k, i + 1)
ApplyLinkers(st, ks) == FoldSeq_(LAMBDA s, k : ApplyLinker(s, k, 1), st, ks)

-------------------------------------------------------------------------------
(* roads *)
NoRoadLink == [has |-> FALSE, et |-> "~", id |-> "~", cp |-> "~", off |-> 0]
NewRoad(id, type, name, rule, plan, lns, origin) ==
  [id |-> id, type |-> type, name |-> name, rule |-> rule, plan |-> plan, lns |-> lns,
   links |-> <<>>, pred |-> NoRoadLink, succ |-> NoRoadLink, neigh |-> 0,
   sigs |-> <<>>, objs |-> <<>>, sides |-> <<>>, origin |-> origin]

LinkAt(et, id, cp) == [elementType |-> et, elementId |-> id]
                      @@ (IF cp = "~" THEN NoFun ELSE [contactPoint |-> cp])
RoadLink(tag, c) == [tag |-> tag, at |-> LinkAt(c.et, c.id, c.cp)]
WithSucc(st, r, l, off) == [st EXCEPT
   !.road[r].succ = [has |-> TRUE, et |-> l.et, id |-> l.id, cp |-> l.cp, off |-> off],
   !.road[r].links = Append(@, RoadLink("successor", l))]
WithPred(st, r, l, off) == [st EXCEPT
   !.road[r].pred = [has |-> TRUE, et |-> l.et, id |-> l.id, cp |-> l.cp, off |-> off],
   !.road[r].links = Append(@, RoadLink("predecessor", l))]

(* the network the adjustment sees *)
AbsLink(l) == [has |-> l.has, road |-> l.has /\ l.et = "road", id |-> l.id, cp |-> l.cp, off |-> l.off]
AbsRoad(st, r) ==
  LET d == st.road[r]
      p == st.plan[d.plan]
      ss == st.lns[d.lns]
  IN  [id |-> d.id, conn |-> d.type # "-1", fixed |-> p.fixed, start |-> p.start,
       pred |-> AbsLink(d.pred), succ |-> AbsLink(d.succ),
       nl |-> [k \in 1 .. Len(ss) |-> Len(st.sec[ss[k]].left)],
       nr |-> [k \in 1 .. Len(ss) |-> Len(st.sec[ss[k]].right)],
       disps |-> PlanDisps(st, d.plan)]
AbsNet(st, n) == [i \in 1 .. Len(st.net[n].roads) |-> AbsRoad(st, st.net[n].roads[i])]

AdjustErrors(st, n) ==
  LET net == AbsNet(st, n)
  IN  (IF AllReached(net) THEN {} ELSE {"UndefinedRoadNetwork"})
      \cup (IF LaneCountError(net) THEN {"NotSameAmountOfLanesError"} ELSE {})

RECURSIVE PutAll(_, _)
PutAll(st, S) ==
  IF S = {} THEN st
  ELSE LET x == CHOOSE y \in S : TRUE
       IN  PutAll([st EXCEPT !.lane[x.h].alinks = @ \cup {[tag |-> x.tag, id |-> ToString(x.to), why |-> x.why]}],
                  S \ {x})
LinksAmong(st, rs) ==                          \* lane links of a set of roads, taken as a network
  LET net == [i \in 1 .. Len(rs) |-> AbsRoad(st, rs[i])]
      H(x) == LaneAt(st, st.lns[st.road[rs[x.road]].lns][x.sec], x.lane)
  IN  {[h |-> H(x), tag |-> x.tag, to |-> x.to, why |-> "road"] : x \in RoadLaneLinks(net)}
      \cup {[h |-> H(x), tag |-> x.tag, to |-> x.to, why |-> "conn"] : x \in ConnLaneLinks(net)}

RECURSIVE MarkPlans(_, _, _)
MarkPlans(st, rs, k) ==
  IF k > Len(rs) THEN st
  ELSE MarkPlans([st EXCEPT !.plan[st.road[rs[k]].plan].dir = "net"], rs, k + 1)
AdjustLinks(st, n) == LinksAmong(st, st.net[n].roads)
EffPlace(st, n) == [MarkPlans(st, st.net[n].roads, 1) EXCEPT !.net[n].state = "placed", !.apart = TRUE]
(* linking the lanes of two roads on their own *)
MatchErrors(st, a, b) == IF LaneCountError(<<AbsRoad(st, a), AbsRoad(st, b)>>) THEN {"NotSameAmountOfLanesError"} ELSE {}
EffMatch(st, a, b) == [PutAll(st, LinksAmong(st, <<a, b>>)) EXCEPT !.apart = TRUE]
EffAdjust(st, n) == LET a == PutAll(st, AdjustLinks(st, n))
                    IN  [MarkPlans(a, st.net[n].roads, 1) EXCEPT !.net[n].state = "adjusted"]

Adjusted(st, r) == st.plan[st.road[r].plan].dir # "raw"

-------------------------------------------------------------------------------
(* signals and objects *)
SigRec(c) == [id |-> c.id, s |-> c.s, t |-> c.t, cnt |-> c.cntU, type |-> c.type, sub |-> c.sub, name |-> c.name,
              unit |-> c.unit, dyn |-> c.dyn, ori |-> c.ori, zo |-> c.zo, ho |-> c.ho, pitch |-> c.pitch,
              roll |-> c.roll, height |-> c.height, width |-> c.width, value |-> c.value, got |-> "~"]
ObjRec(c) == [id |-> c.id, s |-> c.s, t |-> c.t, type |-> c.type, typeE |-> c.typeE, sub |-> c.sub, name |-> c.name,
              dyn |-> c.dyn, ori |-> c.ori, zo |-> c.zo, hdg |-> c.hdg, pitch |-> c.pitch, roll |-> c.roll,
              width |-> c.width, length |-> c.length, height |-> c.height, radius |-> c.radius, vl |-> c.vl,
              reps |-> <<>>, got |-> "~"]
RepKeys == {"s", "tStart", "tEnd", "heightStart", "heightEnd", "zOffsetStart", "zOffsetEnd"}
RepBase(o, k) == CASE k = "s" -> o.s.s
                   [] k \in {"tStart", "tEnd"} -> o.t.s
                   [] k \in {"heightStart", "heightEnd"} -> OrS(o.height, "0.0")
                   [] OTHER -> OrS(o.zo, "0.0")
RepRec(o, c) ==
  [k \in {"length", "distance"} \cup RepKeys \cup {x \in DOMAIN c.a : Given(c.a[x])} |->
     IF k = "length" THEN c.len
     ELSE IF k = "distance" THEN c.dist
     ELSE IF Has(c.a, k) /\ Given(c.a[k]) THEN c.a[k]
     ELSE RepBase(o, k)]

(* ids: uniqueness and respect for what was asked for *)
RECURSIVE IdsOk(_, _, _)
IdsOk(used, asked, got) ==
  IF asked = <<>> THEN got = <<>>
  ELSE /\ got # <<>>
       /\ Head(got) \notin used
       /\ Head(got) # "None"
       /\ (Given(Head(asked)) /\ Head(asked) \notin used) => Head(got) = Head(asked)
       /\ IdsOk(used \cup {Head(got)}, Tail(asked), Tail(got))
SeqSet(s) == {s[i] : i \in 1 .. Len(s)}

RECURSIVE SetGot(_, _, _)
SetGot(f, hs, ids) == IF hs = <<>> \/ ids = <<>> THEN f
                      ELSE SetGot([f EXCEPT ![Head(hs)].got = Head(ids)], Tail(hs), Tail(ids))

(* roadside copies: one per section and side, in the order section, left before right *)
WidthOf(st, hs) == FoldSeq_(LAMBDA a, l : a + st.lane[l].a.q, 0, hs)
SideOf(c) == OrS(c.side, "both")
SideCopies(st, c) ==
  LET ss == st.lns[st.road[c.r].lns]
      so == Or(c.so, Zero).q
      to == Or(c.to, Zero).q
      total == TotalLen(PlanDisps(st, st.road[c.r].plan))
      One_(s, left) ==
        LET w == (IF left THEN WidthOf(st, st.sec[s].left) ELSE WidthOf(st, st.sec[s].right)) + to
            at == so + st.sec[s].s.q
        IN  [s |-> at, t |-> IF left THEN w ELSE -w, h |-> IF left THEN 31416 ELSE 0, len |-> total - at]
      Both(s) == (IF SideOf(c) # "right" THEN <<One_(s, TRUE)>> ELSE <<>>)
                 \o (IF SideOf(c) # "left" THEN <<One_(s, FALSE)>> ELSE <<>>)
  IN  FoldSeq_(LAMBDA acc, s : acc \o Both(s), <<>>, ss)
RoadObjIds(st, r) == {st.obj[o].got : o \in SeqSet(st.road[r].objs)}
                     \cup UNION {SeqSet(x.ids) : x \in SeqSet(st.road[r].sides)}
NewIds(st, c) == SelectSeq(c.ids, LAMBDA i : i \notin RoadObjIds(st, c.r))
EffSide(st, c) ==
  [st EXCEPT !.road[c.r].sides = Append(@, [proto |-> st.obj[c.o], copies |-> SideCopies(st, c),
                                            dist |-> c.dist.s, ids |-> NewIds(st, c)]),
             !.objIds = @ \cup SeqSet(c.ids)]

-------------------------------------------------------------------------------
(* generated roads.  Inner objects get handles derived from the road's.       *)
GenGeos(st, h, geos) ==                       \* geos: sequence of geometry records
  LET hs == [i \in 1 .. Len(geos) |-> h \o ".g" \o ToString(i)]
      m  == [x \in SeqSet(hs) |-> geos[CHOOSE i \in 1 .. Len(hs) : hs[i] = x]]
  IN  [st EXCEPT !.geo = m @@ @, !.plan = Put(@, h \o ".pv", [NewPlan(FALSE, Origin) EXCEPT !.gs = hs, !.hds = [i \in 1 .. Len(hs) |-> NoHd]])]

RECURSIVE GenLanes(_, _, _, _, _, _)
GenLanes(st, h, side, n, i, mk) ==            \* mk[i]: lane i of that side
  IF i > n THEN st
  ELSE LET l == h \o "." \o side \o ToString(i)
           x == [st EXCEPT !.lane = Put(@, l, mk[i])]
       IN  GenLanes(IF side = "l" THEN AddLeft(x, h \o ".s0", l) ELSE AddRight(x, h \o ".s0", l), h, side, n, i + 1, mk)

GenLaneSec(st, h, centre, left, right) ==
  LET a == [st EXCEPT !.lane = Put(@, h \o ".c", centre),
                      !.sec = Put(@, h \o ".s0", NewSec(Zero, h \o ".c")),
                      !.lns = Put(@, h \o ".ln", <<h \o ".s0">>)]
      b == SetId(a, h \o ".c", 0)
      c == GenLanes(b, h, "l", Len(left), 1, left)
  IN  GenLanes(c, h, "r", Len(right), 1, right)

GenRoadRec(st, h, id, type, origin) ==
  [st EXCEPT !.road = Put(@, h, NewRoad(id, type, "~", "~", h \o ".pv", h \o ".ln", origin))]

(* free-form: outermost lanes solid, inner ones broken, the centre as given *)
EdgeLanes(n, w) == [i \in 1 .. n |-> SimpleLane(w, StdMark(IF i = n THEN "solid" ELSE "broken"))]
EffGenRoad(st, c) ==
  LET w  == Or(c.w, Three)
      nl == IF c.left >= 0 THEN c.left ELSE 1
      nr == IF c.right >= 0 THEN c.right ELSE 1
      cm == IF c.cm = "~" THEN StdMark("solid") ELSE st.mark[c.cm]
      a  == [st EXCEPT !.plan = Put(@, c.h \o ".pv", [NewPlan(FALSE, Origin) EXCEPT !.gs = c.gs, !.hds = [i \in 1 .. Len(c.gs) |-> NoHd]])]
      b  == GenLaneSec(a, c.h, SimpleLane(Zero, cm), EdgeLanes(nl, w), EdgeLanes(nr, w))
  IN  GenRoadRec(b, c.h, c.id, OrS(c.type, "-1"), "free")

(* straight and spiral-arc-spiral: n lanes on each side, all marks broken *)
PlainLanes(n, w) == [i \in 1 .. n |-> SimpleLane(w, StdMark("broken"))]
PlainRoad(st, h, id, type, n, w, geos, origin) ==
  LET a == GenGeos(st, h, geos)
      b == GenLaneSec(a, h, SimpleLane(Three, StdMark("broken")), PlainLanes(n, w), PlainLanes(n, w))
  IN  GenRoadRec(b, h, id, type, origin)

EffGenStraight(st, c) ==
  PlainRoad(st, c.h, c.id, OrS(c.type, "-1"), IF c.n >= 0 THEN c.n ELSE 1, Or(c.w, Three),
            <<GeoLine(Or(c.len, Num("100.0", 1000000)).q)>>, "gen")

(* r: signed radius; arc, cloth: angles; r0: radius of the spirals' outer ends *)
ClothGeos(r, arc, cloth, r0, k, kn, k0, k0n) ==
  LET flip == cloth < 0 /\ r > 0
      R == IF flip THEN -r ELSE r
      R0 == IF flip THEN -r0 ELSE r0
      K == IF flip THEN kn ELSE k
      K0 == IF flip THEN k0n ELSE k0
  IN  <<SpiralByAngle(K0, K, R0, R, cloth), ArcByAngle(K, R, arc), SpiralByAngle(K, K0, R, R0, cloth)>>
EffGenCloth(st, c) ==
  PlainRoad(st, c.h, c.id, OrS(c.type, "1"), IF c.n >= 0 THEN c.n ELSE 1, Or(c.w, Three),
            ClothGeos(c.r, c.arc, c.cloth, c.k0, c.k, c.kn, c.k0s, c.k0n), "gen")

(* junction roads: one per pair of arms i < j *)
Third == 33333333
Degrees(a) == LET d == a % 360 IN  RoundDiv(d * 1745329, 1) + RoundDiv(d * 2520, 10000)   \* in ru
ArmPairs(n) == LET RECURSIVE P(_, _)
                   P(i, j) == IF i >= n THEN <<>> ELSE IF j > n THEN P(i + 1, i + 2) ELSE <<<<i, j>>>> \o P(i, j + 1)
               IN  P(1, 2)
TouchSec(st, r, cp) == LET ss == st.lns[st.road[r].lns] IN IF cp = "end" THEN ss[Len(ss)] ELSE ss[1]
ArmCp(i) == IF i = 1 THEN "end" ELSE "start"
ArmsDiffer(st, rs) ==
  \E i, j \in 1 .. Len(rs) : i < j /\
     LET a == st.sec[TouchSec(st, rs[i], ArmCp(i))]
         b == st.sec[TouchSec(st, rs[j], "start")]
     IN  Len(a.left) # Len(b.left) \/ Len(a.right) # Len(b.right)
CrossLength(r, part) ==                        \* straight road through the crossing
  LET ac == MulF(HalfPi, part)
      d  == SpiralDisp(0, r, 2 * MulF(r, ac))
      cs == CosSin(ac)
      x0 == d.u - MulF(r, cs[2])
      y0 == d.v - (r - MulF(r, cs[1]))
  IN  2 * (x0 + r + y0)
JrPart(c) == IF c.sp >= 0 THEN c.sp ELSE Third
JrArc(c) == IF c.sp >= 0 THEN c.ap ELSE Third
RECURSIVE EffJr(_, _, _, _)
EffJr(st, c, ps, k) ==
  IF k > Len(ps) THEN st
  ELSE LET i == ps[k][1]
           j == ps[k][2]
           h == c.h \o "." \o ToString(k - 1)
           turn == Degrees(c.angs[j] - c.angs[i]) - PiR
           sec == st.sec[TouchSec(st, c.roads[i], ArmCp(i))]
           geos == IF c.angs[j] - c.angs[i] = 180
                   THEN <<GeoLine(CrossLength(c.rad, JrPart(c)))>>
                   ELSE ClothGeos(c.rad, MulF(turn, JrArc(c)), MulF(turn, JrPart(c)), 0, c.k, c.kn, "1e-09", "-1e-09")
           a == PlainRoad(st, h, ToString((IF c.start >= 0 THEN c.start ELSE 100) + k - 1), OrS(c.jid, "1"),
                          Len(sec.left), st.lane[sec.left[1]].a, geos, "junc")
           b == WithPred(a, h, [et |-> "road", id |-> st.road[c.roads[i]].id, cp |-> ArmCp(i)], 0)
       IN  EffJr(WithSucc(b, h, [et |-> "road", id |-> st.road[c.roads[j]].id, cp |-> "start"], 0), c, ps, k + 1)
EffGenJR(st, c) ==
  LET n == Len(c.roads)
      jl == [et |-> "junction", id |-> OrS(c.jid, "1"), cp |-> "~"]
      a == EffJr(st, c, ArmPairs(n), 1)
      RECURSIVE Arms(_, _)
      Arms(x, i) == IF i > n THEN x
                    ELSE Arms(IF i = 1 THEN WithSucc(x, c.roads[1], jl, 0) ELSE WithPred(x, c.roads[i], jl, 0), i + 1)
  IN  Arms(a, 1)

(* a junction created from connecting roads: its connections as a set *)
GenJTable(st, c) ==
  UNION {LET d == st.road[r]
             ss == st.lns[d.lns]
             Row(w, l, s, cp) ==
               [inc |-> l.id, con |-> d.id, cp |-> cp,
                ll |-> {<<LaneOn(w, l, x), x>> :
                          x \in (1 .. Len(st.sec[s].left)) \cup {-y : y \in 1 .. Len(st.sec[s].right)}}]
         IN  {Row("succ", d.succ, ss[Len(ss)], "end"), Row("pred", d.pred, ss[1], "start")}
         : r \in SeqSet(c.jr)}

-------------------------------------------------------------------------------
(* which outcomes are allowed *)
OutsOk(errs) == IF errs = {} THEN {"ok"} ELSE errs

Outs(st, c) ==
  CASE c.op = "Arc" -> OutsOk(ArcErrors(c))
    [] c.op = "Spiral" -> OutsOk(SpiralErrors(c))
    [] c.op = "Poly" -> OutsOk(PolyErrors(c))
    [] c.op = "Plan" -> OutsOk(PlanErrors(c))
    [] c.op = "Succ" -> IF st.road[c.r].succ.has THEN {"ValueError"} ELSE {"ok"}
    [] c.op = "Pred" -> IF st.road[c.r].pred.has THEN {"ValueError"} ELSE {"ok"}
    [] c.op = "Neigh" -> IF c.dir = "~" \/ st.road[c.r].neigh >= 2 THEN {"ValueError"} ELSE {"ok"}
    [] c.op = "Side" -> IF Adjusted(st, c.r) THEN {"ok"} ELSE {"RoadsAndLanesNotAdjusted"}
    [] c.op = "Adjust" -> OutsOk(AdjustErrors(st, c.n))
    [] c.op = "Place" -> OutsOk(IF AllReached(AbsNet(st, c.n)) THEN {} ELSE {"UndefinedRoadNetwork"})
    [] c.op = "Match" -> OutsOk(MatchErrors(st, c.a, c.b))
    [] c.op = "GenJR" -> IF ArmsDiffer(st, c.roads) THEN {"NotSameAmountOfLanesError"} ELSE {"ok"}
    [] OTHER -> {"ok"}

(* what a successful call changes *)
Eff(st, c) ==
  CASE c.op = "Line" -> [st EXCEPT !.geo = Put(@, c.h, [GeoLine(c.len.q) EXCEPT !.lt = c.len.s])]
    [] c.op = "Arc" -> IF ArcUsable(c) THEN [st EXCEPT !.geo = Put(@, c.h, ArcGeo(c))] ELSE st
    [] c.op = "Spiral" -> IF SpiralUsable(c)
                          THEN [st EXCEPT !.geo = Put(@, c.h, SpiralGeo(c))] ELSE st
    [] c.op = "Poly" -> [st EXCEPT !.geo = Put(@, c.h, GeoPoly(c.at @@ [pRange |-> c.pr], c.u, c.v, PolyLen(c)))]
    [] c.op = "Plan" -> [st EXCEPT !.plan = Put(@, c.h, [NewPlan(c.gx, Pose(c.x, c.y, Wrap(c.hd))) EXCEPT !.st = ExactOf(c)])]
    [] c.op = "PSet" -> [st EXCEPT !.plan[c.p].start = Pose(c.x, c.y, Wrap(c.hd)), !.plan[c.p].st = ExactOf(c)]
    [] c.op = "PGeo" -> [st EXCEPT !.plan[c.p].gs = Append(@, c.g),
                                   !.plan[c.p].hds = Append(@, IF Has(c, "hd") THEN [has |-> TRUE, h |-> Wrap(c.hd)] ELSE NoHd)]
    [] c.op = "PAdj" -> [st EXCEPT !.plan[c.p].dir = IF c.back THEN "back" ELSE "fwd",
                                   !.plan[c.p].att = IF c.set THEN ExactOf(c) ELSE st.plan[c.p].st,
                                   !.plan[c.p].at = IF c.set THEN Pose(c.x, c.y, Wrap(c.hd)) ELSE st.plan[c.p].start]
    [] c.op = "Mark" -> [st EXCEPT !.mark = Put(@, c.h, MarkRec(c))]
    [] c.op = "Lane" -> [st EXCEPT !.lane = Put(@, c.h, NewLane(OrS(c.type, "driving"), Or(c.a, Zero), Or(c.b, Zero),
                                                   Or(c.c, Zero), Or(c.d, Zero), Or(c.so, Zero), NoMark))]
    [] c.op = "StdLane" -> [st EXCEPT !.lane = Put(@, c.h, SimpleLane(Or(c.a, Three),
                                                   IF c.m = "~" THEN StdMark("broken") ELSE st.mark[c.m]))]
    [] c.op = "LLink" -> [st EXCEPT !.lane[c.l].mlinks = Append(@, [tag |-> c.tag, id |-> ToString(c.id)])]
    [] c.op = "LMark" -> [st EXCEPT !.lane[c.l].mark = st.mark[c.m]]
    [] c.op = "Sec" -> SetId([st EXCEPT !.sec = Put(@, c.h, NewSec(c.s, c.c))], c.c, 0)
    [] c.op = "AddL" -> AddLeft(st, c.s, c.l)
    [] c.op = "AddR" -> AddRight(st, c.s, c.l)
    [] c.op = "Lanes" -> [st EXCEPT !.lns = Put(@, c.h, <<>>)]
    [] c.op = "Linker" -> [st EXCEPT !.lnk = Put(@, c.h, <<>>)]
    [] c.op = "LPair" -> [st EXCEPT !.lnk[c.k] = Append(@, [p |-> c.p, s |-> c.s, used |-> FALSE])]
    [] c.op = "AddSec" -> [ApplyLinkers(st, c.ks) EXCEPT !.lns[c.n] = Append(@, c.s)]
    [] c.op = "Road" -> [st EXCEPT !.road = Put(@, c.h, NewRoad(c.id, OrS(c.type, "-1"), c.name, c.rule, c.plan, c.lanes, "user"))]
    [] c.op = "Succ" -> WithSucc(st, c.r, c, c.off)
    [] c.op = "Pred" -> WithPred(st, c.r, c, c.off)
    [] c.op = "Neigh" -> [st EXCEPT !.road[c.r].neigh = @ + 1,
                            !.road[c.r].links = Append(@, [tag |-> "neighbor",
                               at |-> [elementType |-> c.et, elementId |-> c.id, direction |-> c.dir]])]
    [] c.op = "Sig" -> [st EXCEPT !.sig = Put(@, c.h, SigRec(c))]
    [] c.op = "Obj" -> [st EXCEPT !.obj = Put(@, c.h, ObjRec(c))]
    [] c.op = "Rep" -> [st EXCEPT !.obj[c.o].reps = Append(@, RepRec(st.obj[c.o], c))]
    [] c.op = "AddSig" -> [st EXCEPT !.sig = SetGot(@, c.xs, c.ids), !.sigIds = @ \cup SeqSet(c.ids),
                                     !.road[c.r].sigs = @ \o c.xs]
    [] c.op = "AddObj" -> [st EXCEPT !.obj = SetGot(@, c.xs, c.ids), !.objIds = @ \cup SeqSet(c.ids),
                                     !.road[c.r].objs = @ \o c.xs]
    [] c.op = "Side" -> EffSide(st, c)
    [] c.op = "Net" -> [st EXCEPT !.net = Put(@, c.h, [name |-> c.name, roads |-> <<>>, juncs |-> <<>>, state |-> "open"])]
    [] c.op = "AddRoad" -> [st EXCEPT !.net[c.n].roads = Append(@, c.r)]
    [] c.op = "AddJunc" -> [st EXCEPT !.net[c.n].juncs = Append(@, c.j)]
    [] c.op = "Junc" -> [st EXCEPT !.junc = Put(@, c.h, [name |-> c.name, id |-> c.id, gen |-> FALSE, conns |-> <<>>, table |-> {}])]
    [] c.op = "Conn" -> [st EXCEPT !.conn = Put(@, c.h, [id |-> c.id, inc |-> c.inc, con |-> c.con, cp |-> c.cp, ll |-> <<>>, got |-> "~"])]
    [] c.op = "CLink" -> [st EXCEPT !.conn[c.c].ll = Append(@, [from |-> c.fs, to |-> c.ts])]
    [] c.op = "AddConn" -> [st EXCEPT !.junc[c.j].conns = Append(@, c.c), !.conn[c.c].got = c.got]
    [] c.op = "Adjust" -> EffAdjust(st, c.n)
    [] c.op = "Place" -> EffPlace(st, c.n)
    [] c.op = "Match" -> EffMatch(st, c.a, c.b)
    [] c.op = "GenRoad" -> EffGenRoad(st, c)
    [] c.op = "GenStraight" -> EffGenStraight(st, c)
    [] c.op = "GenCloth" -> EffGenCloth(st, c)
    [] c.op = "GenJR" -> EffGenJR(st, c)
    [] c.op = "GenJ" -> [st EXCEPT !.junc = Put(@, c.h, [name |-> "~", id |-> c.id, gen |-> TRUE, conns |-> <<>>, table |-> GenJTable(st, c)])]
    [] OTHER -> st
=============================================================================
