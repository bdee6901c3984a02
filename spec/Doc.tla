---------------------------------- MODULE Doc ----------------------------------
(* What the library must show of a state: the exported document and the other *)
(* observations, clause by clause.  Every operator yields the set of violated *)
(* clauses; a clause is named by the property that states it.                 *)
EXTENDS OdrLib

V(ok, owners, text) == IF ok THEN {} ELSE {o \o ":" \o text : o \in owners}

AtEq(o, e) == DOMAIN o = DOMAIN e /\ \A k \in DOMAIN e : o[k] = e[k]
Opt(k, v) == IF v = "~" THEN NoFun ELSE (k :> v)
OptNZ(k, v) == IF NonZero(v) THEN (k :> v) ELSE NoFun
RECURSIVE CountIn(_, _, _)
CountIn(s, x, k) == IF k > Len(s) THEN 0 ELSE (IF s[k] = x THEN 1 ELSE 0) + CountIn(s, x, k + 1)
Count(s, x) == CountIn(s, x, 1)

Fld(at, k) == IF k \in DOMAIN at THEN at[k] ELSE "no " \o k

SetV(F(_), S) == UNION {F(x) : x \in S}

(* OpenDRIVE spelling of enumeration members *)
Spell(n) ==
  CASE n = "no_passing" -> "no passing"
    [] n = "solid_solid" -> "solid solid"
    [] n = "solid_broken" -> "solid broken"
    [] n = "broken_solid" -> "broken solid"
    [] n = "broken_broken" -> "broken broken"
    [] n = "botts_dots" -> "botts dots"
    [] n = "positive" -> "+"
    [] n = "negative" -> "-"
    [] OTHER -> n

PosTol(len) == 25 + len \div 200000
LenTol(g) == IF g.kind = "paramPoly3" THEN 20 + g.disp.len \div 5000 ELSE 5 + g.disp.len \div 1000000
HTol == 500

-------------------------------------------------------------------------------
(* road marks (C17) *)
HasLine(m) == NonZero(m.length) \/ NonZero(m.space) \/ NonZero(m.toffset) \/ Given(m.rule)
NZOr(s, d) == IF NonZero(s) THEN s ELSE d
MarkWidth(m) == IF HasLine(m) THEN NZOr(m.width, "0.2") ELSE m.width
MarkAt(m) == [sOffset |-> OrS(m.soffset, "0.0"), type |-> Spell(m.type), weight |-> Spell(OrS(m.weight, "standard")),
              color |-> Spell(OrS(m.color, "standard")), height |-> OrS(m.height, "0.02")]
             @@ Opt("width", MarkWidth(m))
             @@ (IF Given(m.change) THEN [laneChange |-> Spell(m.change)] ELSE NoFun)
LineAt(m) == [length |-> NZOr(m.length, IF m.type \in {"broken", "solid"} THEN "3.0" ELSE "0.0"),
              space |-> NZOr(m.space, IF m.type = "broken" THEN "3.0" ELSE "0.0"),
              tOffset |-> NZOr(m.toffset, "0.0"), width |-> MarkWidth(m), sOffset |-> OrS(m.soffset, "0.0"),
              rule |-> Spell(OrS(m.rule, "none"))]
OwnLineAt(e) == [length |-> OrS(e.length, "0.0"), space |-> OrS(e.space, "0.0"), tOffset |-> OrS(e.toffset, "0.0"), width |-> OrS(e.width, "0.0"),
                 sOffset |-> OrS(e.soffset, "0.0")] @@ (IF Given(e.rule) THEN [rule |-> Spell(e.rule)] ELSE NoFun)
MarkBad(m, d, extra) ==
  V(AtEq(d.at, MarkAt(m)), {"C12", "C17"} \cup extra, "road mark attributes")
  \cup (IF HasLine(m)
        THEN IF Len(d.types) = 1 /\ Len(d.tags) = 1 /\ Len(d.types[1].lines) = 1 /\ Len(d.types[1].tags) = 1
             THEN V(AtEq(d.types[1].at, [name |-> Spell(m.type), width |-> MarkWidth(m)]), {"C17"} \cup extra, "road mark type element")
                  \cup V(AtEq(d.types[1].lines[1], LineAt(m)), {"C17"} \cup extra, "road mark line")
             ELSE V(FALSE, {"C17"} \cup extra, "road mark without its line")
        ELSE V(d.tags = <<>>, {"C17"} \cup extra, "road mark with a line nobody asked for"))

-------------------------------------------------------------------------------
(* lanes (C04, C05, C06, C07) *)
LinkKeys(s) == [i \in 1 .. Len(s) |-> [tag |-> s[i].tag, id |-> Fld(s[i].at, "id")]]
LaneLinksBad(st, l, d, conn, adjusted) ==
  LET lane == st.lane[l]
      ok   == \A i \in 1 .. Len(d.links) : DOMAIN d.links[i].at = {"id"}
      obs  == LinkKeys(d.links)
      adj  == {[tag |-> x.tag, id |-> x.id] : x \in lane.alinks}
      Want(x) == Count(lane.llinks, x) + Count(lane.mlinks, x) + (IF x \in adj THEN 1 ELSE 0)
      Missing(x) == Count(obs, x) < Want(x)
      many == \E x \in SeqSet(obs) : Count(obs, x) > Want(x)
      Apart == IF st.apart THEN {"C23"} ELSE {}
      extraOwn == (IF adjusted THEN (IF conn THEN {"C05"} ELSE {"C04"}) ELSE {"C06"})
                  \cup (IF DOMAIN st.lnk # {} THEN {"C06"} ELSE {}) \cup Apart
  IN  IF ~ok THEN V(FALSE, {"C12"} \cup extraOwn, "lane link attributes")
      ELSE V(~\E x \in lane.alinks : x.why = "road" /\ Missing([tag |-> x.tag, id |-> x.id]), {"C04"} \cup Apart, "lane of a road not linked to its continuation")
           \cup V(~\E x \in lane.alinks : x.why = "conn" /\ Missing([tag |-> x.tag, id |-> x.id]), {"C05"} \cup Apart, "lane of a connecting road not linked to its continuation")
           \cup V(~\E x \in SeqSet(lane.llinks) : Missing(x), {"C06"}, "lane pair of a linker not linked")
           \cup V(~\E x \in SeqSet(lane.mlinks) : Missing(x), {"C12"}, "link given to a lane")
           \cup V(~many, extraOwn \cup (IF lane.mlinks # <<>> THEN {"C12"} ELSE {}), "unexpected or repeated lane link")

WidthAt(l) == [a |-> l.a.s, b |-> l.b.s, c |-> l.c.s, d |-> l.d.s, sOffset |-> l.so.s]
LaneBad(st, l, d, origin, conn, adjusted, centre) ==
  LET lane == st.lane[l]
      extra == IF origin \in {"free", "gen"} THEN {"C20"} ELSE IF origin = "junc" THEN {"C18"} ELSE {}
      user == origin = "user"
  IN  V(DOMAIN d.at = {"id", "type", "level"} /\ Fld(d.at, "level") = "false", {"C12"}, "lane attributes")
      \cup V(Fld(d.at, "type") = Spell(lane.type), {"C07", "C12"} \cup extra, "lane type")
      \cup (IF centre /\ ~user THEN {}
            ELSE V(Len(d.width) = 1 /\ AtEq(d.width[1], WidthAt(lane)), {"C07", "C12"} \cup extra, "lane width"))
      \cup LaneLinksBad(st, l, d, conn, adjusted)
      \cup (IF origin \in {"gen", "junc"} /\ ~lane.mark.user THEN {}
            ELSE IF lane.mark.has
            THEN IF Len(d.marks) = 1
                 THEN MarkBad(lane.mark, d.marks[1], IF origin = "user" THEN {} ELSE {"C20"})
                 ELSE V(FALSE, {"C12"} \cup extra, "lane without its road mark")
            ELSE V(d.marks = <<>>, {"C12"} \cup extra, "lane with a road mark nobody gave it"))

(* the entries are there in the order they were added (each found by its id) *)
Ascending(At(_), n) == \A i \in 1 .. n - 1 : \A a \in At(i), b \in At(i + 1) : a < b
SideBad(st, hs, ds, Id(_), origin, conn, adjusted) ==
  LET extra == IF origin \in {"free", "gen"} THEN {"C20"} ELSE IF origin = "junc" THEN {"C18"} ELSE {}
      At(i) == {k \in 1 .. Len(ds) : Fld(ds[k].at, "id") = ToString(Id(i))}
  IN  V(Len(ds) = Len(hs), {"C07", "C12"} \cup extra, "number of lanes")
      \cup V(Ascending(At, Len(hs)), {"C07"}, "lanes of a side in the order added")
      \cup UNION {IF Cardinality(At(i)) = 1
                  THEN LaneBad(st, hs[i], ds[CHOOSE k \in At(i) : TRUE], origin, conn, adjusted, FALSE)
                  ELSE V(FALSE, {"C07"} \cup extra, "lane numbering") : i \in 1 .. Len(hs)}

SecTags(s) == {"center"} \cup (IF s.left = <<>> THEN {} ELSE {"left"}) \cup (IF s.right = <<>> THEN {} ELSE {"right"})
SecBad(st, h, d, origin, conn, adjusted) ==
  LET s == st.sec[h]
      extra == IF origin \in {"free", "gen"} THEN {"C20"} ELSE IF origin = "junc" THEN {"C18"} ELSE {}
  IN  V(d.tag = "laneSection" /\ AtEq(d.at, [s |-> s.s.s]), {"C07", "C12"} \cup extra, "lane section s")
      \cup V(SeqSet(d.tags) = SecTags(s) /\ Len(d.tags) = Cardinality(SecTags(s)), {"C07"} \cup extra, "sides of a lane section")
      \cup SideBad(st, s.left, d.left, LAMBDA i : i, origin, conn, adjusted)
      \cup SideBad(st, s.right, d.right, LAMBDA i : -i, origin, conn, adjusted)
      \cup (IF Len(d.center) = 1 /\ Fld(d.center[1].at, "id") = "0"
            THEN LaneBad(st, s.c, d.center[1], origin, conn, adjusted, TRUE)
            ELSE V(FALSE, {"C07"} \cup extra, "centre lane"))

-------------------------------------------------------------------------------
(* signals and objects (C10, C12, C15, C16) *)
CommonAt(o, id) ==
  [id |-> id, s |-> o.s.s, t |-> o.t.s, dynamic |-> OrS(o.dyn, "no")]
  @@ OptNZ("pitch", o.pitch) @@ OptNZ("roll", o.roll) @@ Opt("height", o.height) @@ Opt("name", o.name)
SigAt(o, id) ==
  CommonAt(o, id)
  @@ (IF o.sub = "~~" THEN NoFun ELSE [subtype |-> OrS(o.sub, "-1")])      \* "~~": given as None
  @@ [zOffset |-> OrS(o.zo, "1.5"), orientation |-> Spell(OrS(o.ori, "positive")),
      country |-> o.cnt, type |-> o.type]
  @@ Opt("width", o.width) @@ OptNZ("hOffset", o.ho)
  @@ (IF Given(o.value) THEN [value |-> o.value] @@ Opt("unit", o.unit) ELSE NoFun)
ObjShape(o) == IF Given(o.radius) THEN [radius |-> o.radius]
               ELSE IF Given(o.width) \/ Given(o.length)
               THEN [width |-> OrS(o.width, "0.0"), length |-> OrS(o.length, "0.0")] ELSE NoFun
ObjAt(o, id) ==
  CommonAt(o, id)
  @@ [zOffset |-> OrS(o.zo, "0.0"), orientation |-> Spell(OrS(o.ori, "none")), hdg |-> OrS(o.hdg, "0.0"),
      type |-> IF o.typeE THEN Spell(OrS(o.type, "none")) ELSE OrS(o.type, "none")]
  @@ Opt("subtype", o.sub) @@ Opt("validLength", o.vl) @@ ObjShape(o)

RepsBad(o, reps) ==
  V(Len(reps) = Len(o.reps) /\ \A i \in 1 .. Len(o.reps) : i <= Len(reps) => AtEq(reps[i], o.reps[i]),
    {"C16"}, "repeat entries")
SigBad(o, d) == V(AtEq(d.at, SigAt(o, o.got)), {"C12", "C16"}, "signal attributes")
                \cup V(d.tags = <<>>, {"C12"}, "signal with children")
ObjBad(o, d) == V(AtEq(d.at, ObjAt(o, o.got)), {"C12", "C16"}, "object attributes")
                \cup RepsBad(o, [i \in 1 .. Len(d.reps) |-> d.reps[i].at])
                \cup V(SeqSet(d.tags) \subseteq {"repeat"}, {"C12", "C16"}, "children of an object")

(* roadside copies: each expected copy is there and each object is an expected copy *)
CopyIs(c, dist, d) ==
  LET n == Len(d.reps)
  IN  /\ Abs(d.q.s - c.s) <= 3 /\ Abs(d.q.t - c.t) <= 3 /\ Abs(d.q.h - c.h) <= 1
      /\ n > 0
      /\ Fld(d.reps[n].at, "distance") = dist
      /\ Abs(d.reps[n].q.s - c.s) <= 3 /\ Abs(d.reps[n].q.t0 - c.t) <= 3 /\ Abs(d.reps[n].q.t1 - c.t) <= 3
CopyEnds(c, d, ptol) == Abs(d.reps[Len(d.reps)].q.len - c.len) <= ptol
SideObjsBad(st, r, x, ds, total) ==
  LET own == {k \in 1 .. Len(ds) : Fld(ds[k].at, "id") \in SeqSet(x.ids)}
      tol == 30 + total \div 4000
      DropKeys(f) == [k \in DOMAIN f \ {"s", "t", "hdg", "id"} |-> f[k]]
  IN  V(\A i \in 1 .. Len(x.copies) : \E k \in own : CopyIs(x.copies[i], x.dist, ds[k]) /\ CopyEnds(x.copies[i], ds[k], tol),
        {"C15"}, "roadside object missing or misplaced")
      \cup V(\A k \in own : \E i \in 1 .. Len(x.copies) : CopyIs(x.copies[i], x.dist, ds[k]) /\ CopyEnds(x.copies[i], ds[k], tol),
        {"C15"}, "misplaced roadside object")
      \cup UNION {LET d == ds[k] IN
                  V(AtEq(DropKeys(d.at), DropKeys(ObjAt(x.proto, "~"))), {"C12", "C15"}, "roadside object unlike its prototype")
                  \cup V(Len(d.reps) = Len(x.proto.reps) + 1
                         /\ \A i \in 1 .. Len(x.proto.reps) : i <= Len(d.reps) => AtEq(d.reps[i].at, x.proto.reps[i]),
                         {"C15", "C16"}, "repeat entries of a roadside object")
                  \cup V(d.reps # <<>> => AtEq([f \in DOMAIN d.reps[Len(d.reps)].at \ {"s", "tStart", "tEnd", "length"} |-> d.reps[Len(d.reps)].at[f]],
                                              [distance |-> x.dist, heightStart |-> OrS(x.proto.height, "0.0"), heightEnd |-> OrS(x.proto.height, "0.0"),
                                               zOffsetStart |-> OrS(x.proto.zo, "0.0"), zOffsetEnd |-> OrS(x.proto.zo, "0.0")]),
                         {"C15", "C16"}, "repeat of a roadside object") : k \in own}

BagOk(ds, ids) == Len(ds) = Len(ids) /\ \A i \in 1 .. Len(ids) : Cardinality({k \in 1 .. Len(ds) : Fld(ds[k].at, "id") = ids[i]}) = 1
Distinct(s) == Cardinality(SeqSet(s)) = Len(s)

SigsBad(st, r, ds) ==
  LET hs == st.road[r].sigs
      ids == [i \in 1 .. Len(hs) |-> st.sig[hs[i]].got]
      At(i) == {k \in 1 .. Len(ds) : Fld(ds[k].at, "id") = ids[i]}
  IN  V(Len(ds) = Len(hs), {"C12"}, "number of signals")
      \cup V(Distinct([k \in 1 .. Len(ds) |-> Fld(ds[k].at, "id")]), {"C10"}, "two signals with the same id")
      \cup V(Ascending(At, Len(hs)), {"C12"}, "signals in the order added")
      \cup UNION {IF Cardinality(At(i)) = 1 THEN SigBad(st.sig[hs[i]], ds[CHOOSE k \in At(i) : TRUE])
                  ELSE V(FALSE, {"C10", "C12"}, "signal id changed") : i \in 1 .. Len(hs)}
ObjsBad(st, r, ds) ==
  LET hs == st.road[r].objs
      sides == st.road[r].sides
      ids == [i \in 1 .. Len(hs) |-> st.obj[hs[i]].got]
      At(i) == {k \in 1 .. Len(ds) : Fld(ds[k].at, "id") = ids[i]}
      nside == FoldSeq_(LAMBDA a, x : a + Len(x.copies), 0, sides)
  IN  V(Len(ds) = Len(hs) + nside, {"C12"} \cup (IF sides # <<>> THEN {"C15"} ELSE {}), "number of objects")
      \cup V(Distinct([k \in 1 .. Len(ds) |-> Fld(ds[k].at, "id")]), {"C10"}, "two objects with the same id")
      \cup V(Ascending(At, Len(hs)), {"C12"}, "objects in the order added")
      \cup UNION {IF Cardinality(At(i)) = 1 THEN ObjBad(st.obj[hs[i]], ds[CHOOSE k \in At(i) : TRUE])
                  ELSE V(FALSE, {"C10", "C12"}, "object id changed") : i \in 1 .. Len(hs)}
      \cup UNION {SideObjsBad(st, r, sides[i], ds, TotalLen(PlanDisps(st, st.road[r].plan))) : i \in 1 .. Len(sides)}

-------------------------------------------------------------------------------
(* plan views (C01, C22) *)
GeoRec(st, p, i) == st.geo[st.plan[p].gs[i]]
GeosOk(st, p, ds) == Len(ds) = Len(st.plan[p].gs) /\ \A i \in 1 .. Len(ds) : Len(ds[i].kids) = 1
PoseOf(d) == Pose(d.p.x, d.p.y, d.p.h)
(* poses at both ends, from the document *)
DocStart(ds) == PoseOf(ds[1])
DocDisp(st, p, ds, i) == Redisp(GeoRec(st, p, i), ds[i].p.len)
DocEnd(st, p, ds) == EndOf(PoseOf(ds[Len(ds)]), DocDisp(st, p, ds, Len(ds)))
RECURSIVE DocLen(_, _)
DocLen(ds, i) == IF i > Len(ds) THEN 0 ELSE ds[i].p.len + DocLen(ds, i + 1)

(* a heading given for a geometry replaces the one it would start with *)
GivenHeading(st, p, i, q) == LET x == st.plan[p].hds[i] IN IF x.has THEN [q EXCEPT !.h = x.h] ELSE q
(* gap: position, heading and s of the next geometry against the end of this one, in steps of 1e-7 *)
FineGap(gp, given) == Abs(gp[1]) <= 100 /\ (given \/ Abs(gp[2]) <= 20) /\ Abs(gp[3]) <= 20

GeosBad(st, p, ds, origin) ==
  LET extra == IF origin \in {"free", "gen"} THEN {"C20"} ELSE IF origin = "junc" THEN {"C18"} ELSE {}
      n == Len(ds)
  IN  IF ~GeosOk(st, p, ds) THEN V(FALSE, {"C01", "C03", "C12"} \cup extra, "geometries exported once each")
      ELSE UNION {LET g == GeoRec(st, p, i)
                      d == ds[i]
                  IN  V(d.tag = "geometry" /\ d.ak = "hdg length s x y", {"C12"}, "geometry attributes")
                      \cup V(d.kids[1].tag = g.kind /\ AtEq(d.kids[1].at, g.at), {"C01", "C12"} \cup extra, "geometry kind and parameters in the order added")
                      \cup V(g.kind = "line" => g.lt \in {"~", d.t[4]}, {"C12", "C22"}, "length of a line, exactly")
                      \cup V(Abs(d.p.len - g.disp.len) <= LenTol(g), {"C22"} \cup extra, "length of a " \o g.kind)
                      \cup V(Abs(d.p.s - DocLen(SubSeq(ds, 1, i - 1), 1)) <= 2 + i, {"C01"}, "s of a geometry")
                      \cup (IF i = n THEN {}
                            ELSE V(Near(GivenHeading(st, p, i + 1, EndOf(PoseOf(d), DocDisp(st, p, ds, i))), PoseOf(ds[i + 1]), PosTol(d.p.len), HTol),
                                   {"C01"}, "geometry does not start where the previous one ends (" \o g.kind \o ")"))
                      \cup (IF "gap" \in DOMAIN d
                            THEN V(FineGap(d.gap, i < n /\ st.plan[p].hds[Min2(i + 1, n)].has), {"C01"}, "geometry does not exactly start where the previous one ends")
                            ELSE {})
                      \cup (IF i > 1 THEN {}
                            ELSE V(Near(GivenHeading(st, p, 1, PoseOf(d)), PoseOf(d), 1, HTol), {"C01"}, "heading given for the first geometry"))
                  : i \in 1 .. n}

(* a given start is written exactly (a heading given for the first geometry replaces its heading) *)
ExactStart(st, p, texts, d) ==
  texts # <<>> => d.t[1] = texts[1] /\ d.t[2] = texts[2] /\ (d.t[3] = texts[3] \/ st.plan[p].hds[1].has)

(* a plan view adjusted on its own *)
PlanBad(st, p, ds) ==
  LET pl == st.plan[p]
  IN  GeosBad(st, p, ds, "user")
      \cup (IF GeosOk(st, p, ds) /\ ds # <<>> /\ pl.dir \in {"fwd", "back"}
            THEN V(IF pl.dir = "back" THEN Near(DocEnd(st, p, ds), Reverse(pl.at), PosTol(DocLen(ds, 1)), HTol)
                   ELSE Near(DocStart(ds), pl.at, 3, 50) /\ ExactStart(st, p, pl.att, ds[1]), {"C01"}, "plan view not placed at the point given")
            ELSE {})

-------------------------------------------------------------------------------
(* roads *)
RoadAt(d) == [id |-> d.id, junction |-> d.type] @@ Opt("name", d.name) @@ Opt("rule", d.rule)
RoadTags(d) == {"link", "planView", "lanes"} \cup (IF d.sigs = <<>> THEN {} ELSE {"signals"})
               \cup (IF d.objs = <<>> /\ \A i \in 1 .. Len(d.sides) : d.sides[i].copies = <<>> THEN {} ELSE {"objects"})
AnyJunc(st) == \E r \in DOMAIN st.road : st.road[r].origin = "junc"
LinkBag(s) == [i \in 1 .. Len(s) |-> s[i].tag]
RoadLinksOk(d, ls) ==
  /\ Len(ls) = Len(d.links)
  /\ \A i \in 1 .. Len(d.links) :
        Cardinality({k \in 1 .. Len(ls) : ls[k].tag = d.links[i].tag /\ AtEq(ls[k].at, d.links[i].at)})
        = Cardinality({k \in 1 .. Len(d.links) : d.links[k].tag = d.links[i].tag /\ AtEq(d.links[k].at, d.links[i].at)})

RoadBad(st, r, d, adjusted) ==
  LET x == st.road[r]
      extra == IF x.origin \in {"free", "gen"} THEN {"C20"} ELSE IF x.origin = "junc" THEN {"C18"} ELSE {}
      ss == st.lns[x.lns]
      conn == x.type # "-1"
  IN  V(d.tag = "road" /\ AtEq(d.at, RoadAt(x)), {"C12"} \cup extra, "road attributes")
      \cup V(SeqSet(d.tags) = RoadTags(x) /\ Distinct(d.tags), {"C12"}, "parts of a road")
      \cup V(RoadLinksOk(x, d.links), {"C11", "C12"} \cup (IF AnyJunc(st) THEN {"C18"} ELSE {}), "road links")
      \cup (IF adjusted
            THEN GeosBad(st, x.plan, d.geos, x.origin)
                 \cup V(Abs(d.len - DocLen(d.geos, 1)) <= 2 + Len(d.geos), {"C01"}, "road length")
            ELSE {})
      \cup V(Len(d.secs) = Len(ss), {"C07", "C12"} \cup extra, "number of lane sections")
      \cup (IF Len(d.secs) = Len(ss)
            THEN UNION {SecBad(st, ss[i], d.secs[i], x.origin, conn, adjusted) : i \in 1 .. Len(ss)} ELSE {})
      \cup SigsBad(st, r, d.sigs)
      \cup ObjsBad(st, r, d.objs)

-------------------------------------------------------------------------------
(* junctions (C08, C09) *)
ConnAt(c) == [incomingRoad |-> c.inc, id |-> c.got, contactPoint |-> c.cp, connectingRoad |-> c.con]
LLSeq(d) == [i \in 1 .. Len(d.ll) |-> <<d.ll[i]["from"], d.ll[i]["to"]>>]
LLOk(d) == \A i \in 1 .. Len(d.ll) : DOMAIN d.ll[i] = {"from", "to"}
RowOk(d, row) == LLOk(d) /\ SeqSet(d.tags) \subseteq {"laneLink"} /\ Distinct(LLSeq(d))
                 /\ SeqSet(LLSeq(d)) = {<<ToString(p[1]), ToString(p[2])>> : p \in row.ll}
JuncBad(st, j, d) ==
  LET x == st.junc[j]
      n == Len(d.conns)
      ConnIds == [i \in 1 .. n |-> Fld(d.conns[i].at, "id")]
  IN  IF x.gen
      THEN V(Fld(d.at, "id") = x.id, {"C08", "C12"}, "id of a created junction")
           \cup V(Distinct(ConnIds), {"C09"}, "two connections with the same id")
           \cup V(n = Cardinality(x.table), {"C08"}, "number of connections")
           \cup UNION {LET m == {i \in 1 .. n : Fld(d.conns[i].at, "incomingRoad") = row.inc
                                                /\ Fld(d.conns[i].at, "connectingRoad") = row.con
                                                /\ Fld(d.conns[i].at, "contactPoint") = row.cp}
                       IN  IF Cardinality(m) = 1
                           THEN V(RowOk(d.conns[CHOOSE i \in m : TRUE], row), {"C08"}, "lane links of a connection")
                           ELSE V(FALSE, {"C08"}, "connection missing or repeated") : row \in x.table}
      ELSE V(AtEq(d.at, [name |-> x.name, id |-> x.id]), {"C12"}, "junction attributes")
           \cup V(n = Len(x.conns), {"C09", "C12"}, "number of connections")
           \cup UNION {IF i <= n
                       THEN LET c == st.conn[x.conns[i]]
                                e == d.conns[i]
                            IN  V(e.tag = "connection" /\ AtEq(e.at, ConnAt(c)), {"C09", "C12"}, "connection attributes")
                                \cup V(LLOk(e) /\ SeqSet(e.tags) \subseteq {"laneLink"} /\ LLSeq(e) = [k \in 1 .. Len(c.ll) |-> <<c.ll[k].from, c.ll[k].to>>],
                                       {"C09", "C12"}, "lane links of a connection in the order recorded")
                       ELSE {} : i \in 1 .. Len(x.conns)}

(* the table of a created junction against the lane links of the exported roads *)
NoLaneLinks(st, r) == \A k \in SeqSet(st.lns[st.road[r].lns]) :
                        \A l \in SeqSet(st.sec[k].left) \cup SeqSet(st.sec[k].right) : st.lane[l].mlinks = <<>>
TableVsLinks(st, n, doc, d) ==       \* lanes given links by hand apart
  UNION {LET e == d.conns[i]
             rs == {k \in 1 .. Len(doc.roads) : Fld(doc.roads[k].at, "id") = Fld(e.at, "connectingRoad")}
         IN  IF Cardinality(rs) # 1 THEN V(FALSE, {"C08"}, "connecting road of a connection not in the network")
             ELSE IF doc.roads[CHOOSE k \in rs : TRUE].secs = <<>> THEN V(FALSE, {"C08"}, "connecting road without lane sections")
             ELSE IF ~NoLaneLinks(st, st.net[n].roads[CHOOSE k \in rs : TRUE]) THEN {}
             ELSE LET r == doc.roads[CHOOSE k \in rs : TRUE]
                      s == IF Fld(e.at, "contactPoint") = "start" THEN r.secs[1] ELSE r.secs[Len(r.secs)]
                      tag == IF Fld(e.at, "contactPoint") = "start" THEN "predecessor" ELSE "successor"
                      lanes == {s.left[k] : k \in 1 .. Len(s.left)} \cup {s.right[k] : k \in 1 .. Len(s.right)}
                      named == UNION {{<<Fld(l.links[q].at, "id"), Fld(l.at, "id")>> : q \in {z \in 1 .. Len(l.links) : l.links[z].tag = tag}} : l \in lanes}
                  IN  V(LLOk(e) /\ Distinct(LLSeq(e)) /\ SeqSet(LLSeq(e)) = named, {"C08"}, "connection disagrees with the lane links of its connecting road")
         : i \in 1 .. Len(d.conns)}

-------------------------------------------------------------------------------
(* networks (C02, C12, C18) *)
(* the joint of two roads to 10 micrometres, from the poses at both ends of the exported roads (ticks, and the rest fx, fy in steps of 1e-7 m) *)
FineFlush(net, jt, doc) ==
  LET l == JointLink(net, jt)
      a == doc.roads[jt[1]]
      b == doc.roads[JointTo(net, jt)]
  IN  ("ends" \in DOMAIN a /\ "ends" \in DOMAIN b)
      => LET p == IF jt[2] = "pred" THEN a.ends.start ELSE a.ends.end
             q == Frame(jt[2], l.cp, b.ends.start, b.ends.end)
             cs == CosSin(q.h)
             near == Abs(p.x - q.x) < 1000000 /\ Abs(p.y - q.y) < 1000000
             dx == (p.x - q.x) * 1000 + p.fx - q.fx + MulF(l.off * LaneW * 1000, cs[2])
             dy == (p.y - q.y) * 1000 + p.fy - q.fy - MulF(l.off * LaneW * 1000, cs[1])
         IN  near /\ Abs(dx) <= 100 /\ Abs(dy) <= 100 /\ AngDiff(p.h, q.h) <= 200

PlacesBad(st, n, doc) ==
  LET rs == st.net[n].roads
      P(i) == st.road[rs[i]].plan
      whole == \A i \in 1 .. Len(rs) : GeosOk(st, P(i), doc.roads[i].geos) /\ doc.roads[i].geos # <<>>
  IN  IF ~whole THEN {}
      ELSE LET net   == AbsNet(st, n)
               start == [i \in 1 .. Len(rs) |-> DocStart(doc.roads[i].geos)]
               end   == [i \in 1 .. Len(rs) |-> DocEnd(st, P(i), doc.roads[i].geos)]
               big   == FoldSeq_(LAMBDA a, d : Max2(a, DocLen(d.geos, 1)), 0, doc.roads)
               tol   == 30 + big \div 100000
               Own   == {"C02"} \cup (IF st.apart THEN {"C23"} ELSE {})
               FlushJ(jt, t, h) == Flush(net, jt[1], jt[2], start, end, t, h)
               good  == {jt \in Joints(net) : FlushJ(jt, tol, 800) /\ FineFlush(net, jt, doc)}
               jj    == {jt \in Joints(net) : st.road[rs[jt[1]]].origin = "junc"}
           IN  UNION {V(Near(start[i], net[i].start, 3, 50) /\ ExactStart(st, P(i), st.plan[P(i)].st, doc.roads[i].geos[1]), Own, "positioned road not at its position")
                      : i \in Anchors(net)}
               \cup V(FlushClosure(net, good, Anchors(net)) = Roads(net), Own, "road not flush with any road it was placed from")
               \cup V(IsForest(net) => good = Joints(net), Own, "linked roads do not meet as declared")
               \cup V(\A jt \in jj : FlushJ(jt, tol + 70, 2500), {"C18"}, "connecting road does not meet its arm")

HeaderAt(x) == [name |-> x.name, revMajor |-> "1", revMinor |-> "5", date |-> "present",
                north |-> "0.0", south |-> "0.0", east |-> "0.0", west |-> "0.0"]
(* which elements contain which; no text, and no attributes on mere containers *)
Shapes ==
  {"OpenDRIVE>header", "OpenDRIVE>road", "OpenDRIVE>junction", "road>link", "road>planView", "road>lanes", "road>signals", "road>objects",
   "link>predecessor", "link>successor", "link>neighbor", "planView>geometry", "geometry>line", "geometry>arc", "geometry>spiral", "geometry>paramPoly3",
   "lanes>laneSection", "laneSection>left", "laneSection>center", "laneSection>right", "left>lane", "center>lane", "right>lane",
   "lane>link", "lane>width", "lane>roadMark", "roadMark>type", "type>line", "signals>signal", "objects>object", "object>repeat",
   "junction>connection", "connection>laneLink"}
NetTags(nr, nj) == <<"header">> \o [i \in 1 .. nr |-> "road"] \o [i \in 1 .. nj |-> "junction"]
NetBad(st, n, doc) ==
  LET x == st.net[n]
      nr == Len(x.roads)
      nj == Len(x.juncs)
      adjusted == x.state \in {"adjusted", "placed"}
      parts == Len(doc.roads) = nr /\ Len(doc.juncs) = nj
      ids == parts /\ \A i \in 1 .. nr : Fld(doc.roads[i].at, "id") = st.road[x.roads[i]].id
      gen == {i \in 1 .. nj : st.junc[x.juncs[i]].gen}
      madeHere == {i \in gen : \A row \in st.junc[x.juncs[i]].table :
                      \E k \in 1 .. nr : st.road[x.roads[k]].id = row.con}
      (* the generators give the ids of the roads they make *)
      astray == {i \in 1 .. nr : Len(doc.roads) # nr \/ Fld(doc.roads[i].at, "id") # st.road[x.roads[i]].id}
      givers == UNION {LET o == st.road[x.roads[i]].origin IN IF o \in {"free", "gen"} THEN {"C20"} ELSE IF o = "junc" THEN {"C18"} ELSE {} : i \in astray}
  IN  V(doc.tag = "OpenDRIVE" /\ doc.tags = NetTags(nr, nj), {"C12"}, "parts of the document")
      \cup V(Len(doc.hdr) = 1 /\ AtEq(doc.hdr[1], HeaderAt(x)), {"C12"}, "header")
      \cup V(SeqSet(doc.shape) \subseteq Shapes, {"C12"}, "elements, attributes or text that do not belong to the document")
      \cup V(ids, {"C12"} \cup givers, "roads in the order added")
      \cup (IF ~ids THEN {}
            ELSE UNION {RoadBad(st, x.roads[i], doc.roads[i], adjusted) : i \in 1 .. nr}
                 \cup UNION {JuncBad(st, x.juncs[i], doc.juncs[i]) : i \in 1 .. nj}
                 \cup (IF adjusted THEN PlacesBad(st, n, doc)
                                        \cup (IF x.state = "adjusted" THEN UNION {TableVsLinks(st, n, doc, doc.juncs[i]) : i \in madeHere} ELSE {})
                       ELSE {}))

-------------------------------------------------------------------------------
(* observations of single calls *)
PoseV(o, p, len, owners, text) == V(Near(Pose(o.x, o.y, o.h), p, PosTol(len), HTol), owners, text)

(* what a road or a lane says of its links is what it exports *)
Said(at, k) == IF k \in DOMAIN at THEN at[k] ELSE "~"
LinksSaid(e) ==
  SetV(LAMBDA tag : LET o == e.obs[tag]
                        m == {i \in 1 .. Len(e.el) : e.el[i].tag = tag}
                    IN  V(IF m = {} THEN o = [id |-> "~", et |-> "~", cp |-> "~"]
                          ELSE \E i \in m : LET at == e.el[i].at IN
                               /\ o.id = (IF "id" \in DOMAIN at THEN at.id ELSE Said(at, "elementId"))
                               /\ o.et = Said(at, "elementType")
                               /\ o.cp = Said(at, "contactPoint"), {"C11"}, "a link is reported otherwise than exported (" \o tag \o ")"),
       {"predecessor", "successor"})

ObsBad(st, e) ==            \* st: before the call, which succeeded
  CASE e.op = "GEnd" -> LET g == st.geo[e.g] IN
                          PoseV(e.obs, EndOf(Pose(e.x, e.y, e.hd), g.disp), g.disp.len, {"C22"}, "end of a " \o g.kind)
                          \cup V(Abs(e.olen - g.disp.len) <= LenTol(g), {"C22"}, "length of a " \o g.kind)
                          \cup V(e.again = e.obs /\ e.alen = e.olen, {"C14"}, "the same question answered differently")
    [] e.op = "GStart" -> LET g == st.geo[e.g] IN      \* backwards, then forwards again
                          V(Near(Pose(e.fw.x, e.fw.y, e.fw.h), Pose(e.x, e.y, Wrap(e.hd + PiR)), 3, 50), {"C14"}, "forwards does not undo backwards (" \o g.kind \o ")")
                          \cup V(e.olen = e.flen, {"C14"}, "lengths differ between directions")
    [] e.op = "GBack" -> LET g == st.geo[e.g] IN       \* forwards, then backwards again
                          V(Near(Pose(e.obs.x, e.obs.y, e.obs.h), Pose(e.x, e.y, Wrap(e.hd + PiR)), 3, 50), {"C14"}, "backwards does not undo forwards (" \o g.kind \o ")")
                          \cup V(e.olen = e.blen, {"C14"}, "lengths differ between directions")
    [] e.op = "PEl" -> PlanBad(st, e.p, e.geos)
    [] e.op = "PStart" -> IF Has(st.seen, e.p) THEN V(Near(Pose(e.obs.x, e.obs.y, e.obs.h), st.seen[e.p].start, 3, 50), {"C01"}, "reported start point") ELSE {}
    [] e.op = "PEnd" -> IF Has(st.seen, e.p) THEN PoseV(e.obs, st.seen[e.p].end, st.seen[e.p].len, {"C01"}, "reported end point") ELSE {}
    [] e.op = "PLen" -> IF Has(st.seen, e.p) THEN V(Abs(e.olen - st.seen[e.p].len) <= 10, {"C01"}, "reported length") ELSE {}
    [] e.op = "REnd" -> LET p == st.road[e.r].plan IN
                          IF Has(st.seen, p) THEN PoseV(e.obs, st.seen[p].end, st.seen[p].len, {"C01"}, "reported end point of a road") ELSE {}
    [] e.op = "AddSig" -> V(IdsOk(st.sigIds, [i \in 1 .. Len(e.xs) |-> st.sig[e.xs[i]].id], e.ids), {"C10"}, "signal ids")
    [] e.op = "AddObj" -> V(IdsOk(st.objIds, [i \in 1 .. Len(e.xs) |-> st.obj[e.xs[i]].id], e.ids), {"C10"}, "object ids")
    [] e.op = "Side" -> LET new == NewIds(st, e)
                            asked == st.obj[e.o].id
                            n == Len(SideCopies(st, e)) IN
                          V(Len(new) = n /\ Len(e.ids) = n + Cardinality(RoadObjIds(st, e.r)), {"C15"}, "number of roadside objects")
                          \cup V(Distinct(e.ids) /\ SeqSet(new) \cap st.objIds = {} /\ "None" \notin SeqSet(new)
                                 /\ ((n > 0 /\ Given(asked) /\ asked \notin st.objIds) => asked \in SeqSet(new)), {"C10"}, "ids of roadside objects")
                          \cup V(e.proto = e.proto2, {"C15"}, "prototype changed")
    [] e.op = "AddConn" -> LET c == st.conn[e.c]
                               have == {st.conn[x].got : x \in SeqSet(st.junc[e.j].conns)} IN
                          V(IF Given(c.id) THEN e.got = c.id ELSE e.got \notin have /\ e.got # "None", {"C09"}, "connection id")
    [] e.op = "OEl" -> IF Has(st.sig, e.o) THEN LET x == st.sig[e.o] IN V(AtEq(e.el.at, SigAt(x, IF x.got = "~" THEN x.id ELSE x.got)), {"C12", "C16"}, "signal attributes")
                       ELSE LET x == st.obj[e.o] IN V(AtEq(e.el.at, ObjAt(x, IF x.got = "~" THEN x.id ELSE x.got)), {"C12", "C16"}, "object attributes")
                                                    \cup (RepsBad(x, e.el.reps) \cup V(SeqSet(e.el.tags) \subseteq {"repeat"}, {"C16"}, "children of an object"))
    [] e.op = "Export" -> NetBad(st, e.n, e.doc)
                          \cup (IF Has(st.digs, e.n) THEN V(st.digs[e.n] = e.dig, {"C13"}, "two exports differ") ELSE {})
    [] e.op = "REl" -> RoadBad(st, e.r, e.doc, Adjusted(st, e.r))
    [] e.op = "JEl" -> JuncBad(st, e.j, e.doc)
    [] e.op = "Write" -> V(e.before = e.after, {"C13"}, "writing changed the network")
                         \cup V(e.layout = IF e.pretty = "no" THEN "flat" ELSE "spread", {"C13"}, "pretty or plain printing")
                         \cup V(e.file_ = e.before, {"C13"}, "written file differs from the export")
                         \cup (IF Has(st.digs, e.n) THEN V(st.digs[e.n] = e.before, {"C13"}, "two exports differ") ELSE {})
    [] e.op = "Show" -> V(e.before = e.after /\ e.before = e.kept, {"C13"}, "showing changed the network")
                        \cup V(e.shown = e.before, {"C13"}, "what is shown differs from the export")
                        \cup (IF Has(st.digs, e.n) THEN V(st.digs[e.n] = e.before, {"C13"}, "two exports differ") ELSE {})
    [] e.op = "RLine" -> V(e.el.tag = "line" /\ e.el.tags = <<>> /\ AtEq(e.el.at, OwnLineAt(e)), {"C17"}, "line of a road mark on its own")
    [] e.op = "LkGet" -> LinksSaid(e)
    [] e.op = "Dep" -> V(e.el.tag = "dependency" /\ e.el.tags = <<>> /\ AtEq(e.el.at, [id |-> e.id, type |-> e.type]), {"C16"}, "dependency")
    [] e.op = "GenJR" -> V(e.nroads = Len(ArmPairs(Len(e.roads))), {"C18"}, "number of connecting roads")
    [] OTHER -> {}

(* refused calls *)
RefusedBad(st, e) ==
  IF e.op = "Side" THEN V(Len(e.ids) = Cardinality(RoadObjIds(st, e.r)), {"C15"}, "refused call added objects")
                        \cup V(e.proto = e.proto2, {"C15"}, "prototype changed")
  ELSE {}

(* remember what a document showed, for later questions *)
Observe(st, e) ==
  CASE e.op = "PEl" -> IF GeosOk(st, e.p, e.geos) /\ e.geos # <<>>
                       THEN [st EXCEPT !.seen = Put(@, e.p, [start |-> DocStart(e.geos), end |-> DocEnd(st, e.p, e.geos), len |-> DocLen(e.geos, 1)])]
                       ELSE st
    [] e.op = "Export" ->
         LET rs == st.net[e.n].roads
             all == {i \in 1 .. Len(rs) : i <= Len(e.doc.roads) /\ GeosOk(st, st.road[rs[i]].plan, e.doc.roads[i].geos)
                                          /\ e.doc.roads[i].geos # <<>>}
             new == [p \in {st.road[rs[i]].plan : i \in all} |->
                       LET i == CHOOSE k \in all : st.road[rs[k]].plan = p
                           g == e.doc.roads[i].geos
                       IN  [start |-> DocStart(g), end |-> DocEnd(st, p, g), len |-> DocLen(g, 1)]]
         IN  [st EXCEPT !.seen = new @@ @, !.digs = Put(@, e.n, e.dig)]
    [] e.op \in {"Write", "Show"} -> [st EXCEPT !.digs = Put(@, e.n, e.before)]
    [] e.op \in {"RLine", "Dep", "LkGet", "REl", "JEl", "OEl", "PStart", "PEnd", "PLen", "REnd", "GEnd", "GStart", "GBack"} -> st
    [] OTHER -> [st EXCEPT !.digs = NoFun]

-------------------------------------------------------------------------------
(* a call answered otherwise than allowed: which properties that breaks *)
GenOwn(st, n) == IF \E r \in SeqSet(st.net[n].roads) : st.road[r].origin = "junc" THEN {"C18"} ELSE {}
AdjOwners(st, e) ==
  LET net == AbsNet(st, e.n)
      want == AdjustErrors(st, e.n)
      U == {"UndefinedRoadNetwork"}
      L == {"NotSameAmountOfLanesError"}
  IN  GenOwn(st, e.n) \cup
      (IF (want = {} /\ e.out \in L) \/ (L \subseteq want /\ e.out = "ok") THEN {"C04"} ELSE {}) \cup
      (IF (want = {} /\ e.out \in U) \/ (U \subseteq want /\ e.out = "ok") THEN {"C03"} ELSE {}) \cup
      (IF e.out \notin U \cup L \cup {"ok"}
       THEN {"C03"} \cup (IF \E i, j \in Roads(net) : Consecutive(net, i, j) THEN {"C04"} ELSE {})
                    \cup (IF \E i \in Roads(net) : net[i].conn THEN {"C05"} ELSE {})
       ELSE {}) \cup
      (IF e.out \in U \cup L /\ want # {} THEN (IF e.out \in U THEN {"C03"} ELSE {"C04"}) ELSE {})

OutOwners(st, e) ==
  CASE e.op \in {"Arc", "Spiral", "Poly", "Plan"} -> {"C19"}
    [] e.op \in {"Line", "GEnd"} -> {"C22"}
    [] e.op \in {"GStart", "GBack"} -> {"C14"}
    [] e.op \in {"PGeo", "PAdj", "PEl", "PStart", "PEnd", "PLen", "REnd"} -> {"C01"}
    [] e.op = "PSet" -> {"C01", "C02"}
    [] e.op = "Mark" -> {"C17", "C12"}
    [] e.op = "RLine" -> {"C17"}
    [] e.op \in {"Lane", "LMark", "LLink", "Lanes", "Sec", "AddL", "AddR", "StdLane"} -> {"C07", "C12"}
    [] e.op \in {"Linker", "LPair", "AddSec"} -> {"C06"}
    [] e.op \in {"Succ", "Pred", "Neigh", "LkGet"} -> {"C11"}
    [] e.op \in {"Sig", "Obj", "Rep", "OEl", "Dep"} -> {"C16"}
    [] e.op \in {"AddSig", "AddObj"} -> {"C10"}
    [] e.op = "Side" -> {"C15"}
    [] e.op \in {"Junc", "Conn", "CLink", "AddConn", "JEl"} -> {"C09"}
    [] e.op = "Adjust" -> AdjOwners(st, e)
    [] e.op = "Place" -> {"C03", "C23"}
    [] e.op = "Match" -> {"C04", "C23"} \cup (IF st.road[e.a].type # "-1" \/ st.road[e.b].type # "-1" THEN {"C05"} ELSE {})
    [] e.op \in {"GenRoad", "GenStraight", "GenCloth"} -> {"C20"}
    [] e.op = "GenJR" -> {"C18"}
    [] e.op = "GenJ" -> {"C08"}
    [] e.op \in {"Write", "Show"} -> {"C13"}
    [] OTHER -> {"C12"} \cup (IF st.apart THEN {"C23"} ELSE {})
=============================================================================
