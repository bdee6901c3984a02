------------------------------ MODULE Network ------------------------------
(* Networks of linked roads: which roads an adjustment reaches, where linked *)
(* roads must meet, and which lane links follow.                             *)
(*                                                                           *)
(* A network is a sequence of roads                                          *)
(*   [id, conn, fixed, start, pred, succ, nl, nr, disps]                     *)
(* conn: belongs to a junction; fixed/start: given start pose; nl/nr: for    *)
(* each lane section the number of left/right lanes; disps: displacements of *)
(* its geometries; a link is [has, road, id, cp, off] where road says that   *)
(* it names a road (not a junction), cp the contact point on that road and   *)
(* off the number of lanes this road is displaced to the left of it.         *)
EXTENDS Geometry, FiniteSets

LaneW == 30000                      \* a lane offset counts lanes of 3 m

NoLink == [has |-> FALSE, road |-> FALSE, id |-> "~", cp |-> "~", off |-> 0]

Roads(net) == 1 .. Len(net)

(* index of the road a link names, 0 if it names none of the network *)
Target(net, l) ==
  IF l.has /\ l.road /\ \E i \in Roads(net) : net[i].id = l.id
  THEN CHOOSE i \in Roads(net) : net[i].id = l.id
  ELSE 0

Links(net, i) == {net[i].pred, net[i].succ}

-----------------------------------------------------------------------------
(* C03: reachability *)
Anchors(net) == LET f == {i \in Roads(net) : net[i].fixed}
                IN  IF f = {} THEN {1} ELSE f

(* roads that one more step of placement can reach from the placed set *)
Frontier(net, placed) ==
  {i \in Roads(net) \ placed :
      \/ \E l \in Links(net, i) : Target(net, l) \in placed
      \/ \E c \in placed : net[c].conn /\ \E l \in Links(net, c) : Target(net, l) = i}

RECURSIVE Closure(_, _)
Closure(net, placed) ==
  LET f == Frontier(net, placed)
  IN  IF f = {} THEN placed ELSE Closure(net, placed \cup f)

Reached(net) == Closure(net, Anchors(net))
AllReached(net) == Reached(net) = Roads(net)

-----------------------------------------------------------------------------
(* C02: where linked roads meet.  start/end: functions giving the poses of   *)
(* the roads.  Along road i the travel frame at a joint is the pose of the   *)
(* other road there, turned into the direction of travel of i.               *)
Frame(which, cp, s, e) ==
  IF which = "pred" THEN (IF cp = "end" THEN e ELSE Reverse(s))
                    ELSE (IF cp = "start" THEN s ELSE Reverse(e))

(* the pose road i must have at the joint: its start for a predecessor, its end
   for a successor *)
JointPose(which, l, s, e) == ShiftLeft(Frame(which, l.cp, s, e), l.off * LaneW)

Flush(net, i, which, start, end, tol, htol) ==
  LET l == IF which = "pred" THEN net[i].pred ELSE net[i].succ
      j == Target(net, l)
  IN  Near(IF which = "pred" THEN start[i] ELSE end[i],
           JointPose(which, l, start[j], end[j]), tol, htol)

(* all declared joints <<road, side>> *)
Joints(net) == {<<i, w>> \in Roads(net) \X {"pred", "succ"} :
                   Target(net, IF w = "pred" THEN net[i].pred ELSE net[i].succ) # 0}
JointLink(net, jt) == IF jt[2] = "pred" THEN net[jt[1]].pred ELSE net[jt[1]].succ
JointTo(net, jt) == Target(net, JointLink(net, jt))

(* a joint declared from both sides with agreeing contact points and offsets
   is one joint: the mirrored declaration of jt *)
MirrorOf(net, jt) ==
  LET l == JointLink(net, jt)
      j == JointTo(net, jt)
      w == IF l.cp = "start" THEN "pred" ELSE "succ"
      m == IF w = "pred" THEN net[j].pred ELSE net[j].succ
      same == (jt[2] = "pred") = (l.cp = "end")      \* both run the same way
      myend == IF jt[2] = "pred" THEN "start" ELSE "end"
  IN  IF Target(net, m) = jt[1] /\ m.cp = myend /\ m.off = (IF same THEN -l.off ELSE l.off)
      THEN {<<j, w>>} ELSE {}

(* joints up to mirroring: the representative is the one with the smaller road *)
Edges(net) == {jt \in Joints(net) :
                  ~ \E m \in MirrorOf(net, jt) : m[1] < jt[1] \/ (m[1] = jt[1] /\ m[2] = "pred" /\ jt[2] = "succ")}

RECURSIVE Component(_, _, _)
Component(net, es, set) ==
  LET more == {i \in Roads(net) \ set : \E e \in es : \/ e[1] = i /\ JointTo(net, e) \in set
                                                      \/ e[1] \in set /\ JointTo(net, e) = i}
  IN  IF more = {} THEN set ELSE Component(net, es, set \cup more)

(* no cycle, anchors counted as one node: then every declared link must be flush *)
IsForest(net) ==
  LET es == Edges(net)
  IN  \A e \in es :
        LET i == e[1]
            j == JointTo(net, e)
            c == Component(net, es \ {e}, {i})
            a == Anchors(net)
        IN  /\ i # j
            /\ j \notin c
            /\ ~ (c \cap a # {} /\ Component(net, es \ {e}, {j}) \cap a # {})

(* roads chained to the anchors through flush links *)
RECURSIVE FlushClosure(_, _, _)
FlushClosure(net, good, set) ==
  LET more == {i \in Roads(net) \ set : \E e \in good : \/ e[1] = i /\ JointTo(net, e) \in set
                                                        \/ e[1] \in set /\ JointTo(net, e) = i}
  IN  IF more = {} THEN set ELSE FlushClosure(net, good, set \cup more)

-----------------------------------------------------------------------------
(* One placement step as the library performs it: road i is placed from a    *)
(* joint whose other side is placed.  Used by the models (any order).        *)
StartFromEnd(p, disps) ==       \* p: end pose; the start pose of the chain
  LET RECURSIVE Back(_, _)
      Back(q, k) == IF k = 0 THEN q ELSE Back(StartOf(q, disps[k]), k - 1)
  IN  Reverse(Back(Reverse(p), Len(disps)))

(* start poses road i can be given by one step, from the start poses of the placed *)
PlaceOptions(net, i, start) ==
  LET placed == DOMAIN start
      EndP(j) == ChainEnd(start[j], net[j].disps)
      own == {<<"own", w>> : w \in {x \in {"pred", "succ"} :
                 Target(net, IF x = "pred" THEN net[i].pred ELSE net[i].succ) \in placed}}
      viaC == {<<c, w>> \in placed \X {"pred", "succ"} :
                 net[c].conn /\ Target(net, IF w = "pred" THEN net[c].pred ELSE net[c].succ) = i}
      FromOwn(w) == LET l == IF w = "pred" THEN net[i].pred ELSE net[i].succ
                        j == Target(net, l)
                        p == JointPose(w, l, start[j], EndP(j))
                    IN  IF w = "pred" THEN p ELSE StartFromEnd(p, net[i].disps)
      (* the connecting road c is at the joint: undo its shift and direction *)
      FromConn(c, w) == LET l == IF w = "pred" THEN net[c].pred ELSE net[c].succ
                            q == IF w = "pred" THEN start[c] ELSE EndP(c)
                            f == ShiftLeft(q, -(l.off * LaneW))
                        IN  IF w = "pred"
                            THEN IF l.cp = "end" THEN StartFromEnd(f, net[i].disps) ELSE Reverse(f)
                            ELSE IF l.cp = "start" THEN f ELSE StartFromEnd(Reverse(f), net[i].disps)
  IN  {FromOwn(x[2]) : x \in own} \cup {FromConn(x[1], x[2]) : x \in viaC}

-----------------------------------------------------------------------------
(* C04, C05: lane links.  A lane link is [road, sec, lane, tag, to].         *)
Consecutive(net, i, j) ==
  /\ i # j /\ ~net[i].conn /\ ~net[j].conn
  /\ Target(net, net[i].succ) = j
  /\ Target(net, net[j].pred) = i

CountsDiffer(net, i, j) == LET k == Len(net[i].nl)
                           IN  net[i].nl[k] # net[j].nl[1] \/ net[i].nr[k] # net[j].nr[1]

LaneCountError(net) == \E i, j \in Roads(net) : Consecutive(net, i, j) /\ CountsDiffer(net, i, j)

LanesOf(net, i, k) == (1 .. net[i].nl[k]) \cup {-x : x \in 1 .. net[i].nr[k]}

RoadLaneLinks(net) ==
  UNION {LET k == Len(net[i].nl)
         IN  {[road |-> i, sec |-> k, lane |-> l, tag |-> "successor", to |-> l] : l \in LanesOf(net, i, k)}
             \cup {[road |-> j, sec |-> 1, lane |-> l, tag |-> "predecessor", to |-> l] : l \in LanesOf(net, j, 1)}
         : <<i, j>> \in {p \in Roads(net) \X Roads(net) : Consecutive(net, p[1], p[2])}}

(* direction of the road named by link l as seen along the connecting road *)
SignOf(which, cp) == IF which = "pred" THEN (IF cp = "end" THEN 1 ELSE -1)
                                       ELSE (IF cp = "start" THEN 1 ELSE -1)
LaneOn(which, l, lane) == SignOf(which, l.cp) * (lane + l.off)

ConnLaneLinks(net) ==
  UNION {LET w == jt[2]
             l == JointLink(net, jt)
             k == IF w = "pred" THEN 1 ELSE Len(net[jt[1]].nl)
         IN  {[road |-> jt[1], sec |-> k, lane |-> x,
               tag |-> IF w = "pred" THEN "predecessor" ELSE "successor",
               to |-> LaneOn(w, l, x)] : x \in LanesOf(net, jt[1], k)}
         : jt \in {x \in Joints(net) : net[x[1]].conn /\ ~net[JointTo(net, x)].conn}}

(* C08: the connections of a junction made of the connecting roads js        *)
JunctionTable(net, js) ==
  UNION {{[inc |-> JointLink(net, <<c, w>>).id, con |-> net[c].id,
           cp |-> IF w = "pred" THEN "start" ELSE "end",
           ll |-> LET k == IF w = "pred" THEN 1 ELSE Len(net[c].nl)
                  IN  {<<LaneOn(w, JointLink(net, <<c, w>>), x), x>> : x \in LanesOf(net, c, k)}]
          : w \in {"pred", "succ"}} : c \in js}
=============================================================================
