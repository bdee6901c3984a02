--------------------------------- MODULE Build ---------------------------------
(* Calls of the library written by the models: what a user program consists   *)
(* of.  Field for field these are the events that OdrLib and Doc speak about, *)
(* and the programs that harness/exec.py runs on the real library.            *)
EXTENDS Doc, Json

N(q) == [s |-> ToString(q), q |-> q]          \* exec.py replaces s by the exact text
NG == [s |-> "~", q |-> 0]

CLine(h, len) == [op |-> "Line", h |-> h, len |-> N(len)]
CArcLen(h, r, len) == [op |-> "Arc", h |-> h, r |-> r, k |-> "k", hl |-> TRUE, ha |-> FALSE, len |-> len, ang |-> 0]
CArcAng(h, r, ang) == [op |-> "Arc", h |-> h, r |-> r, k |-> "k", hl |-> FALSE, ha |-> TRUE, len |-> 0, ang |-> ang]
CSpiral(h, r0, r1, how, x) ==
  [op |-> "Spiral", h |-> h, r0 |-> r0, r1 |-> r1, k0 |-> "k0", k1 |-> "k1", hl |-> how = "len", ha |-> how = "ang", hc |-> how = "rate",
   len |-> IF how = "len" THEN x ELSE 0, ang |-> IF how = "ang" THEN x ELSE 0, rl |-> IF how = "rate" THEN x ELSE 0]
CPoly(h, pr, len, u, v) == [op |-> "Poly", h |-> h, pr |-> pr, hl |-> pr = "arcLength", len |-> len, u |-> u, v |-> v, at |-> NoFun]

CPlan(h, fixed, p) == [op |-> "Plan", h |-> h, gx |-> fixed, gy |-> fixed, gh |-> fixed, x |-> p.x, y |-> p.y, hd |-> p.h]
CPGeo(p, g) == [op |-> "PGeo", p |-> p, g |-> g]
CLane(h, w) == [op |-> "Lane", h |-> h, type |-> "~", a |-> N(w), b |-> NG, c |-> NG, d |-> NG, so |-> NG]
CSec(h, s, c) == [op |-> "Sec", h |-> h, s |-> N(s), c |-> c]
CAddL(s, l) == [op |-> "AddL", s |-> s, l |-> l]
CAddR(s, l) == [op |-> "AddR", s |-> s, l |-> l]
CLanes(h) == [op |-> "Lanes", h |-> h]
CAddSec(n, s, mode, ks) == [op |-> "AddSec", n |-> n, s |-> s, mode |-> mode, ks |-> ks]
CRoad(h, id, plan, lanes, type) == [op |-> "Road", h |-> h, id |-> id, plan |-> plan, lanes |-> lanes, type |-> type, name |-> "~", rule |-> "~"]
CLinkOp(op, r, et, id, cp, off) == [op |-> op, r |-> r, et |-> et, id |-> id, cp |-> cp, off |-> off]
CSucc(r, et, id, cp, off) == CLinkOp("Succ", r, et, id, cp, off)
CPred(r, et, id, cp, off) == CLinkOp("Pred", r, et, id, cp, off)
CNeigh(r, id, dir) == [op |-> "Neigh", r |-> r, et |-> "road", id |-> id, dir |-> dir]
CNet(h) == [op |-> "Net", h |-> h, name |-> h]
CAddRoad(n, r) == [op |-> "AddRoad", n |-> n, r |-> r]
CAdjust(n) == [op |-> "Adjust", n |-> n]
CPlace(n) == [op |-> "Place", n |-> n]
CMatch(a, b) == [op |-> "Match", a |-> a, b |-> b]
CExport(n) == [op |-> "Export", n |-> n]
CREl(r) == [op |-> "REl", r |-> r]

CObj(h, id) == [op |-> "Obj", h |-> h, s |-> N(0), t |-> N(10000), id |-> id, type |-> "~", typeE |-> TRUE, sub |-> "~", name |-> "~", dyn |-> "~",
                ori |-> "~", zo |-> "~", hdg |-> "~", pitch |-> "~", roll |-> "~", width |-> "~", length |-> "~", height |-> "~", radius |-> "~", vl |-> "~"]
CSig(h, id) == [op |-> "Sig", h |-> h, s |-> N(0), t |-> N(10000), id |-> id, cnt |-> "se", cntU |-> "SE", type |-> "274", sub |-> "~", name |-> "~",
                unit |-> "~", dyn |-> "~", ori |-> "~", zo |-> "~", ho |-> "~", pitch |-> "~", roll |-> "~", height |-> "~", width |-> "~", value |-> "~"]
CAddTo(op, r, xs) == [op |-> op, r |-> r, xs |-> xs, mode |-> IF Len(xs) = 1 THEN "one" ELSE "list", ids |-> <<>>]

CJunc(h, id) == [op |-> "Junc", h |-> h, name |-> h, id |-> id]
CConn(h, inc, con, cp, id) == [op |-> "Conn", h |-> h, inc |-> inc, con |-> con, cp |-> cp, id |-> id]
CCLink(c, f, t) == [op |-> "CLink", c |-> c, f |-> f, t |-> t, fs |-> ToString(f), ts |-> ToString(t)]
CAddConn(j, c) == [op |-> "AddConn", j |-> j, c |-> c, got |-> "~"]
CAddJunc(n, j) == [op |-> "AddJunc", n |-> n, j |-> j]

CMark(h, type) == [op |-> "Mark", h |-> h, type |-> type, width |-> "~", length |-> "~", space |-> "~", toffset |-> "~", soffset |-> "~",
                   height |-> "~", rule |-> "~", color |-> "~", weight |-> "~", change |-> "~"]

(* a side of n lanes of width w *)
RECURSIVE SideCalls(_, _, _, _, _)
SideCalls(s, side, n, w, i) ==
  IF i > n THEN <<>>
  ELSE LET l == s \o side \o ToString(i)
       IN  <<CLane(l, w), IF side = "l" THEN CAddL(s, l) ELSE CAddR(s, l)>> \o SideCalls(s, side, n, w, i + 1)

(* lane sections: cs[i] = <<left, right>>, each 10 m long *)
RECURSIVE SecCalls(_, _, _, _)
SecCalls(h, cs, w, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET s == h \o ".s" \o ToString(i)
       IN  <<CLane(s \o "c", 0), CSec(s, 100000 * (i - 1), s \o "c")>>
           \o SideCalls(s, "l", cs[i][1], w, 1) \o SideCalls(s, "r", cs[i][2], w, 1)
           \o <<CAddSec(h \o ".n", s, "none", <<>>)>> \o SecCalls(h, cs, w, i + 1)

(* a road h with geometries gs (handles, made before), start pose p if fixed *)
RoadCalls(h, id, type, fixed, p, gs, cs) ==
  <<CPlan(h \o ".p", fixed, p)>> \o [i \in 1 .. Len(gs) |-> CPGeo(h \o ".p", gs[i])]
  \o <<CLanes(h \o ".n")>> \o SecCalls(h, cs, IF type = "-1" THEN 30000 ELSE 35000, 1) \o <<CRoad(h, id, h \o ".p", h \o ".n", type)>>

(* the state after a sequence of calls *)
After(st, calls) == FoldSeq_(LAMBDA s, c : IF "ok" \in Outs(s, c) THEN Eff(s, c) ELSE s, st, calls)

Program(calls) == PrintT("PROGRAM " \o ToJson(calls))

RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}
=============================================================================
