------------------------------- MODULE UXDemand -----------------------------
(***************************************************************************)
(* Demand definitions and the vehicles they must create.                   *)
(* A case holds the nodes of a network and the demand calls made on it,    *)
(* each with the vehicles that appeared (origin, destination, departure    *)
(* step, the step in which it leaves home, attribute kept).                          *)
(* Units: period ts..te in 1/10 s, dt in 1/10 s, rate in 1/1000 vehicle    *)
(* per second or volume in 1/100 vehicle, coordinates in m.                *)
(***************************************************************************)
EXTENDS UXCore, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.UX_CASES)
VARIABLES cid, done
B(c, n) == IF c THEN {} ELSE {n}
SetOf(s) == {s[k] : k \in 1..Len(s)}

(*----- who may be drawn -----*)
D2(n, p) == (n.x - p[1]) * (n.x - p[1]) + (n.y - p[2]) * (n.y - p[2])
Nearest(c, p) == {k \in 1..Len(c.N) : \A j \in 1..Len(c.N) : D2(c.N[k], p) <= D2(c.N[j], p)}
InArea(c, p, r) == {k \in 1..Len(c.N) : D2(c.N[k], p) < r * r}
Sources(c, S) == {k \in S : c.N[k].out}
Sinks(c, S) == {k \in S : c.N[k].inn}
(* an area without a usable node stands for the node nearest to its centre *)
AreaO(c, q) == LET S == Sources(c, InArea(c, q.po, q.ro)) IN IF S = {} THEN Nearest(c, q.po) ELSE S
AreaD(c, q) == LET S == Sinks(c, InArea(c, q.pd, q.rd)) IN IF S = {} THEN Nearest(c, q.pd) ELSE S
Origins(c, q) ==
  IF q.k = "point" THEN Nearest(c, q.po)
  ELSE IF q.k \in {"area", "area2"} THEN AreaO(c, q)
  ELSE IF q.k = "one" THEN SetOf(q.os)
  ELSE Sources(c, SetOf(q.os))
Dests(c, q) ==
  IF q.k = "point" THEN Nearest(c, q.pd)
  ELSE IF q.k \in {"area", "area2"} THEN AreaD(c, q)
  ELSE IF q.k = "one" THEN SetOf(q.ds)
  ELSE Sinks(c, SetOf(q.ds))

(*----- how many, when -----*)
K0(c, q) == q.ts \div c.dt
K1(c, q) == q.te \div c.dt
(* requested vehicles, times Scale, of the first n steps *)
Scale(q) == IF q.vol > 0 THEN 100 * (q.te - q.ts) ELSE 10000
Req(c, q, n) == IF q.vol > 0 THEN q.vol * c.dt * n ELSE q.flow * c.dt * n
(* the cumulative departures m after n of the period's steps, of a share 1/p of the demand:
   never ahead of the rate, less than a platoon behind it *)
OnCurve(c, q, m, n, p) ==
  /\ m * c.dn * Scale(q) * p <= Req(c, q, n)
  /\ (m + 1) * c.dn * Scale(q) * p > Req(c, q, n)
Count(S, c, q, n) == Cardinality({i \in S : q.made[i][3] < K0(c, q) + n})
Spread(S, c, q, p) == \A n \in 1..(K1(c, q) - K0(c, q)) : OnCurve(c, q, Count(S, c, q, n), n, p)

(* smooth demands: int(volume / platoon) vehicles at equidistant times from ts to te *)
TotV(q) == IF q.vol > 0 THEN q.vol * 10 ELSE (q.flow * (q.te - q.ts)) \div 10        \* 1/1000 vehicle
Slack(q) == IF q.vol > 0 THEN 0 ELSE IF (q.flow * (q.te - q.ts)) % 10 = 0 THEN 0 ELSE 1
SizeOk(c, q, m) == m * c.dn * 1000 <= TotV(q) + Slack(q) /\ (m + 1) * c.dn * 1000 > TotV(q) - Slack(q)
Smooth(c, q, m, i) ==
  LET num == IF m = 1 THEN q.ts ELSE q.ts * (m - 1) + (q.te - q.ts) * (i - 1)
      den == (IF m = 1 THEN 1 ELSE m - 1) * c.dt
      k == num \div den
  IN q.made[i][3] = k

Call(c, q) ==
  LET V == 1..Len(q.made)
      O == Origins(c, q)
      D == Dests(c, q)
      old == q.k \in {"one", "point", "area", "nodes"}
      np == IF q.k = "area" \/ q.k = "nodes" THEN Cardinality(O) * Cardinality(D) ELSE 1
  IN B(\A i \in V : q.made[i][1] \in O, "demand-origin")
     \cup B(\A i \in V : q.made[i][2] \in D, "demand-destination")
     \cup B(\A i \in V : q.made[i][5] = 1, "demand-attribute")
     \cup B(\A i \in V : q.made[i][3] >= K0(c, q) /\ q.made[i][3] <= K1(c, q), "demand-period")
     \cup B(\A i \in V : q.made[i][4] = q.made[i][3] \/ (q.made[i][4] = -1 /\ q.made[i][3] >= c.n - 1), "demand-departs-then")
     \cup (IF old THEN
             B(\A i \in V : q.made[i][3] < K1(c, q) \/ K1(c, q) = K0(c, q), "demand-period")
             \cup UNION {B(LET S == {i \in V : np = 1 \/ (q.made[i][1] = o /\ q.made[i][2] = d)} IN Spread(S, c, q, np), "demand-rate") :
                         o \in (IF np = 1 THEN {0} ELSE O), d \in (IF np = 1 THEN {0} ELSE D)}
           ELSE B(SizeOk(c, q, Len(q.made)), "demand-volume")
                \cup B(\A i \in V : q.made[i][1] # q.made[i][2], "demand-same-node")
                \cup B(\A i \in V : Smooth(c, q, Len(q.made), i), "demand-even")
                (* with this many draws from four nodes at most, each is drawn *)
                \cup (IF Len(q.made) >= 100 /\ Cardinality(O \cup D) <= 4 /\ Cardinality(O) > 1 /\ Cardinality(D) > 1
                      THEN B(O \subseteq {q.made[i][1] : i \in V}, "demand-all-origins") \cup B(D \subseteq {q.made[i][2] : i \in V}, "demand-all-destinations")
                      ELSE {}))
Clauses(c) == UNION {Call(c, c.Q[i]) : i \in 1..Len(c.Q)} \cup B(c.extra = 0, "demand-stray-vehicle")

Init == cid \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ PrintT("@@V " \o ToJson([id |-> Cases[cid].id, bad |-> Clauses(Cases[cid])]))
Spec == Init /\ [][Next]_<<cid, done>>
=============================================================================
