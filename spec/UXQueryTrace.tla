---------------------------- MODULE UXQueryTrace ----------------------------
(***************************************************************************)
(* Answers given by the running engines, at pauses, inside user functions  *)
(* and at the end, against UXQuery.  Units: len in dm, u and v in mm/s,    *)
(* travel times in ms, densities times 10^5, flows times 10^5, positions   *)
(* in dm.                                                                  *)
(***************************************************************************)
EXTENDS UXQuery, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.UX_CASES)
VARIABLES cid, i, bad
vars == <<cid, i, bad>>
B(c, n) == IF c THEN {} ELSE {n}
Near(a, b, tol) == AbsI(a - b) <= tol

Ask(c, l, k) ==
  LET q == k.q  r == k.r  N == IF k.k \in {"num", "density", "flow"} THEN Volume(l.A, l.D, q) ELSE 0 IN
  CASE k.k = "arr" -> r = At(l.A, q)
    [] k.k = "dep" -> r = At(l.D, q)
    [] k.k = "num" -> r = N
    [] k.k = "density" -> Near(r * l.len, N * 1000000, l.len)
    [] k.k = "itt" -> Near(r, At(l.TI, q), 1)
    [] k.k = "att" -> Near(r, At(l.TA, q), 1)
    [] k.k = "speed" -> Near(r * (At(l.TI, q) \div 100), l.len * 1000, (At(l.TI, q) \div 100) + r + 5)
    [] k.k = "flow" -> Near(r * (At(l.TI, q) \div 100), N * 1000000, (At(l.TI, q) \div 100) + r + 5)
    [] k.k = "inflow" -> Near(r * (k.p - q) * c.dt01, 4000000 * (At(l.A, k.p) - At(l.A, q)), 2 * (k.p - q) * c.dt01)
    [] k.k = "avgtt" ->
         LET n == Entrants(l.A, q, k.p) IN
         IF n = 0 THEN Near((r \div 100) * l.u, l.len * 1000, 2 * l.u)     \* 0.1 s * mm/s; len dm = 100 mm
         ELSE Near(r * n, TimeOfEntrants(l.A, l.TA, q, k.p), 2 * n)
    [] k.k = "toll" -> r = k.p
Live(c, l) ==
  LET n == Len(l.v) IN
  B(l.num = n * c.dn, "query-now-number")
  \cup B(l.queue = Cardinality({j \in 1..n : l.slow[j] = 1}) * c.dn, "query-now-queue")
  \cup B(Near(l.density * l.len, n * c.dn * 1000000, l.len), "query-now-density")
  \cup B(IF n = 0 THEN Near(l.speed, l.u, 1) ELSE Near(l.speed * n, Sum(l.v), 2 * n), "query-now-speed")
  \cup B(LET V == IF n = 0 THEN 0 ELSE Sum(l.v) IN Near((l.flow \div 10) * l.len, c.dn * V * 100, 2 * l.len + n * c.dn * 100), "query-now-flow")
OnLink(len, xy, x) ==
  /\ Near(xy.r[1] * len, xy.s[1] * 10 * len + (xy.e[1] - xy.s[1]) * 10 * x, len + 6 * AbsI(xy.e[1] - xy.s[1]) + 10)
  /\ Near(xy.r[2] * len, xy.s[2] * 10 * len + (xy.e[2] - xy.s[2]) * 10 * x, len + 6 * AbsI(xy.e[2] - xy.s[2]) + 10)
Nowhere == <<-10, -10>>
Pos(c, p) ==      \* latest position
  IF p.l = 0 THEN B(p.r = Nowhere, "query-place-now") ELSE B(OnLink(c.len[p.l], p, p.x), "query-place-now")
PosT(c, w, p) ==
  LET K == LastLogs(w.g, p.q) IN
  B(IF K = {} THEN p.r = Nowhere
    ELSE \E k \in K : IF w.l[k] = 0 THEN p.r = Nowhere
                      ELSE OnLink(c.len[w.l[k]], [r |-> p.r, s |-> c.xy[w.l[k]][1], e |-> c.xy[w.l[k]][2]], w.x[k]), "query-place-then")
Rt(w, t) == B(t.route = Route(w.h) /\ t.ts = Times(w.h, t.arr = 1, t.dep = 1), "query-route")
\* the entry log names, for every step in which someone entered, one who did
EntryLog(l) == LET K == {k \in 0..(Len(l.A) - 1) : Inc(l.A, k) > 0} IN
  B(l.e = 0 \/ ({l.E[j][1] : j \in 1..Len(l.E)} = {4 * k : k \in K} /\ Len(l.E) = Cardinality(K) /\ \A j \in 1..Len(l.E) : l.E[j][2] = 1), "query-entry-log")
Snap(c, s) ==
  UNION {EntryLog(s.L[j]) : j \in 1..Len(s.L)} \cup
  UNION {UNION {B(Ask(c, s.L[j], s.L[j].ask[k]), "query-" \o s.L[j].ask[k].k) : k \in 1..Len(s.L[j].ask)} : j \in 1..Len(s.L)}
  \cup UNION {Live(c, s.now[j]) : j \in 1..Len(s.now)}
  \cup UNION {Pos(c, s.pos[j]) : j \in 1..Len(s.pos)}
  \cup UNION {UNION {PosT(c, s.W[j], s.W[j].pos[k]) : k \in 1..Len(s.W[j].pos)} : j \in 1..Len(s.W)}
  \cup UNION {UNION {Rt(s.W[j], s.W[j].rt[k]) : k \in 1..Len(s.W[j].rt)} : j \in 1..Len(s.W)}
Init == cid \in 1..Len(Cases) /\ i = 1 /\ bad = {}
Next ==
  LET c == Cases[cid] IN
  \/ /\ i <= Len(c.S)
     /\ bad' = bad \cup Snap(c, c.S[i]) /\ i' = i + 1 /\ UNCHANGED cid
  \/ /\ i = Len(c.S) + 1
     \* asking changes nothing, and earlier answers stay as given
     /\ bad' = bad \cup B(c.with = c.without, "query-disturbs") \cup B(c.kept = 1, "query-answer-changes")
     /\ PrintT("@@V " \o ToJson([id |-> c.id, bad |-> bad']))
     /\ i' = i + 1 /\ UNCHANGED cid
Spec == Init /\ [][Next]_vars
=============================================================================
