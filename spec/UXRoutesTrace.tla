---------------------------- MODULE UXRoutesTrace ----------------------------
(* Judges the answers of the real route utilities and Route objects. *)
EXTENDS UXRoutes, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.UX_CASES)
VARIABLES cid, done
B(c, n) == IF c THEN {} ELSE {n}
Near(a, b, tol) == Abs(a - b) <= tol
Dist(c, C, o, d) == DistTo(c.L, C, c.N, d)[o]
(* links between the same nodes count with the mean of their costs *)
MeanCost(c, C, l) == LET P == {m \in 1..Len(c.L) : c.L[m].s = c.L[l].s /\ c.L[m].e = c.L[l].e}
                     IN SumF(C, P) \div Cardinality(P)
Short(c, q) ==
  LET All == AllRoutes(c.L, q.o, q.d) IN
  IF All = {} THEN B(q.err = 1, "route-from-nowhere")
  ELSE IF q.err = 1 THEN {"no-route-found"}
  ELSE B(Rng(q.routes) \subseteq All, "not-a-route")
       \cup B(Distinct(q.routes), "route-twice")
       \cup (IF Rng(q.routes) \subseteq All
             THEN B(Len(q.routes) = Min(q.k, Cardinality(All)), "number-of-routes")
                  \cup B(KShortest(c.L, q.C, q.o, q.d, q.k, q.routes, q.tol), "not-the-shortest-in-order")
                  \cup (IF q.hascost = 1
                        THEN B(Len(q.costs) = Len(q.routes) /\ \A k \in 1..Len(q.costs) : Near(q.costs[k], RouteCost(q.C, q.routes[k]), q.tol), "route-cost")
                        ELSE {})
             ELSE {})
Random(c, q) ==
  UNION {LET rs == q.R[p].routes o == q.R[p].o d == q.R[p].d All == AllRoutes(c.L, o, d) IN
         B(Rng(rs) \subseteq All, "not-a-route") \cup B(Distinct(rs), "route-twice")
         \cup B(All = {} \/ rs # <<>>, "no-route-found") \cup B(Len(rs) <= q.k, "number-of-routes")
         \cup (IF Rng(rs) \subseteq All THEN B(KRandom(c.L, q.C, o, d, q.k, rs, q.tol), "shortest-not-included") ELSE {}) : p \in 1..Len(q.R)}
  \cup B(\A o \in 1..c.N : \A d \in 1..c.N : (o # d /\ AllRoutes(c.L, o, d) # {}) => \E p \in 1..Len(q.R) : q.R[p].o = o /\ q.R[p].d = d, "pair-missing")
Obj(c, q) ==
  LET known == \A k \in 1..Len(q.path) : q.path[k] \in 1..Len(c.L)
      good == known /\ Connects(c.L, q.path) IN
  B(q.ok = (IF good THEN 1 ELSE 0), "route-acceptance")
  \cup (IF q.ok = 1 /\ good THEN B(q.links = q.path /\ q.names = q.path /\ q.n = Len(q.path) /\ q.item = q.path, "route-content")
                         \cup B(\A k \in 1..Len(q.eq) : q.eq[k].same = (IF q.eq[k].path = q.path THEN 1 ELSE 0), "route-equality")
        ELSE {})
TT(c, q) ==
  LET x == Experienced(q.A, [k \in 1..Len(q.path) |-> k], q.t, q.dt) IN
  B(Len(q.det) = Len(x) /\ \A k \in 1..Len(x) : Near(q.det[k], x[k], 2), "link-times-of-route")
  \cup B(Near(q.tt, SumSeq(x), 3) /\ Near(q.tt2, SumSeq(x), 3), "route-travel-time")
Dists(c, q) ==
  LET C == IF q.mean = 1 THEN [l \in 1..Len(c.L) |-> MeanCost(c, q.C, l)] ELSE q.C IN
  UNION {LET D == DistTo(c.L, C, c.N, d) IN
         UNION {B(IF D[o] >= INFTY THEN q.M[o][d] = -1 ELSE Near(q.M[o][d], D[o], q.tol), "shortest-distance") : o \in 1..c.N} : d \in 1..c.N}
  \cup B(q.agree = 1, "distance-forms-differ")
  \cup (IF q.rt >= 0 THEN B(q.rt = q.at, "time-of-distance") ELSE {})
(* a path is a sequence of places [node, cell]; it is worth the best links between them *)
Hop(c, q, a, b) == {q.A[l][a[2] + 1] : l \in {l \in 1..Len(c.L) : c.L[l].s = a[1] /\ c.L[l].e = b[1] /\ Cell(q.A, l, a[2], q.g) = b[2]}}
TSPath(c, q, s, v) ==
  LET p == s.path[v] IN
  IF p = <<>> THEN B(s.cost[v] = -1, "time-space-path-missing")
  ELSE B(p[1] = <<s.v, s.k>> /\ p[Len(p)][1] = v /\ \A k \in 1..Len(p) - 1 : Hop(c, q, p[k], p[k + 1]) # {}, "not-a-time-space-path")
       \cup (IF \A k \in 1..Len(p) - 1 : Hop(c, q, p[k], p[k + 1]) # {}
             THEN B(Near(SumSeq([k \in 1..Len(p) - 1 |-> MinOf(Hop(c, q, p[k], p[k + 1]))]), s.cost[v], 2), "time-space-path-cost") ELSE {})
TSN(c, q) ==
  B(q.missing = 0, "time-space-source-missing")
  \cup UNION {LET s == q.S[i] D == TLCEval(TimeSpace(c.L, q.A, c.N, q.g, q.cells, q.tmax, s.v, s.k)) IN
        UNION {B(IF TimeSpaceCost(D, v) >= INFTY THEN s.cost[v] = -1 ELSE Near(s.cost[v], TimeSpaceCost(D, v), 2), "time-space-cost")
               \cup TSPath(c, q, s, v) : v \in 1..c.N} : i \in 1..Len(q.S)}
Bad(c, q) == CASE q.kind = "short" -> Short(c, q) [] q.kind = "rand" -> Random(c, q) [] q.kind = "obj" -> Obj(c, q)
               [] q.kind = "tt" -> TT(c, q) [] q.kind = "dist" -> Dists(c, q) [] q.kind = "tsn" -> TSN(c, q)
Verdict(c) == UNION {Bad(c, c.Q[k]) : k \in 1..Len(c.Q)}
Init == cid \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ PrintT("@@V " \o ToJson([id |-> Cases[cid].id, bad |-> Verdict(Cases[cid])]))
Spec == Init /\ [][Next]_<<cid, done>>
=============================================================================
