---------------------------- MODULE UXTaxiTrace ------------------------------
(* Recorded taxi operations of the real handlers against the machine of UXTaxi:
   every observed state must be the one the specification reaches.  Times are
   in 1/10 s, coordinates in dm. *)
EXTENDS UXTaxi, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.UX_CASES)
VARIABLES cid, i, S, tm, bad
vars == <<cid, i, S, tm, bad>>
B(c, n) == IF c THEN {} ELSE {n}
Tol == 3
RECURSIVE ReachAll(_, _, _)
ReachAll(st, at, v) == IF v > Len(at) THEN st ELSE ReachAll(IF at[v] = 0 THEN st ELSE Reach(st, v, at[v]), at, v + 1)
RECURSIVE AssignAll(_, _)
AssignAll(st, ps) == IF ps = <<>> THEN st ELSE AssignAll(Assign(st, ps[1][2], ps[1][1]), Tail(ps))
Observed(st, q) ==
  B(\A r \in 1..Len(st.R) : q.R[r][1] = st.R[r].st, "request-stage")
  \cup B(\A r \in 1..Len(st.R) : q.R[r][2] = st.R[r].tx, "request-taxi")
  \cup B(\A v \in 1..Len(st.V) : q.V[v][1] = st.V[v].dest, "taxi-destination")
  \cup B(\A v \in 1..Len(st.V) : q.V[v][2] = st.V[v].list, "taxi-destination-list")
(* pick-up and drop-off times, set when it happens and never changed *)
Timed(c, q, st) ==
  UNION {LET now == q.T * c.dt m == tm[r] tp == q.R[r][3] ta == q.R[r][4] was == S.R[r].st is == st.R[r].st IN
         B(IF is < Aboard THEN tp = -1 ELSE IF was < Aboard THEN Abs(tp - now) <= c.dt ELSE tp = m.tp, "pickup-time")
         \cup B(IF is < Finished THEN ta = -1 ELSE IF was < Finished THEN Abs(ta - now) <= c.dt ELSE ta = m.ta, "dropoff-time")
         \cup B((is >= Assigned => m.ts >= S.R[r].dep) /\ (is >= Aboard => tp >= m.ts) /\ (is = Finished => ta >= tp), "times-decrease") : r \in 1..Len(st.R)}
Step(c, q) ==
  CASE q.k = "req" -> [S |-> [S EXCEPT !.R = Append(@, NewReq(q.o, q.d, q.dep))], bad |-> {}]
    [] q.k = "taxi" -> [S |-> [S EXCEPT !.V = Append(@, NewTaxi(q.d, c.N))], bad |-> {}]
    [] q.k = "dest" -> [S |-> [S EXCEPT !.V[q.v] = AddDest(@, q.d, q.order)], bad |-> {}]
    [] q.k = "match" ->
         LET F == {v \in 1..Len(S.V) : Vacant(S.V[v]) /\ q.run[v] = 1}
             W == Asc(Waiting(S, q.now))
             OQ == [r \in 1..Len(S.R) |-> c.XY[S.R[r].o]]
             known == \A k \in 1..Len(q.pairs) : q.pairs[k][2] \in F /\ q.pairs[k][1] \in Rng(W)
             S1 == IF known THEN AssignAll(S, q.pairs) ELSE S
         IN [S |-> S1, bad |-> IF ~known THEN {"assigned-taxi-not-vacant-or-request-not-waiting"}
               ELSE B(Matching(q.pol, q.rad, Tol, W, F, q.pairs, q.P, OQ), "matching-policy")
                    \cup B(q.pol = "radius" \/ Len(q.pairs) = Min(Len(W), Cardinality(F)), "taxi-left-idle")
                    \cup Observed(S1, q)]
    [] q.k = "step" ->
         LET S1 == ReachAll(S, q.at, 1)
         IN [S |-> S1, bad |-> Observed(S1, q) \cup Timed(c, q, S1)
               \cup B(\A v \in 1..Len(S1.V) : q.V[v][3] = 1, "taxi-stopped")
               \cup B(\A k \in 1..Len(q.cr) : \E j \in 1..Len(q.cr[k]) : q.cr[k][j][1] > 0 \/ q.cr[k][j][2] = 0, "not-towards-destination")
               \cup B(c.direct = 1 \/ (OneAtATime(S1) /\ VacantMeansFree(S1) /\ Headed(S1)), "guarantees")]
NewTm(q, S1) ==
  [r \in 1..Len(S1.R) |->
     LET old == IF r <= Len(tm) THEN tm[r] ELSE [ts |-> -1, tp |-> -1, ta |-> -1] IN
     IF q.k = "match" THEN [old EXCEPT !.ts = IF S.R[r].st = Open /\ S1.R[r].st = Assigned THEN q.now ELSE @]
     ELSE IF q.k = "step" THEN [old EXCEPT !.tp = q.R[r][3], !.ta = q.R[r][4]]
     ELSE old]
(* the reported tables follow from the records *)
Tables(c) ==
  LET f == c.fin n == Len(S.R)
      Row(r) == LET m == tm[r] IN <<S.R[r].o, S.R[r].d, S.R[r].dep, m.tp, m.ta, IF m.ta = -1 THEN -1 ELSE m.ta - S.R[r].dep,
                                    IF m.tp = -1 THEN -1 ELSE m.tp - S.R[r].dep, S.R[r].tx>>
      Done == {r \in 1..n : S.R[r].st = Finished}
      Got == {r \in 1..n : S.R[r].st >= Aboard}
      Mean(q, T, g(_)) == IF T = {} THEN q = 0 ELSE Abs(q * Cardinality(T) - SumF([r \in T |-> g(r)], T)) <= Cardinality(T)
      wt(r) == tm[r].tp - S.R[r].dep   it(r) == tm[r].ta - tm[r].tp   tt(r) == tm[r].ta - S.R[r].dep
  IN B(Len(f.rows) = n /\ \A r \in 1..n : f.rows[r] = Row(r), "trip-table")
     \cup B(f.total = n * c.dn /\ f.completed = Cardinality(Done) * c.dn, "request-counts")
     \cup B(Mean(f.wait, Got, wt) /\ Mean(f.inveh, Done, it) /\ Mean(f.travel, Done, tt), "taxi-averages")
     \cup B(f.named = 1, "request-by-name")
Init == cid \in 1..Len(Cases) /\ i = 1 /\ S = [R |-> <<>>, V |-> <<>>] /\ tm = <<>> /\ bad = {}
Next ==
  LET c == Cases[cid] IN
  \/ /\ i <= Len(c.E)
     /\ LET r == Step(c, c.E[i]) IN
        /\ S' = r.S
        /\ bad' = bad \cup (IF bad = {} THEN r.bad ELSE {})
        /\ tm' = NewTm(c.E[i], r.S)
     /\ i' = i + 1 /\ UNCHANGED cid
  \/ /\ i = Len(c.E) + 1
     /\ bad' = bad \cup (IF bad = {} THEN Tables(c) ELSE {})
     /\ PrintT("@@V " \o ToJson([id |-> c.id, bad |-> bad']))
     /\ i' = i + 1 /\ UNCHANGED <<cid, S, tm>>
Spec == Init /\ [][Next]_vars
=============================================================================
