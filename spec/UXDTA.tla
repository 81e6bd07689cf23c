------------------------------- MODULE UXDTA -------------------------------
(* Day-to-day assignment: what a day of the equilibrium (DUE) and system     *)
(* optimum (DSO) solvers may do.  A day is: simulate with the routes given,  *)
(* price every route of the route set from the recorded link times, let some *)
(* travellers change to a strictly cheaper route.                            *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
Rng(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
(* a recorded series is constant within a time step and beyond its end *)
At(a, t, dt) == a[IF t < 0 THEN 1 ELSE Min2(Len(a), (t \div dt) + 1)]
(* the times at which a traveller starting at t enters the links of r *)
RECURSIVE Entries(_, _, _, _)
Entries(TT, r, t, dt) == IF r = <<>> THEN <<t>>
                         ELSE <<t>> \o Entries(TT, Tail(r), t + At(TT[r[1]], t, dt), dt)
Travel(TT, r, t, dt) == LET e == Entries(TT, r, t, dt) IN e[Len(e)] - t
Tolls(TO, r, e, dt) == SumSeq([k \in 1..Len(r) |-> At(TO[r[k]], e[k], dt)])
(* private cost: travel time, and the tolls at the moments of entering *)
CostDUE(TT, TO, r, t, dt) == Travel(TT, r, t, dt) + Tolls(TO, r, Entries(TT, r, t, dt), dt)
CostOwn(TT, TO, r, ts, dt) == Travel(TT, r, ts[1], dt) + Tolls(TO, r, ts, dt)
(* Congestion externality of a traveller entering link l in step k (from 0): *)
(* the vehicles that entered after it while the queue it met was not         *)
(* cleared, each delayed by the headway it used at the exit.  Free == 1.01   *)
(* of the free-flow travel time.  -1: needs data beyond the horizon.         *)
RECURSIVE QueueTail(_, _, _, _, _, _)
QueueTail(T, A, D, free, dt, i) ==
  IF i + 1 > Len(T) THEN -1
  ELSE LET j == i + (T[i + 1] \div dt) + 1 IN
       IF T[i + 1] * 100 <= free * 101 THEN i - 1
       ELSE IF j > Len(A) THEN -1
       ELSE IF A[j] - D[j] > 0 THEN QueueTail(T, A, D, free, dt, i + 1)
       ELSE i - 1
RECURSIVE LastDrop(_, _, _)
LastDrop(D, i, ref) == IF i <= 0 THEN ref
                       ELSE IF D[i + 1] < D[ref + 1] THEN i ELSE LastDrop(D, i - 1, ref)
ExtLink(T, A, D, free, dt, k) ==
  IF k + 1 > Len(T) THEN -1
  ELSE LET z == QueueTail(T, A, D, free, dt, k)
           out == k + (T[k + 1] \div dt) + 1 IN
       IF z = -1 \/ out + 1 > Len(D) THEN -1
       ELSE LET e == IF z < k THEN k ELSE z IN
            (out - LastDrop(D, out, out)) * dt * (A[e + 1] - A[k + 1])
Ext(TT, A, D, F, r, t, dt) ==
  LET e == Entries(TT, r, t, dt)
      x == [k \in 1..Len(r) |-> ExtLink(TT[r[k]], A[r[k]], D[r[k]], F[r[k]], dt, e[k] \div dt)]
  IN IF \E k \in 1..Len(r) : x[k] = -1 THEN -1 ELSE SumSeq(x)
(* ---- one traveller, one day ---- *)
(* own: the cost of the route used; alt: costs of the routes of the set      *)
Cheaper(own, alt) == {k \in 1..Len(alt) : alt[k] < own}
Potential(own, alt) == Cheaper(own, alt) # {}
Gap(own, alt) == IF Potential(own, alt)
                 THEN own - (CHOOSE m \in {alt[k] : k \in Cheaper(own, alt)} : \A k \in Cheaper(own, alt) : m <= alt[k]) ELSE 0
(* the routes a traveller may be given for the next day *)
MayTake(set, route, own, alt, forced) ==
  IF forced /\ route \notin Rng(set) THEN {set[1]}
  ELSE {route} \cup {set[k] : k \in Cheaper(own, alt)}
=============================================================================
