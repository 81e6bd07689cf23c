------------------------------ MODULE UXRoutes -------------------------------
(***************************************************************************)
(* Routes of a network with possibly several links between two nodes.      *)
(* L is a sequence of links [s, e] (start and end node), a route is a      *)
(* sequence of link numbers, C a sequence of link costs.                   *)
(***************************************************************************)
EXTENDS UXCore, TLC
Connects(L, r) == \A k \in 1..Len(r) - 1 : L[r[k]].e = L[r[k + 1]].s
RECURSIVE Ext(_, _, _, _)
Ext(L, v, d, vis) ==
  IF v = d THEN {<<>>}
  ELSE UNION {{<<l>> \o r : r \in Ext(L, L[l].e, d, vis \cup {L[l].e})} :
              l \in {l \in 1..Len(L) : L[l].s = v /\ L[l].e \notin vis}}
(* all routes from o to d that visit no node twice *)
AllRoutes(L, o, d) == Ext(L, o, d, {o})
RouteCost(C, r) == SumSeq([k \in 1..Len(r) |-> C[r[k]]])
INFTY == 1000000000
(* least cost of going from each node to d, by n rounds of relaxation *)
RECURSIVE Relax(_, _, _, _)
Relax(L, C, D, n) ==
  IF n = 0 THEN D
  ELSE Relax(L, C, [v \in DOMAIN D |->
         MinOf({D[v]} \cup {IF D[L[l].e] = INFTY THEN INFTY ELSE C[l] + D[L[l].e] : l \in {l \in 1..Len(L) : L[l].s = v}})], n - 1)
DistTo(L, C, N, d) == Relax(L, C, [v \in 1..N |-> IF v = d THEN 0 ELSE INFTY], N)
(* travel time of a vehicle starting route r at time t; A[l] holds the link's
   travel time for entries in each time step *)
At(A, t, dt) == LET k == t \div dt IN IF k < 0 THEN A[1] ELSE IF k >= Len(A) THEN A[Len(A)] ELSE A[k + 1]
RECURSIVE Experienced(_, _, _, _)
Experienced(A, r, t, dt) ==
  IF r = <<>> THEN <<>>
  ELSE LET x == At(A[Head(r)], t, dt) IN <<x>> \o Experienced(A, Tail(r), t + x, dt)

(*--------------- time-space network ---------------*)
(* Time is cut into n cells of length g; a link entered in cell k (0-based)
   takes A[l][k+1] and leads to the cell that contains the exit time, if that
   is before the end of the simulation. D[k+1][v] = least cost of being at v in cell k. *)
Cell(A, l, k, g) == (k * g + A[l][k + 1]) \div g
InTime(A, l, k, g, tmax) == Cell(A, l, k, g) * g < tmax
RECURSIVE RelaxCell(_, _, _, _, _, _)   \* links so short that they are left in the cell of their entry
RelaxCell(L, A, g, k, R, n) ==
  IF n = 0 THEN R
  ELSE LET R2 == TLCEval([v \in DOMAIN R |->
         MinOf({R[v]} \cup {R[L[l].s] + A[l][k + 1] : l \in {l \in 1..Len(L) : L[l].e = v /\ R[L[l].s] # INFTY /\ Cell(A, l, k, g) = k}})])
       IN IF R2 = R THEN R ELSE RelaxCell(L, A, g, k, R2, n - 1)
RECURSIVE Advance(_, _, _, _, _, _, _)   \* entries of the links of Go in cell k
Advance(L, A, g, k, R, D, Go) ==
  IF Go = {} THEN D
  ELSE LET l == CHOOSE l \in Go : TRUE
           D2 == TLCEval([D EXCEPT ![Cell(A, l, k, g) + 1][L[l].e] = Min(@, R[L[l].s] + A[l][k + 1])])
       IN Advance(L, A, g, k, R, D2, Go \ {l})
RECURSIVE TSFrom(_, _, _, _, _, _, _)
TSFrom(L, A, g, n, tmax, k, D) ==
  IF k >= n THEN D
  ELSE IF \A v \in DOMAIN D[k + 1] : D[k + 1][v] = INFTY THEN TSFrom(L, A, g, n, tmax, k + 1, D)
  ELSE LET R == TLCEval(RelaxCell(L, A, g, k, D[k + 1], Cardinality(DOMAIN D[k + 1])))
           D1 == TLCEval([D EXCEPT ![k + 1] = R])
           Go == TLCEval({l \in 1..Len(L) : R[L[l].s] # INFTY /\ Cell(A, l, k, g) > k /\ Cell(A, l, k, g) < n /\ InTime(A, l, k, g, tmax)})
       IN TSFrom(L, A, g, n, tmax, k + 1, TLCEval(Advance(L, A, g, k, R, D1, Go)))
TimeSpace(L, A, N, g, n, tmax, v0, k0) ==
  TSFrom(L, A, g, n, tmax, k0, [j \in 1..n |-> [v \in 1..N |-> IF v = v0 /\ j = k0 + 1 THEN 0 ELSE INFTY]])
TimeSpaceCost(D, v) == MinOf({D[j][v] : j \in DOMAIN D})

(*--------------- what an enumeration may return ---------------*)
Distinct(rs) == \A a, b \in 1..Len(rs) : rs[a] = rs[b] => a = b
KShortest(L, C, o, d, k, rs, tol) ==
  LET All == AllRoutes(L, o, d) IN
  /\ Rng(rs) \subseteq All
  /\ Distinct(rs)
  /\ Len(rs) = Min(k, Cardinality(All))
  /\ \A a \in 1..Len(rs) - 1 : RouteCost(C, rs[a]) <= RouteCost(C, rs[a + 1]) + tol
  /\ \A r \in All \ Rng(rs) : \A a \in 1..Len(rs) : RouteCost(C, rs[a]) <= RouteCost(C, r) + tol
KRandom(L, C, o, d, k, rs, tol) ==
  LET All == AllRoutes(L, o, d) IN
  /\ Rng(rs) \subseteq All
  /\ Distinct(rs)
  /\ All # {} => Len(rs) >= 1
  /\ Len(rs) <= k
  /\ rs # <<>> => \E a \in 1..Len(rs) : \A r \in All : RouteCost(C, rs[a]) <= RouteCost(C, r) + tol
=============================================================================
