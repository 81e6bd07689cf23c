---------------------------- MODULE UXRoutesModel ----------------------------
(* Random route enumeration: shortest routes under free-flow and then under
   arbitrary link weights, followed hop by hop, are collected per pair.
   Checked for every multigraph and every sequence of weights of small size. *)
EXTENDS UXRoutes, TLC
CONSTANTS N, M, K, Costs, Weights, Rounds
VARIABLES L, C, found, round
vars == <<L, C, found, round>>
Arcs == {[s |-> a, e |-> b] : a \in 1..N, b \in 1..N} \ {[s |-> a, e |-> a] : a \in 1..N}
ArcNo(a) == a.s * N + a.e
Pairs == {p \in (1..N) \X (1..N) : p[1] # p[2]}
Hop(w, D, v) == CHOOSE l \in {l \in 1..Len(L) : L[l].s = v} :
   /\ w[l] + D[L[l].e] = D[v]
   /\ \A m \in 1..l - 1 : ~(L[m].s = v /\ w[m] + D[L[m].e] = D[v])
RECURSIVE Follow(_, _, _, _, _)
Follow(w, D, v, d, n) == IF v = d \/ n = 0 THEN <<>>
   ELSE LET l == Hop(w, D, v) IN <<l>> \o Follow(w, D, L[l].e, d, n - 1)
Collect(w) ==
  found' = [p \in Pairs |->
     LET D == DistTo(L, w, N, p[2]) IN
     IF D[p[1]] >= INFTY \/ Len(found[p]) >= K THEN found[p]
     ELSE LET r == Follow(w, D, p[1], p[2], N + 1)
          IN IF r \in Rng(found[p]) THEN found[p] ELSE Append(found[p], r)]
Init == /\ L \in {s \in [1..M -> Arcs] : \A k \in 1..M - 1 : ArcNo(s[k]) <= ArcNo(s[k + 1])}
        /\ C \in [1..M -> Costs]
        /\ found = [p \in Pairs |-> <<>>] /\ round = 0
Draw == /\ round < Rounds
        /\ \E w \in (IF round = 0 THEN {C} ELSE [1..M -> Weights]) : Collect(w)
        /\ round' = round + 1 /\ UNCHANGED <<L, C>>
Spec == Init /\ [][Draw]_vars
Sound == round > 0 => \A p \in Pairs : KRandom(L, C, p[1], p[2], K, found[p], 0)
DistIsMin == \A p \in Pairs : LET All == AllRoutes(L, p[1], p[2]) D == DistTo(L, C, N, p[2]) IN
   IF All = {} THEN D[p[1]] = INFTY ELSE D[p[1]] = MinOf({RouteCost(C, r) : r \in All})
NeverLost == [][\A p \in Pairs : IsPrefixOf(found[p], found'[p])]_vars
(* the experienced travel time of a route is that of its parts one after the other,
   and if nobody overtakes on the links, leaving later never means arriving earlier *)
Tabs == [1..3 -> 1..3]
NoPass(A, dt) == \A k \in 1..Len(A) - 1 : A[k] <= A[k + 1] + dt
ASSUME \A A \in [1..2 -> Tabs], t \in -1..4 :
  /\ SumSeq(Experienced(A, <<1, 2>>, t, 1)) = LET x == At(A[1], t, 1) IN x + At(A[2], t + x, 1)
  /\ ((NoPass(A[1], 1) /\ NoPass(A[2], 1)) =>
        t + SumSeq(Experienced(A, <<1, 2>>, t, 1)) <= t + 1 + SumSeq(Experienced(A, <<1, 2>>, t + 1, 1)))
=============================================================================
