----------------------------- MODULE UXDTAModel -----------------------------
(* The day-to-day machine on every small cost history.  Mode "any": the      *)
(* simulator answers with any costs at all, travellers may change at once.   *)
(* Mode "game": costs grow with the number of users of a route (a congestion *)
(* game) and one traveller changes per day; then the process settles in an   *)
(* equilibrium.                                                              *)
EXTENDS UXDTA, TLC
CONSTANTS NV, NR, MAXC, DAYS, Mode, Forced
V == 1..NV
SET == [r \in 1..NR |-> <<r>>]          \* route r is the one-link sequence <<r>>
VARIABLES route, cost, total, fin, day, best, bestday, hist, kept
vars == <<route, cost, total, fin, day, best, bestday, hist, kept>>
Used(rt, r) == Cardinality({v \in V : rt[v] = <<r>>})
Base == [r \in 1..NR |-> r]
GameCost(rt, v) == [r \in 1..NR |-> Base[r] + (IF rt[v] = <<r>> THEN Used(rt, r) ELSE Used(rt, r) + 1)]
Own(v) == IF route[v] \in Rng(SET) THEN cost[v][route[v][1]] ELSE MAXC
Costs(rt) == IF Mode = "game" THEN {[v \in V |-> GameCost(rt, v)]} ELSE [V -> [1..NR -> 0..MAXC]]
(* a day is simulated: costs appear, the best complete day is remembered *)
Simulate ==
  /\ day < DAYS /\ kept = "given"
  /\ cost' \in Costs(route)
  /\ \E t \in 0..2, f \in {TRUE, FALSE} :
       /\ (Mode = "game") => (t = 0 /\ f)
       /\ total' = t /\ fin' = f
       /\ IF f /\ (bestday = 0 \/ t < best) THEN best' = t /\ bestday' = day + 1 ELSE UNCHANGED <<best, bestday>>
       /\ hist' = IF Mode = "game" THEN hist ELSE Append(hist, [total |-> t, fin |-> f])
  /\ day' = IF Mode = "game" THEN day ELSE day + 1
  /\ kept' = "priced" /\ UNCHANGED route
Choice(v) == MayTake(SET, route[v], Own(v), cost[v], Forced)
Change ==
  /\ kept = "priced"
  /\ route' \in [V -> Rng(SET) \cup {<<0>>}]
  /\ \A v \in V : route'[v] \in Choice(v)
  /\ (Mode = "game") => Cardinality({v \in V : route'[v] # route[v]}) = (IF \E v \in V : Potential(Own(v), cost[v]) THEN 1 ELSE 0)
  /\ kept' = "given" /\ UNCHANGED <<cost, total, fin, day, best, bestday, hist>>
Init == /\ route \in [V -> IF Forced THEN Rng(SET) \cup {<<0>>} ELSE Rng(SET)]
        /\ cost = [v \in V |-> [r \in 1..NR |-> 0]] /\ total = 0 /\ fin = FALSE
        /\ day = 0 /\ best = 0 /\ bestday = 0 /\ hist = <<>> /\ kept = "given"
Next == Simulate \/ Change
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)
(* ---- what a user relies on ---- *)
InSet == \A v \in V : route[v] \in Rng(SET) \/ (Forced /\ day <= 1)
OnlyImproving == [][\A v \in V : route'[v] # route[v] => (route[v] \notin Rng(SET) \/ cost[v][route'[v][1]] < cost[v][route[v][1]])]_vars
NoGapNoMove == [][(kept = "priced" /\ kept' = "given" /\ \A v \in V : route[v] \in Rng(SET) /\ ~Potential(Own(v), cost[v])) => route' = route]_vars
BestOK == IF \E k \in 1..Len(hist) : hist[k].fin
          THEN bestday \in 1..Len(hist) /\ hist[bestday].fin /\ \A k \in 1..Len(hist) : hist[k].fin => hist[bestday].total <= hist[k].total
          ELSE bestday = 0
GapOK == kept = "priced" => \A v \in V : LET g == Gap(Own(v), cost[v]) IN g >= 0 /\ (g = 0 <=> ~Potential(Own(v), cost[v])) /\ \A r \in 1..NR : cost[v][r] >= Own(v) - g
Settled == kept = "priced" /\ \A v \in V : ~Potential(Own(v), cost[v])
Settles == <>[](kept = "priced" => Settled)
=============================================================================
