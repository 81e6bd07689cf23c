------------------------------- MODULE UXTaxi --------------------------------
(***************************************************************************)
(* Taxis and trip requests.  A taxi has a current destination (0: vacant), *)
(* a list of further destinations and, per node, the request to be picked  *)
(* up or dropped off when it gets there.  A request is open, assigned to a *)
(* taxi, aboard it, or finished.                                           *)
(***************************************************************************)
EXTENDS UXCore
Open == 0   Assigned == 1   Aboard == 2   Finished == 3
NewTaxi(d, N) == [dest |-> d, list |-> <<>>, ev |-> [n \in 1..N |-> 0]]
NewReq(o, d, dep) == [o |-> o, d |-> d, dep |-> dep, st |-> Open, tx |-> 0]
Vacant(t) == t.dest = 0
InsertAt(s, k, e) == SubSeq(s, 1, k) \o <<e>> \o SubSeq(s, k + 1, Len(s))
AddDest(t, d, order) ==
  IF t.dest = 0 THEN [t EXCEPT !.dest = d]
  ELSE IF order < 0 \/ order >= Len(t.list) THEN [t EXCEPT !.list = Append(@, d)]
  ELSE [t EXCEPT !.list = InsertAt(@, order, d)]
(* S = [R |-> requests, V |-> taxis] *)
Assign(S, v, r) ==
  [S EXCEPT !.R[r].st = Assigned, !.R[r].tx = v,
            !.V[v] = [AddDest(@, S.R[r].o, -1) EXCEPT !.ev[S.R[r].o] = r]]
(* taxi v stands at node n *)
Event(S, v, n) ==
  LET r == S.V[v].ev[n] IN
  IF r = 0 THEN S
  ELSE IF S.R[r].st = Assigned
       THEN [S EXCEPT !.R[r].st = Aboard,
                      !.V[v] = [AddDest([@ EXCEPT !.ev[n] = 0], S.R[r].d, -1) EXCEPT !.ev[S.R[r].d] = r]]
       ELSE [S EXCEPT !.R[r].st = Finished, !.V[v].ev[n] = 0]
Proceed(t, n) == IF t.dest # n THEN t
                 ELSE IF t.list = <<>> THEN [t EXCEPT !.dest = 0]
                 ELSE [t EXCEPT !.dest = Head(t.list), !.list = Tail(t.list)]
Reach(S, v, n) == LET S1 == Event(S, v, n) IN [S1 EXCEPT !.V[v] = Proceed(@, n)]
Serves(S, v) == {r \in 1..Len(S.R) : S.R[r].tx = v /\ S.R[r].st \in {Assigned, Aboard}}
Waiting(S, now) == {r \in 1..Len(S.R) : S.R[r].st = Open /\ S.R[r].dep <= now}
(*------------------------------- matching -------------------------------*)
(* P[v] = <<x, y>> of taxi v, Q[n] of node n *)
RECURSIVE Root(_, _)
Root(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE Root(n, h)
ISqrt(n) == IF n <= 0 THEN 0 ELSE Root(n, (n \div 2) + 1)
Distance(p, q) == ISqrt((p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]))
(* the sequence of pairs <<request, taxi>> is a matching of the policy: requests are
   considered in order; each takes some free taxi, the nearest one, or the nearest one
   within the radius *)
RECURSIVE Matching(_, _, _, _, _, _, _, _)
Matching(pol, rad, tol, W, F, pairs, P, OQ) ==
  IF W = <<>> \/ F = {} THEN pairs = <<>>
  ELSE LET r == Head(W)
           near == IF pol = "radius" THEN {v \in F : Distance(P[v], OQ[r]) <= rad - tol} ELSE F
           may  == IF pol = "radius" THEN {v \in F : Distance(P[v], OQ[r]) <= rad + tol} ELSE F
       IN \/ /\ pairs # <<>> /\ pairs[1][1] = r /\ pairs[1][2] \in may
             /\ pol # "random" => \A v \in F : Distance(P[pairs[1][2]], OQ[r]) <= Distance(P[v], OQ[r]) + tol
             /\ Matching(pol, rad, tol, Tail(W), F \ {pairs[1][2]}, Tail(pairs), P, OQ)
          \/ /\ near = {} /\ (pairs = <<>> \/ pairs[1][1] # r)
             /\ Matching(pol, rad, tol, Tail(W), F, pairs, P, OQ)
(*------------------------------ guarantees ------------------------------*)
OneAtATime(S) == \A v \in 1..Len(S.V) : Cardinality(Serves(S, v)) <= 1
VacantMeansFree(S) == \A v \in 1..Len(S.V) : Vacant(S.V[v]) => Serves(S, v) = {} /\ S.V[v].list = <<>>
Headed(S) == \A v \in 1..Len(S.V) : \A r \in Serves(S, v) :
   LET n == IF S.R[r].st = Assigned THEN S.R[r].o ELSE S.R[r].d
   IN S.V[v].ev[n] = r /\ (S.V[v].dest = n \/ n \in Rng(S.V[v].list))
=============================================================================
