---------------------------- MODULE UXTaxiModel ------------------------------
(* All request streams, fleets, matchings and movements of small size. *)
EXTENDS UXTaxi, TLC
CONSTANTS N, NV, NR
VARIABLES S, pos, seen
vars == <<S, pos, seen>>
Init == /\ S \in {[R |-> [r \in 1..NR |-> NewReq(od[r][1], od[r][2], 0)], V |-> [v \in 1..NV |-> NewTaxi(0, N)]] : od \in [1..NR -> (1..N) \X (1..N)]}
        /\ pos = [v \in 1..NV |-> 1] /\ seen = 0
(* requests are made one by one *)
Request == seen < NR /\ seen' = seen + 1 /\ UNCHANGED <<S, pos>>
Free == {v \in 1..NV : Vacant(S.V[v])}
Made == {r \in 1..seen : S.R[r].st = Open}
Match == /\ Free # {} /\ Made # {}
         /\ \E v \in Free : S' = Assign(S, v, MinOf(Made))
         /\ UNCHANGED <<pos, seen>>
Go(v, n) == /\ pos' = [pos EXCEPT ![v] = n] /\ S' = Reach(S, v, n) /\ UNCHANGED seen
Stay(v) == Go(v, pos[v])           \* blocked at the end of its link
Wander(v) == \E n \in 1..N \ {pos[v]} : Go(v, n)
Drive(v) == S.V[v].dest # 0 /\ Go(v, S.V[v].dest)
Next == Request \/ Match \/ \E v \in 1..NV : Wander(v) \/ Stay(v) \/ Drive(v)
Spec == Init /\ [][Next]_vars /\ WF_vars(Request) /\ SF_vars(Match) /\ \A v \in 1..NV : SF_vars(Drive(v))
Safe == OneAtATime(S) /\ VacantMeansFree(S) /\ Headed(S)
Staged == [][\A r \in 1..NR : /\ S'.R[r].st \in {S.R[r].st, S.R[r].st + 1}
                              /\ S.R[r].st # Open => S'.R[r].tx = S.R[r].tx
                              /\ (S.R[r].st = Assigned /\ S'.R[r].st = Aboard) => pos'[S.R[r].tx] = S.R[r].o
                              /\ (S.R[r].st = Aboard /\ S'.R[r].st = Finished) => pos'[S.R[r].tx] = S.R[r].d]_vars
Served == <>(\A r \in 1..NR : S.R[r].st = Finished)
=============================================================================
