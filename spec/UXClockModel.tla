---------------------------- MODULE UXClockModel ----------------------------
(* Every sequence of calls, up to the horizon: each step runs exactly once. *)
EXTENDS UXClock, TLC
CONSTANT MaxN
VARIABLES N, T, runs, done, calls
vars == <<N, T, runs, done, calls>>
Reqs == {[k |-> kk, a |-> aa] : kk \in {"until", "dur", "dur2"}, aa \in -2 .. (MaxN + 2)} \cup {[k |-> "all", a |-> 0]}
Init == N \in 1..MaxN /\ T = 0 /\ runs = [s \in 0..MaxN |-> 0] /\ done = FALSE /\ calls = 0
Call(q) == /\ calls' = (IF calls < MaxN + 2 THEN calls + 1 ELSE calls)
           /\ runs' = [s \in 0..MaxN |-> runs[s] + (IF s \in StepsOf(N, T, q) THEN 1 ELSE 0)]
           /\ T' = After(N, T, q)
           /\ done' = (IF Rejected(N, T, q) THEN done ELSE Finished(N, T, q))
           /\ UNCHANGED N
Next == \E q \in Reqs : Call(q)
Spec == Init /\ [][Next]_vars /\ \A q \in {[k |-> "dur2", a |-> 1]} : WF_vars(Call(q))
OncePerStep == \A s \in 0..MaxN : runs[s] = (IF s < T THEN 1 ELSE 0)
InHorizon == T \in 0..N
DoneIffEnd == done <=> (T = N)
Forward == [][T' >= T]_vars
\* an accepted call before the end moves the clock; a rejected one changes nothing
Moves == [][\A q \in Reqs : (Call(q) /\ T < N /\ ~Rejected(N, T, q)) => T' > T]_vars
Ends == <>(T = N)
=============================================================================
