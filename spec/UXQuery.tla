------------------------------ MODULE UXQuery -------------------------------
(***************************************************************************)
(* What the query functions of links and vehicles must answer, as          *)
(* functions of the recorded series and of the state at the moment.        *)
(* A time is counted in quarters of a time step; a series holds one value  *)
(* per executed time step.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))

\* value of a series at time q, clamped at both ends
At(S, q) == LET k == q \div 4 IN S[IF k < 0 THEN 1 ELSE IF k >= Len(S) THEN Len(S) ELSE k + 1]
Volume(A, D, q) == At(A, q) - At(D, q)
\* time steps of the half-open period from q0 to q1
Steps(S, q0, q1) == {k \in 0..(Len(S) - 1) : q0 <= 4 * k /\ 4 * k < q1}
Inc(A, k) == A[k + 1] - (IF k = 0 THEN 0 ELSE A[k])
RECURSIVE SumSet(_, _)
SumSet(f, K) == IF K = {} THEN 0 ELSE LET k == CHOOSE x \in K : TRUE IN f[k] + SumSet(f, K \ {k})
Entrants(A, q0, q1) == SumSet([k \in 0..(Len(A) - 1) |-> Inc(A, k)], Steps(A, q0, q1))
\* total travel time of those that entered in the period
TimeOfEntrants(A, TA, q0, q1) == SumSet([k \in 0..(Len(A) - 1) |-> Inc(A, k) * TA[k + 1]], Steps(A, q0, q1))
\* the latest records not after q (the last step of a trip may have two); g = record times in quarter steps
LastLogs(g, q) == LET K == {k \in 1..Len(g) : g[k] <= q} IN {k \in K : \A j \in K : g[j] <= g[k]}
\* the route log: <<time, link or 0 home or -1 end or -2 aborted>>
Links(h) == SelectSeq(h, LAMBDA e : e[2] > 0)
Route(h) == [k \in 1..Len(Links(h)) |-> Links(h)[k][2]]
Times(h, arr, dep) ==
  (IF dep THEN [k \in 1..Len(SelectSeq(h, LAMBDA e : e[2] = 0)) |-> SelectSeq(h, LAMBDA e : e[2] = 0)[k][1]] ELSE <<>>)
  \o [k \in 1..Len(Links(h)) |-> Links(h)[k][1]]
  \o (IF arr THEN <<IF h[Len(h)][2] = -1 THEN h[Len(h)][1] ELSE -1000>> ELSE <<>>)
=============================================================================
