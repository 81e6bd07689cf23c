---------------------------- MODULE UXQueryModel ----------------------------
(***************************************************************************)
(* A link taking in and letting out vehicles, and what follows for the     *)
(* answers of UXQuery at every time, also outside the run.                 *)
(***************************************************************************)
EXTENDS UXQuery
CONSTANTS N, Cap
VARIABLES A, D, gone
vars == <<A, D, gone>>
\* first in first out: gone[i] = step in which the i-th entrant left
Last(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
Init == A = <<>> /\ D = <<>> /\ gone = <<>>
Next == /\ Len(A) < N
        /\ \E in \in 0..2, out \in 0..2 :
             /\ Last(A) + in <= Cap /\ Last(D) + out <= Last(A)
             /\ A' = Append(A, Last(A) + in)
             /\ D' = Append(D, Last(D) + out)
             /\ gone' = gone \o [j \in 1..out |-> Len(A)]
Spec == Init /\ [][Next]_vars
Q == -5 .. 4 * N + 5
\* entering step of the i-th entrant
Ent(i) == CHOOSE k \in 0..(Len(A) - 1) : A[k + 1] >= i /\ (IF k = 0 THEN 0 ELSE A[k]) < i
\* travel time at step k: of the last one of those that entered by then, once it has left
TA(S) == [k \in 1..Len(S) |-> IF A[k] > 0 /\ A[k] <= Len(gone) THEN gone[A[k]] - Ent(A[k]) ELSE 1]
Bounded == A = <<>> \/ \A q \in Q : 0 <= Volume(A, D, q) /\ Volume(A, D, q) <= Cap
Monotone == A = <<>> \/ \A q \in Q : At(A, q) <= At(A, q + 1) /\ At(D, q) <= At(D, q + 1)
Clamped == A = <<>> \/ (At(A, -5) = A[1] /\ At(A, 4 * N + 5) = Last(A))
\* arrivals of neighbouring periods add up, and give those of the whole period
Additive == A = <<>> \/ \A a, b, c \in {-4, 0, 3, 4, 6, 8, 12} :
  ((a <= b) /\ (b <= c)) => (Entrants(A, a, b) + Entrants(A, b, c) = Entrants(A, a, c))
Whole == A = <<>> \/ Entrants(A, -4, 4 * N) = Last(A)
\* arrivals of a period that starts and ends on time steps are those between the counts just before its ends
Counts == A = <<>> \/ \A a, b \in 0..Len(A) : (a <= b) => Entrants(A, 4 * a, 4 * b) = At(<<0>> \o A, 4 * b) - At(<<0>> \o A, 4 * a)
\* if one vehicle enters per step, the total travel time of entrants that left is what they spent on the link
Spent == (A = <<>> \/ \E k \in 1..Len(A) : Inc(A, k - 1) > 1) \/
  \A a \in 0..Len(A) : LET I == {i \in 1..Last(A) : Ent(i) < a} IN
     (\A i \in I : i <= Len(gone)) => TimeOfEntrants(A, TA(A), 0, 4 * a) = SumSet([i \in 1..Last(A) |-> IF i <= Len(gone) THEN gone[i] - Ent(i) ELSE 0], I)
=============================================================================
