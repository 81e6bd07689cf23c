------------------------------- MODULE UXClock ------------------------------
(***************************************************************************)
(* The simulation clock: what each call of exec_simulation must do.        *)
(* Time is counted in time steps; an argument a is the number of whole     *)
(* time steps in the requested number of seconds.                          *)
(*   all        run to the final time                                      *)
(*   until a    run up to and including time step a                        *)
(*   dur a      run a + 1 time steps (documented: "duration_t + 1 step")   *)
(*   dur2 a     run a time steps                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MinI(a, b) == IF a < b THEN a ELSE b

\* last step asked for, clipped to the horizon N
EndTs(N, T, q) ==
  MinI(N, CASE q.k = "until" -> q.a
            [] q.k = "dur" -> T + q.a
            [] q.k = "dur2" -> T + q.a - 1
            [] OTHER -> N)

Rejected(N, T, q) == EndTs(N, T, q) < T
\* clock after an accepted call, and its return value
After(N, T, q) == IF Rejected(N, T, q) THEN T ELSE MinI(N, EndTs(N, T, q) + 1)
Finished(N, T, q) == After(N, T, q) = N
\* the steps an accepted call executes
StepsOf(N, T, q) == IF Rejected(N, T, q) THEN {} ELSE T .. (After(N, T, q) - 1)
=============================================================================
