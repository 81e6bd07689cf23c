------------------------------- MODULE UXHist -------------------------------
(***************************************************************************)
(* Lockstep comparison of recorded histories (a self-composition of the    *)
(* system): each run of a case is walked step by step together with the    *)
(* reference run and must be in the same state, field by field, up to the  *)
(* tolerance given for the field (0: identical).                           *)
(* A run may also carry the sequence of exec_simulation calls that         *)
(* produced it; these are checked against the clock of UXClock first.      *)
(***************************************************************************)
EXTENDS UXClock, TLC, Json, IOUtils, Integers, Sequences

Cases == JsonDeserialize(IOEnv.UX_HIST)
MAXBAD == 6
Abs(x) == IF x < 0 THEN -x ELSE x

VARIABLES cid, r, j, k, T, bad
vars == <<cid, r, j, k, T, bad>>
Case == Cases[cid]
Run(n) == Case.runs[n]
Tol(f) == IF f \in DOMAIN Case.tol THEN Case.tol[f] ELSE 0

SameField(a, b, t) == /\ Len(a) = Len(b)
                      /\ \A n \in 1..Len(a) : a[n] = b[n] \/ (t > 0 /\ Abs(a[n] - b[n]) <= t)
Differ(a, b) == {f \in DOMAIN a : f \notin DOMAIN b \/ ~SameField(a[f], b[f], Tol(f))}
                \cup (DOMAIN b \ DOMAIN a)

CallClauses(c) ==
  LET rej == Rejected(Case.n, T, c) IN
  (IF c.t0 = T THEN {} ELSE {"clock-start"})
  \cup (IF c.raised = rej THEN {} ELSE {IF rej THEN "clock-accepted" ELSE "clock-rejected"})
  \cup (IF c.raised \/ c.t1 = After(Case.n, T, c) THEN {} ELSE {"clock-end"})
  \cup (IF c.raised /\ c.t1 # T THEN {"clock-harmed"} ELSE {})
  \cup (IF c.raised \/ (c.ret = 1) = Finished(Case.n, T, c) THEN {} ELSE {"clock-return"})
  \cup (IF c.ongoing = (c.t1 < Case.n) THEN {} ELSE {"clock-ongoing"})
  \cup (IF c.time = c.t1 * Case.dt THEN {} ELSE {"clock-time"})
  \* on_time(t), t in 1/1000 steps: t lies in the time step the clock shows
  \cup (IF \A n \in 1..Len(c.on) : c.on[n][2] = (c.on[n][1] \div 1000 = c.t1) THEN {} ELSE {"clock-on-time"})

Init == cid \in 1..Len(Cases) /\ r = 1 /\ j = 1 /\ k = 1 /\ T = 0 /\ bad = {}
Call == /\ r # 0 /\ r <= Len(Case.runs) /\ j <= Len(Run(r).calls) /\ Cardinality(bad) < MAXBAD
        /\ LET c == Run(r).calls[j] IN
           /\ bad' = bad \cup {<<x, Run(r).name, j>> : x \in CallClauses(c)}
           /\ T' = c.t1
        /\ j' = j + 1 /\ UNCHANGED <<cid, r, k>>
Step == /\ r # 0 /\ r <= Len(Case.runs) /\ j = Len(Run(r).calls) + 1 /\ Cardinality(bad) < MAXBAD
        /\ k <= Len(Case.ref) /\ k <= Len(Run(r).hist)
        /\ LET d == Differ(Case.ref[k], Run(r).hist[k]) IN
           IF d = {} THEN k' = k + 1 /\ UNCHANGED <<cid, r, j, T, bad>>
           ELSE /\ bad' = bad \cup {<<"hist-" \o x, Run(r).name, k - 1>> : x \in d}
                /\ r' = r + 1 /\ j' = 1 /\ k' = 1 /\ T' = 0 /\ UNCHANGED cid
EndRun == /\ r # 0 /\ r <= Len(Case.runs) /\ j = Len(Run(r).calls) + 1 /\ Cardinality(bad) < MAXBAD
          /\ (k > Len(Case.ref) \/ k > Len(Run(r).hist))
          /\ bad' = bad \cup (IF Len(Case.ref) = Len(Run(r).hist) THEN {} ELSE {<<"hist-length", Run(r).name, k - 1>>})
          /\ r' = r + 1 /\ j' = 1 /\ k' = 1 /\ T' = 0 /\ UNCHANGED cid
EndCase == /\ r # 0 /\ (r > Len(Case.runs) \/ Cardinality(bad) >= MAXBAD)
           /\ PrintT("@@V " \o ToJson([id |-> Case.id, runs |-> r - 1, bad |-> bad]))
           /\ r' = 0 /\ UNCHANGED <<cid, j, k, T, bad>>
Next == Call \/ Step \/ EndRun \/ EndCase
Spec == Init /\ [][Next]_vars
View == <<cid, r, j, k, T>>
=============================================================================
