----------------------------- MODULE UXLottery ------------------------------
(***************************************************************************)
(* The frequencies of the draws.  A draw offers options with integer       *)
(* weights w and picks one of them; an option is picked with probability   *)
(* p = w / sum(w) (all alike if every weight is zero), whatever happened   *)
(* before.  Hence over any selection of options made without looking at    *)
(* the outcome, the number of picks minus the sum of p is a martingale     *)
(* whose variance is at most the sum of p(1-p): it stays within 7 standard *)
(* deviations (and one pick) but with a probability below 10^-10.          *)
(* Options are selected by their probability (bins of p in thousandths)    *)
(* and place in the offer; and the same bound holds for any sum of a       *)
(* function of the picked option less its expectation (Tilt: p itself).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
File == IOEnv.UX_CASES
Cases == JsonDeserialize(File)
VARIABLES cid, done
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Sum(_, _, _)
Sum(s, a, b) == IF a > b THEN 0 ELSE IF a = b THEN s[a] ELSE LET m == (a + b) \div 2 IN Sum(s, a, m) + Sum(s, m + 1, b)
(* weights up to 10^5; probabilities in thousandths *)
Prob(w, j) == LET t == Sum(w, 1, Len(w)) IN IF t = 0 THEN 1000 \div Len(w) ELSE (w[j] * 1000 + t \div 2) \div t
Bins == <<<<0, 0>>, <<1, 60>>, <<61, 200>>, <<201, 400>>, <<401, 600>>, <<601, 800>>, <<801, 940>>, <<941, 999>>>>
(* contribution of a draw to a selection (bin of p, place j in the offer): <<deviation, variance, options>> in thousandths *)
Part(P, pick, b, j) ==
  IF j <= Len(P) /\ P[j] >= b[1] /\ P[j] <= b[2] THEN <<(IF pick = j THEN 1000 ELSE 0) - P[j], (P[j] * (1000 - P[j])) \div 1000, 1>> ELSE <<0, 0, 0>>
(* the probability of what was picked, against its expectation: draws too keen on, or too shy of, the likely option *)
Tilt(P, pick) ==
  LET S2 == Sum([j \in 1..Len(P) |-> P[j] * P[j]], 1, Len(P))
      S3 == Sum([j \in 1..Len(P) |-> (P[j] * ((P[j] * P[j]) \div 1000)) \div 1000], 1, Len(P))
      m == (S2 + 500) \div 1000
  IN IF \E j \in 1..Len(P) : P[j] >= 1000 THEN <<0, 0, 0>> ELSE <<P[pick] - m, Abs(S3 - (m * m) \div 1000) + 3, 1>>
Within(X) ==
  LET dev == Sum([k \in 1..Len(X) |-> X[k][1]], 1, Len(X))
      var == Sum([k \in 1..Len(X) |-> X[k][2]], 1, Len(X))
      n == Sum([k \in 1..Len(X) |-> X[k][3]], 1, Len(X))
      d == Abs(dev) - 1000 - n              \* rounding of p
  IN d <= 0 \/ (d <= 400000 /\ (d \div 10) * (d \div 10) <= 490 * var)
Probs(c) == TLCEval([k \in 1..Len(c.D) |-> [j \in 1..Len(c.D[k].w) |-> Prob(c.D[k].w, j)]])
FreqOk(c) ==
  LET P == Probs(c)
  IN /\ \A b \in 1..Len(Bins), j \in 1..4 : Within(TLCEval([k \in 1..Len(P) |-> Part(P[k], c.D[k].pick, Bins[b], j)]))
     /\ Within(TLCEval([k \in 1..Len(P) |-> Tilt(P[k], c.D[k].pick)]))
Clauses(c) ==
  (IF \E k \in 1..Len(c.D) : c.D[k].pick \notin 1..Len(c.D[k].w) THEN {c.kind \o "-pick"} ELSE {})
  \cup (IF (\A k \in 1..Len(c.D) : c.D[k].pick \in 1..Len(c.D[k].w)) /\ ~FreqOk(c) THEN {c.kind \o "-frequency"} ELSE {})
Init == cid \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ PrintT("@@V " \o ToJson([id |-> Cases[cid].id, bad |-> Clauses(Cases[cid]), n |-> Len(Cases[cid].D)]))
Spec == Init /\ [][Next]_<<cid, done>>
=============================================================================
