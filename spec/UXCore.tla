------------------------------- MODULE UXCore -------------------------------
(***************************************************************************)
(* The traffic engine of UXsim as an explicit state machine over scaled    *)
(* integers: positions and lengths in millimetres, speeds in 0.1 m/s,      *)
(* capacities in 1e-6 vehicles, signal times in milliseconds.              *)
(*                                                                         *)
(* This module holds the laws: pure operators, one per critical section of *)
(* the engines' main loop, shared by                                       *)
(*   UXModel  - the nondeterministic design model checked exhaustively     *)
(*   UXTrace  - validation of executions recorded from the real engines    *)
(*   UXReplay - behaviours computed from the specification and replayed in *)
(*              the real engines                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Home == 0   Wait == 1   Run == 2   End == 3   Abort == 4

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Rng(s) == {s[i] : i \in 1..Len(s)}
Last(s) == s[Len(s)]
IndexOf(s, e) == CHOOSE i \in 1..Len(s) : s[i] = e
MinOf(S) == CHOOSE m \in S : \A k \in S : m <= k
MaxOf(S) == CHOOSE m \in S : \A k \in S : m >= k
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0
              ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SumF(f, S \ {e})
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : p[i] = s[i]
(* elements of s that satisfy membership in S, in order *)
RECURSIVE Keep(_, _)
Keep(s, S) == IF s = <<>> THEN <<>>
              ELSE IF Head(s) \in S THEN <<Head(s)>> \o Keep(Tail(s), S)
              ELSE Keep(Tail(s), S)
(* set to ascending sequence *)
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o Asc(S \ {m})
RECURSIVE Rep(_, _)
Rep(e, n) == IF n <= 0 THEN <<>> ELSE <<e>> \o Rep(e, n - 1)

CAPINF == 400000000     \* an increment at least this large means unlimited
CAPMAX == 900000000

(*---------------------------- token buckets -----------------------------*)
(* A capacity bucket is refilled only while below one platoon per lane, so *)
(* at most that much plus one increment is ever saved.  Buckets are kept   *)
(* as intervals [lo, hi] because the code uses floating point; for exactly *)
(* representable capacities lo = hi and tol = 0.                           *)
Refill(b, add, cap, tol) ==
  IF add >= CAPINF THEN [lo |-> CAPMAX, hi |-> CAPMAX]
  ELSE IF b.hi < cap - tol \/ (tol = 0 /\ b.hi < cap)
         THEN [lo |-> b.lo + add, hi |-> b.hi + add]
  ELSE IF b.lo >= cap + tol THEN b
  ELSE [lo |-> Min(b.lo + add, cap - tol), hi |-> Max(b.hi, Min(cap + tol, b.hi) + add)]
Spend(b, n) == [lo |-> b.lo - n, hi |-> b.hi - n]
Must(b, n, tol) == b.lo >= n + tol
May(b, n, tol) == b.hi >= n - tol

(*------------------------------ signals ---------------------------------*)
(* sig: sequence of phase durations (ms); phases are numbered from 0.      *)
SigNext(sig, ph, t, dt) ==
  LET sw == t > sig[ph + 1]
      p1 == IF sw THEN (ph + 1) % Len(sig) ELSE ph
  IN [ph |-> p1, t |-> (IF sw THEN 0 ELSE t) + dt]
(* initial phase: the plan has been running since -offset *)
RECURSIVE SigLocate(_, _, _)
SigLocate(sig, i, off) == IF off < sig[i] THEN [ph |-> i - 1, t |-> off]
                          ELSE SigLocate(sig, (i % Len(sig)) + 1, off - sig[i])
SigInit(sig, offset) ==
  IF sig = <<0>> THEN [ph |-> 0, t |-> 0]
  ELSE SigLocate(sig, 1, (0 - offset) % SumSeq(sig))
Green(sig, ph, group) == Len(sig) <= 1 \/ ph \in Rng(group)

(*----------------------------- link entrance ----------------------------*)
(* The platoon entering queue q will follow the one `lanes` places back.   *)
SpaceMust(q, x, lanes, gap, tol) ==
  Len(q) < lanes \/ x[q[Len(q) - lanes + 1]] > gap + tol
SpaceMay(q, x, lanes, gap, tol) ==
  Len(q) < lanes \/ x[q[Len(q) - lanes + 1]] > gap - tol
EntryLane(q, lane, lanes) == IF q = <<>> THEN 0 ELSE (lane[Last(q)] + 1) % lanes
EntryLeader(q, lanes) == IF Len(q) >= lanes THEN q[Len(q) - lanes + 1] ELSE 0
(* leftover distance carried over a node *)
EntryX(mr, uin, uout, udt, leader, xold, gap, len) ==
  LET want == Min((mr * uout) \div uin, udt)      \* udt: at free flow, within one step
      lim == IF leader = 0 THEN want ELSE Min(want, Max(0, xold[leader] - gap))
  IN Min(lim, len)

(*---------------------------- car following -----------------------------*)
LeaderAt(q, i, lanes) == IF i > lanes THEN q[i - lanes] ELSE 0
NextX(x, udt, leaderx, gap, len) ==      \* leaderx = -1: no leader
  LET free == x + udt
      lim == IF leaderx = -1 THEN free ELSE Min(free, Max(x, leaderx - gap))
  IN Min(lim, len)
Leftover(x, udt, leaderx, gap, len) ==   \* distance left when reaching the end
  LET free == x + udt
      lim == IF leaderx = -1 THEN free ELSE Min(free, Max(x, leaderx - gap))
  IN Max(lim - len, 0)

(*---------------------------- route choice ------------------------------*)
(* The links a vehicle may take next from node n (before preferences).     *)
(* out: outgoing links of n in order; r: vehicle record with the fields    *)
(* spec, pre, avo; k: number of links travelled so far; vis: visited nodes;*)
(* e: end node of each link.                                               *)
Permitted(out, r, k, vis, e, cyc) ==
  IF Len(r.spec) > 0
  THEN IF k + 1 <= Len(r.spec) /\ r.spec[k + 1] \in Rng(out) THEN {r.spec[k + 1]} ELSE {}
  ELSE LET s1 == IF Rng(out) \cap Rng(r.pre) # {} THEN Rng(out) \cap Rng(r.pre) ELSE Rng(out)
           s2 == s1 \ Rng(r.avo)
           s3 == {l \in s2 : e[l] \notin vis}
       IN IF cyc /\ s3 # {} THEN s3 ELSE s2
(* given preferences p (function link -> weight), the links that may be chosen *)
Choosable(S, p, tol) ==
  IF \E l \in S : p[l] > tol THEN {l \in S : p[l] > 0} ELSE S
(* hard deterministic: the most preferred; ties open (resolved by list order) *)
MostPreferred(S, p, tol) == {l \in S : \A m \in S : p[l] >= p[m] - tol}

=============================================================================
