----------------------------- MODULE UXDTATrace -----------------------------
(* Judges the recorded days of real solver runs.                            *)
EXTENDS UXDTA, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.UX_CASES)
VARIABLES cid, done
B(c, n) == IF c THEN {} ELSE {n}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Connects(_, _, _, _)
Connects(L, r, o, d) == IF r = <<>> THEN o = d ELSE L[r[1]].s = o /\ Connects(L, Tail(r), L[r[1]].e, d)
Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
SetOf(c, v) == LET S == {k \in 1..Len(c.R) : c.R[k].o = v.o /\ c.R[k].d = v.d}
               IN IF S = {} THEN <<>> ELSE c.R[CHOOSE k \in S : TRUE].routes
CostOf(c, i, r, t) ==
  IF c.mode = "due" THEN CostDUE(i.TT, i.TO, r, t, c.dt)
  ELSE LET x == Ext(i.TT, i.A, i.D, c.F, r, t, c.dt) IN IF x = -1 THEN -1 ELSE Travel(i.TT, r, t, c.dt) + x
OwnCost(c, i, v) == IF c.mode = "due" THEN CostOwn(i.TT, i.TO, v.r, v.ts, c.dt) ELSE CostOf(c, i, v.r, v.ts[1])
(* everything known of one traveller's choice at the end of day i *)
Ch(c, i, v) ==
  LET S == SetOf(c, v) IN
  IF v.fin = 1 /\ v.nots = 1 THEN [st |-> "unknown", own |-> 0, alt |-> <<>>, set |-> S]
  ELSE IF v.fin = 0 \/ v.r = <<>> THEN [st |-> "none", own |-> 0, alt |-> <<>>, set |-> S]
  ELSE IF c.ext = 1 /\ S # <<>> /\ v.r \notin Rng(S) THEN [st |-> "forced", own |-> 0, alt |-> <<>>, set |-> S]
  ELSE LET own == OwnCost(c, i, v)
           alt == TLCEval([k \in 1..Len(S) |-> CostOf(c, i, S[k], v.ts[1])])
       IN [st |-> IF own = -1 \/ -1 \in Rng(alt) THEN "unknown" ELSE "known", own |-> own, alt |-> alt, set |-> S]
Day(c, k) ==
  LET i == c.I[k]
      last == k = Len(c.I)
      N == Len(i.V)
      H == TLCEval([v \in 1..N |-> Ch(c, i, i.V[v])])
      nx(v) == c.I[k + 1].V[v].spec
      known == TLCEval({v \in 1..N : H[v].st = "known"})
      unk == {v \in 1..N : H[v].st = "unknown"}
      pot == TLCEval({v \in known : Potential(H[v].own, H[v].alt)})
      gap == SumSeq(TLCEval([v \in 1..N |-> IF v \in known THEN Gap(H[v].own, H[v].alt) ELSE 0]))
      moved == {v \in known \cup unk : nx(v) # i.V[v].r}
      tot == SumSeq(TLCEval([v \in 1..N |-> IF i.V[v].fin = 1 THEN i.V[v].tt ELSE 0])) * c.dn
      fins == {v \in 1..N : i.V[v].fin = 1}
  IN (* routes given are followed *)
     UNION {LET v == i.V[x] IN
            (IF v.spec = <<>> THEN {} ELSE B(IF v.fin = 1 THEN v.r = v.spec ELSE Prefix(v.r, v.spec), "route-not-followed"))
            \cup B(v.logr = v.r, "route-log")
            \cup B((v.fin = 1 /\ v.nots = 1) \/ v.logc = (IF v.ts = <<>> THEN 0 ELSE v.ts[Len(v.ts)] - v.ts[1]), "cost-log")
            \cup (IF last THEN {}
                  ELSE IF v.fin = 0 THEN B(nx(x) = <<>> \/ nx(x) = v.r \/ nx(x) \in Rng(H[x].set), "route-not-in-set")
                  ELSE IF H[x].st = "forced" THEN B(nx(x) = H[x].set[1], "forced-route")
                  ELSE B(nx(x) = v.r \/ nx(x) \in Rng(H[x].set), "route-not-in-set")
                       \cup (IF H[x].st = "known" THEN B(nx(x) \notin Rng(H[x].set) \/ nx(x) \in MayTake(H[x].set, v.r, H[x].own, H[x].alt, FALSE), "not-cheaper") ELSE {}))
            : x \in 1..N}
     \cup (IF last THEN B(i.nsw >= 0 /\ (unk # {} \/ i.nsw <= c.dn * Cardinality(pot)), "swap-count")
           ELSE B(i.nsw = c.dn * Cardinality(moved), "swap-count"))
     \cup (IF unk = {} THEN B(i.pot = c.dn * Cardinality(pot), "potential-count") \cup B(Abs(i.gap - gap) <= 1, "gap") ELSE {})
     \cup (IF ~last /\ c.num < 0 /\ c.prob = 0 THEN B(moved = {}, "swap-without-chance") ELSE {})
     \cup (IF ~last /\ c.num < 0 /\ c.prob = 100 THEN B(pot \subseteq moved, "certain-swap-missing") ELSE {})
     \cup (IF ~last /\ c.num >= 0 THEN B(Cardinality(moved) <= c.num, "too-many-swaps") ELSE {})
     \cup B(Abs(i.ttt - (IF fins = {} THEN -c.sc ELSE tot)) <= c.sc, "total-time-log")
     \cup B(\A l \in 1..Len(c.L) : i.vol[l] = i.DE[l] /\ i.rem[l] = i.AE[l] - i.DE[l], "link-log")
     \cup (IF i.V2 = <<>> THEN {} ELSE B(\A v \in 1..N : i.V2[v].r = i.V[v].r /\ i.V2[v].ts = i.V[v].ts, "not-the-scenario"))
Sets(c) ==
  UNION {LET R == c.R[k] IN B(R.o = R.d \/ \A m \in 1..Len(R.routes) : Connects(c.L, R.routes[m], R.o, R.d), "set-not-admissible") : k \in 1..Len(c.R)}
  \cup (IF c.ext = 1 THEN B(c.R = c.G, "set-not-as-given") ELSE {})
Avg(c, k) == SumSeq(TLCEval([v \in 1..Len(c.I[k].V) |-> c.I[k].V[v].tt]))
Complete(c) == {k \in 1..Len(c.I) : \A v \in 1..Len(c.I[k].V) : c.I[k].V[v].fin = 1}
Returned(c) ==
  (IF c.mode = "due" THEN B(c.sol = Len(c.I) /\ c.mid = Len(c.I), "returned-solution")
   ELSE B(c.mid = c.sol /\ (IF Complete(c) = {} THEN c.sol = 0 ELSE c.sol \in Complete(c) /\ \A k \in Complete(c) : Avg(c, c.sol) <= Avg(c, k)), "returned-solution"))
  \cup (IF c.sol = 0 THEN {}
        ELSE LET V == c.I[c.sol].V
                 f == {v \in 1..Len(V) : V[v].fin = 1}
                 t == SumSeq(TLCEval([v \in 1..Len(V) |-> IF V[v].fin = 1 THEN V[v].tt ELSE 0])) * c.dn
             IN B(c.all = c.dn * Len(V) /\ c.comp = c.dn * Cardinality(f) /\ Abs(c.ttt - (IF f = {} THEN -c.sc ELSE t)) <= 1, "solution-stats"))
(* ---- search solvers (GA, ALNS): every candidate simulated, the best returned ---- *)
Obj(c, e) == LET f == {v \in 1..Len(e.V) : e.V[v].fin = 1}
                 t == SumSeq(TLCEval([v \in 1..Len(e.V) |-> IF e.V[v].fin = 1 THEN e.V[v].tt ELSE 0])) * c.dn
             IN (IF f = {} THEN -c.sc ELSE t) + (Len(e.V) - Cardinality(f)) * c.dn * c.tmax
StartUsed(c) == B(\A v \in 1..Len(c.start) : LET w == c.start[v] x == c.E[1].V[v] IN
                    (w.fin = 1 /\ w.r \in Rng(SetOf(c, w)) /\ x.fin = 1) => x.r = w.r, "start-not-used")
LogOf(c, g, k) == \A v \in 1..Len(c.E[k].V) : LET x == c.E[k].V[v] IN IF x.fin = 1 THEN c.logs[g][v] = [r |-> x.r, c |-> x.tc] ELSE c.logs[g][v] = [r |-> <<>>, c |-> 0]
Better(O) == {k \in 1..Len(O) : \A j \in 1..(k - 1) : O[k] < O[j]}
Search(c) ==
  LET O == TLCEval([k \in 1..Len(c.E) |-> Obj(c, c.E[k])])
      Gen(g) == ((g - 1) * c.pop + 1)..(g * c.pop)
      BestOf(K) == CHOOSE m \in {O[k] : k \in K} : \A k \in K : m <= O[k]
  IN Sets(c)
     \cup UNION {UNION {LET v == c.E[k].V[x] IN B(v.fin = 0 \/ v.r \in Rng(SetOf(c, v)), "route-not-in-set") : x \in 1..Len(c.E[k].V)} : k \in 1..Len(c.E)}
     \cup B(c.sol # 0 /\ c.sol = c.mid, "returned-solution")
     \cup (IF c.sol = 0 THEN {}
           ELSE IF c.mode = "ga"
           THEN StartUsed(c)
                \cup B(Len(c.logs) = c.gens /\ \A g \in 1..c.gens : \E k \in Gen(g) : O[k] = BestOf(Gen(g)) /\ LogOf(c, g, k), "search-log")
                \cup B(O[c.sol] = BestOf(Gen(c.gens)) /\ c.sol \in Gen(c.gens), "returned-solution")
                \cup B(\A g \in 1..(c.gens - 1) : c.elite = 0 \/ BestOf(Gen(g + 1)) <= BestOf(Gen(g)), "elite-lost")
                \cup B(\A g \in 1..c.gens : \E k \in Gen(g) : O[k] = BestOf(Gen(g)) /\ Abs(c.ttts[g] - c.E[k].ttt) <= c.sc, "total-time-log")
           ELSE B(O[c.sol] = BestOf(1..Len(c.E)), "returned-solution")
                \cup B(Len(c.ttts) = Len(c.E) /\ \A k \in 1..Len(c.E) : Abs(c.ttts[k] - c.E[k].ttt) <= c.sc, "total-time-log")
                \cup B(Len(c.logs) = Len(c.E) /\ \A k \in 1..Len(c.E) : LogOf(c, k, k), "search-log")
                \cup B(Rng(c.ibest) = {k - 1 : k \in Better(O)} /\ Len(c.ibest) = Cardinality(Better(O)) /\ (\A j \in 2..Len(c.ibest) : c.ibest[j - 1] < c.ibest[j]) /\ \A j \in 1..Len(c.ibest) : Abs(c.obest[j] - O[c.ibest[j] + 1]) <= 1 + c.dn * Len(c.E[1].V)
                                     /\ Abs(c.ttbest[j] - c.ttts[c.ibest[j] + 1]) <= 1, "best-log")
                \cup StartUsed(c))
Verdict(c) == IF c.mode \in {"ga", "alns"} THEN Search(c) ELSE Sets(c) \cup UNION {Day(c, k) : k \in 1..Len(c.I)} \cup Returned(c)
Init == cid \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ PrintT("@@V " \o ToJson([id |-> Cases[cid].id, bad |-> Verdict(Cases[cid])]))
Spec == Init /\ [][Next]_<<cid, done>>
=============================================================================
