------------------------------ MODULE UXTables ------------------------------
(***************************************************************************)
(* The result tables as functions of the vehicles' histories.              *)
(* A case holds what happened (vehicles with their origin, destination,    *)
(* final stage, departure and travel time, travelled links; links with     *)
(* their geometry and per-step records) and the tables the analysis gave;  *)
(* every table entry must be the value this module derives.                *)
(* Units: time 1/100 step, distance cm, speed mm/s, x and y in mm.         *)
(* NAN, INF stand for not-a-number and infinity.                           *)
(***************************************************************************)
EXTENDS UXCore, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.UX_CASES)
NAN == -888888888
INF == 888888888

VARIABLES cid, done
Near(a, b, t) == a = b \/ (a # NAN /\ b # NAN /\ a < INF /\ b < INF /\ Abs(a - b) <= t)
B(c, n) == IF c THEN {} ELSE {n}
SumOver(S, F(_)) == SumF([x \in S |-> F(x)], S)

(*----- facts -----*)
VehsOf(c, S(_)) == {i \in 1..Len(c.V) : S(c.V[i])}
Done(v) == v.st = End
RouteLen(c, v) == SumSeq([k \in 1..Len(v.route) |-> c.L[v.route[k]].len])
(* distance: all links left behind, and the position on the current one *)
DistOf(c, v) ==
  IF v.st \in {Home, Wait} THEN 0
  ELSE IF v.st = Run THEN RouteLen(c, v) - c.L[Last(v.route)].len + v.x
  ELSE RouteLen(c, v)

(* least cost over paths, Bellman-Ford over links that are open *)
RECURSIVE Relax(_, _, _, _)
Relax(c, d, cost(_), n) ==
  IF n = 0 THEN d
  ELSE LET open == {l \in 1..Len(c.L) : ~c.L[l].closed /\ d[c.L[l].s] < INF}
           nd == [k \in 1..c.nn |-> MinOf({d[k]} \cup {d[c.L[l].s] + cost(l) : l \in {m \in open : c.L[m].e = k}})]
       IN IF nd = d THEN d ELSE Relax(c, nd, cost, n - 1)
From(c, o, cost(_)) == Relax(c, [k \in 1..c.nn |-> IF k = o THEN 0 ELSE INF], cost, c.nn)

(* standard deviation s (tenths of a unit) of integers xs, each rounded *)
StdOk(xs, s) ==
  LET n == Len(xs)
      m == SumSeq(xs) \div n
      d == [k \in 1..n |-> xs[k] - m]
      sd == SumSeq(d)
      nv == n * SumSeq([k \in 1..n |-> d[k] * d[k]]) - sd * sd     \* n^2 variance
      tol == 6 + s \div 100           \* shortest times are known to 0.01 steps
      lo == Max(0, s - tol)
  IN /\ s >= 0
     /\ nv >= (n * n) * ((lo * lo) \div 100) - 1
     /\ nv <= (n * n) * (((s + tol) * (s + tol)) \div 100 + 1) + 1
MeanOk(xs, m, t) == Abs(SumSeq(xs) - Len(xs) * m) <= Len(xs) * t
SeqOf(c, S, F(_)) == LET a == Asc(S) IN [k \in 1..Len(a) |-> F(a[k])]

(*----- origin-destination table -----*)
Od(c) == {<<c.V[i].o, c.V[i].d>> : i \in 1..Len(c.V)}
OdVehs(c, p) == {i \in 1..Len(c.V) : c.V[i].o = p[1] /\ c.V[i].d = p[2]}
OdRow(c, r, ff, sd) ==
  LET S == OdVehs(c, <<r.o, r.d>>)
      C == {i \in S : Done(c.V[i])}
  IN B(r.total = c.dn * Cardinality(S), "od-total")
     \cup B(r.comp = c.dn * Cardinality(C), "od-completed")
     \cup B(Near(r.free, ff[r.o][r.d], 3), "od-free-time")
     \cup B(Near(r.dmin, sd[r.o][r.d], 3), "od-shortest-distance")
     \cup (IF C = {} THEN {} ELSE
           B(MeanOk(SeqOf(c, C, LAMBDA i : 100 * c.V[i].tt), r.tt, 1), "od-mean-time")
           \cup B(StdOk(SeqOf(c, C, LAMBDA i : c.V[i].tt), r.ttstd), "od-std-time"))
     \cup (IF S = {} THEN {} ELSE
           B(MeanOk(SeqOf(c, S, LAMBDA i : DistOf(c, c.V[i])), r.dist, 2), "od-mean-distance")
           \cup B(StdOk(SeqOf(c, S, LAMBDA i : DistOf(c, c.V[i]) \div c.du), r.diststd), "od-std-distance"))
OdTable(c, ff, sd) ==
  B({<<c.od[k].o, c.od[k].d>> : k \in 1..Len(c.od)} = Od(c) /\ Len(c.od) = Cardinality(Od(c)), "od-rows")
  \cup UNION {OdRow(c, c.od[k], ff, sd) : k \in 1..Len(c.od)}

(*----- summary -----*)
Summary(c, s, ff) ==
  LET All == 1..Len(c.V)
      C == {i \in All : Done(c.V[i])}
      n == Cardinality(C)
      tt == SumOver(C, LAMBDA i : 100 * c.V[i].tt)
      freeOk == \A i \in C : ff[c.V[i].o][c.V[i].d] < INF
      fr == SumOver(C, LAMBDA i : ff[c.V[i].o][c.V[i].d])
      dist == SumOver(All, LAMBDA i : DistOf(c, c.V[i]))
  IN B(s.total = c.dn * Len(c.V), "summary-total")
     \cup B(s.comp = c.dn * n, "summary-completed")
     \cup B(Near(s.dist, c.dn * dist, 4 * c.dn * Len(c.V)), "summary-distance")
     \cup (IF n = 0 THEN B(s.tt < 0 /\ s.mean < 0, "summary-none")
           ELSE B(Near(s.tt, c.dn * tt, 2), "summary-total-time")
                \cup B(Abs(n * s.mean - tt) <= n, "summary-mean-time")
                \cup (IF ~freeOk THEN {} ELSE
                      B(Near(s.delay, c.dn * (tt - fr), 4 * c.dn * n), "summary-total-delay")
                      \cup B(Abs(n * s.mdelay - (tt - fr)) <= 4 * n, "summary-mean-delay")))

(*----- average speed, the printed summary, files -----*)
\* samples: every logged step of every waiting (0) or running vehicle
Samples(c) == LET all == [i \in 1..Len(c.V) |-> [k \in 1..Len(SelectSeq(c.V[i].log, LAMBDA e : e[1] \in {1, 2})) |->
                                                LET e == SelectSeq(c.V[i].log, LAMBDA z : z[1] \in {1, 2})[k]
                                                IN IF e[1] = 2 THEN e[6] ELSE 0]]
              IN all
AvgSpeed(c, s) ==
  LET x == TLCEval(Samples(c))
      n == SumOver(1..Len(x), LAMBDA i : Len(x[i]))
      t == SumOver(1..Len(x), LAMBDA i : SumSeq(x[i]))
  IN IF n = 0 THEN B(s.speed = 0, "average-speed-none")
     ELSE LET m == t \div n IN B(Abs(s.speed - m) <= 2, "average-speed")
Tenth(x) == x * 10
Printed(c, s, p) ==
  LET has == s.comp > 0
      tick == c.dtds                       \* seconds*10 of one step; the summary's times are in 1/100 steps
      ok(v, w) == Abs(v - w) <= 1 + Abs(w) \div 5000
      sec(v) == (v \div 100) * tick + ((v % 100) * tick) \div 100
  IN B(p.total = s.total /\ p.comp = s.comp, "printed-trips")
     \cup B(Abs(p.speed - s.speed \div 100) <= 1, "printed-speed")
     \cup B(ok(p.dist, s.dist \div 10), "printed-distance")
     \cup (IF ~has THEN B(p.tt = -1 /\ p.mean = -1 /\ p.delay = -1 /\ p.ratio = -1, "printed-none")
           ELSE B(ok(p.tt, sec(s.tt)), "printed-total-time")
                \cup B(ok(p.mean, sec(s.mean)), "printed-mean-time")
                \cup (IF Abs(s.mdelay) >= 100000000 THEN {} ELSE
                      B(Abs(p.delay - sec(s.mdelay)) <= 2 + Abs(p.delay) \div 5000, "printed-delay")
                      \cup B(Abs(p.ratio * (s.mean \div 10) - 100 * s.mdelay) <= s.mean \div 10 + 2000, "printed-ratio")))
Files(c) == UNION {B(c.files[k] = <<>>, "file-" \o k) : k \in DOMAIN c.files}

(*----- trips -----*)
TripTable(c) ==
  IF Len(c.trips) # Len(c.V) THEN {"trip-rows"}
  ELSE UNION {LET r == c.trips[i] v == c.V[i] IN
         B(r.name = v.name, "trip-name")
         \cup B(r.o = v.o /\ r.d = v.d, "trip-od")
         \cup B(r.dep = 100 * v.dep, "trip-departure")
         \cup B(r.st = v.st, "trip-state")
         \cup B(r.tt = (IF Done(v) THEN 100 * v.tt ELSE NAN), "trip-time")
         \cup B(Near(r.dist, DistOf(c, v), 3), "trip-distance")
         \cup B(IF v.vs = <<>> THEN r.speed = NAN ELSE MeanOk(v.vs, r.speed, 1), "trip-speed")
        : i \in 1..Len(c.V)}

(*----- links -----*)
Inn(c, l) == SumSeq([i \in 1..Len(c.V) |-> Cardinality({k \in 1..Len(c.V[i].route) : c.V[i].route[k] = l})])
OnIt(c, l) == Cardinality({i \in 1..Len(c.V) : c.V[i].st = Run /\ Last(c.V[i].route) = l})
Volume(c, l) == c.dn * (Inn(c, l) - OnIt(c, l))
Positive(s) == SelectSeq(s, LAMBDA x : x > 0)
LinkRow(c, l, r) ==
  LET L == c.L[l]
      tt == Positive(L.tta)
  IN B(r.name = L.name /\ r.s = L.s /\ r.e = L.e /\ Near(r.len, L.len, 1), "link-identity")
     \cup B(r.vol = Volume(c, l), "link-volume")
     \cup B(r.rem = c.dn * OnIt(c, l), "link-remaining")
     \cup B(r.vol = Last(L.cd) /\ r.rem = Last(L.ca) - Last(L.cd), "link-curves")
     \cup B(Near(r.free, L.fft, 2), "link-free-time")
     \cup (IF Volume(c, l) = 0 \/ tt = <<>> THEN B(r.tt = -1 * c.one, "link-no-time")
           ELSE B(MeanOk(tt, r.tt, 1), "link-mean-time")
                \cup B(StdOk([k \in 1..Len(tt) |-> tt[k] \div c.tu], r.ttstd), "link-std-time")
                \cup B(Abs(r.ratio * L.fft - 100 * r.tt) <= L.fft + 100 + r.ratio, "link-delay-ratio"))
LinkTable(c) ==
  IF Len(c.links) # Len(c.L) THEN {"link-rows"}
  ELSE UNION {LinkRow(c, l, c.links[l]) : l \in 1..Len(c.L)}
CumTable(c) ==
  UNION {B(c.cum[l].t = [k \in 1..c.n |-> 100 * (k - 1)], "cum-time")
         \cup B(c.cum[l].a = c.L[l].ca /\ c.cum[l].d = c.L[l].cd, "cum-counts")
         \cup B(c.cum[l].tta = c.L[l].tta /\ c.cum[l].tti = c.L[l].tti, "cum-travel-times")
        : l \in 1..Len(c.L)}
  \cup B(Len(c.cum) = Len(c.L), "cum-rows")

(*----- vehicle logs -----*)
(* expected: one row per logged entry that is not at home *)
VehTable(c) ==
  UNION {LET lg == SelectSeq(c.V[i].log, LAMBDA e : e[1] # Home)
             ex == [k \in 1..Len(lg) |->
                      <<lg[k][2], IF lg[k][3] > 0 THEN lg[k][3] ELSE CASE lg[k][1] = Wait -> -1 [] lg[k][1] = Abort -> -2 [] OTHER -> -3,
                        lg[k][4], lg[k][5], lg[k][6]>>]
         IN B(c.vrows[i].rows = ex, "vehicle-rows")
            \cup B(c.vrows[i].o = c.V[i].o /\ c.vrows[i].d = c.V[i].d /\ c.vrows[i].dn = c.dn, "vehicle-identity")
        : i \in {j \in 1..Len(c.V) : SelectSeq(c.V[j].log, LAMBDA e : e[1] # Home) # <<>>}}
(* positions on the map are those on the straight line of the link *)
Gps(c) ==
  UNION {LET v == c.V[i]
             on == {k \in 1..Len(v.log) : v.log[k][3] > 0}
             ts == {v.log[k][2] : k \in on}
             rs == c.gps[i]
         IN B({rs[k][1] : k \in 1..Len(rs)} = ts, "gps-times")
            \cup B(\A k \in 1..Len(rs) : \E j \in on :
                   /\ v.log[j][2] = rs[k][1]
                   /\ LET L == c.L[v.log[j][3]]
                          f == (v.log[j][4] * 100) \div Max(1, L.len)      \* 1/1000 of the link
                      IN /\ Abs((rs[k][2] - L.x0) * 10 - ((L.x1 - L.x0) * f) \div 100) <= Abs(L.x1 - L.x0) \div 40 + 20
                         /\ Abs((rs[k][3] - L.y0) * 10 - ((L.y1 - L.y0) * f) \div 100) <= Abs(L.y1 - L.y0) \div 40 + 20, "gps-position")
        : i \in 1..Len(c.V)}

(*----- areas -----*)
AreaLinks(c, a, border) ==
  {l \in 1..Len(c.L) : IF border THEN c.L[l].s \in Rng(a) \/ c.L[l].e \in Rng(a)
                       ELSE c.L[l].s \in Rng(a) /\ c.L[l].e \in Rng(a)}
MeanTt(c, l) == c.links[l].tt       \* itself checked above
AreaRow(c, r) ==
  LET S == AreaLinks(c, r.nodes, r.border)
      vis == {i \in 1..Len(c.V) : Rng(c.V[i].route) \cap S # {}}
      D(l) == Volume(c, l) \div c.dn
      tt == SumOver(S, LAMBDA l : D(l) * MeanTt(c, l))
      fr == SumOver(S, LAMBDA l : D(l) * c.L[l].fft)
      di == SumOver(S, LAMBDA l : D(l) * (c.L[l].len \div 100))
      n == SumOver(S, D)
  IN B(r.n = Cardinality(S), "area-links")
     \cup B(r.vol = c.dn * Cardinality(vis), "area-volume")
     \cup B(r.rem = SumOver(S, LAMBDA l : c.dn * OnIt(c, l)), "area-remaining")
     \cup (IF vis = {} THEN {} ELSE
           B(Near(r.tt, c.dn * tt, c.dn * (n + 2)), "area-total-time")
           \cup B(n = 0 \/ fr <= 0 \/ Abs((r.delay + 100) * (fr \div 100) - tt) <= (fr + tt) \div 100 + r.delay + 200
                  \/ (r.delay = 0 /\ tt <= fr), "area-delay")
           \cup B(n = 0 \/ tt < 2000 \/ r.speed = NAN
                  \/ LET rhs == 10 * ((100 * di) \div c.dtds) IN
                     Abs(r.speed * (tt \div 100) - rhs) <= rhs \div 30 + r.speed + tt \div 100 + 100, "area-speed"))

Area2Row(c, r) ==
  LET S == {i \in 1..Len(c.V) : c.V[i].o \in Rng(r.a) /\ c.V[i].d \in Rng(r.b)}
      C == {i \in S : Done(c.V[i])}
  IN B(r.total = c.dn * Cardinality(S) /\ S # {}, "area2-total")
     \cup B(r.comp = c.dn * Cardinality(C), "area2-completed")
     \cup (IF C = {} THEN B(r.tt = NAN, "area2-mean-time") ELSE
           B(MeanOk(SeqOf(c, C, LAMBDA i : 100 * c.V[i].tt), r.tt, 1), "area2-mean-time")
           \cup B(MeanOk(SeqOf(c, S, LAMBDA i : DistOf(c, c.V[i])), r.dist, 2), "area2-mean-distance"))
     \cup B(\/ \E i \in S : c.sd[c.V[i].o][c.V[i].d] >= INF
            \/ MeanOk(SeqOf(c, S, LAMBDA i : c.sd[c.V[i].o][c.V[i].d]), r.dmin, 3), "area2-shortest")
Area2Table(c) ==
  LET P == {<<i, j>> : i \in 1..Len(c.areas), j \in 1..Len(c.areas)}
      has(p) == \E i \in 1..Len(c.V) : c.V[i].o \in Rng(c.areas[p[1]]) /\ c.V[i].d \in Rng(c.areas[p[2]])
  IN B({<<c.area2[k].i, c.area2[k].j>> : k \in 1..Len(c.area2)} = {p \in P : has(p)}, "area2-rows")
     \cup UNION {Area2Row(c, c.area2[k]) : k \in 1..Len(c.area2)}

(*----- groups of vehicles (objects, not platoon members) -----*)
GroupRow(c, r, ff, sd) ==
  LET S == Rng(r.vs)
      C == {i \in S : Done(c.V[i])}
      ok == \A i \in C : LET v == c.V[i] IN ff[v.o][v.d] \in 1..(INF - 1) /\ sd[v.o][v.d] \in 1..(INF - 1)
  IN B(r.total = Cardinality(S), "group-total")
     \cup B(r.comp = Cardinality(C), "group-completed")
     \cup (IF C = {} THEN {} ELSE
           B(MeanOk(SeqOf(c, C, LAMBDA i : 100 * c.V[i].tt), r.tt, 1), "group-mean-time")
           \cup B(MeanOk(SeqOf(c, C, LAMBDA i : DistOf(c, c.V[i])), r.dist, 2), "group-mean-distance")
           \cup B(MeanOk(SeqOf(c, C, LAMBDA i : (DistOf(c, c.V[i]) * 100) \div (c.V[i].tt * c.dtds)), r.speed, 3 + r.speed \div 50), "group-mean-speed")
           \cup (IF ~ok THEN {} ELSE
                 LET dl(i) == (100 * c.V[i].tt * 1000) \div ff[c.V[i].o][c.V[i].d]
                     dt(i) == (DistOf(c, c.V[i]) * 100) \div (sd[c.V[i].o][c.V[i].d] \div 10)
                 IN B(MeanOk(SeqOf(c, C, dl), r.delay, 4 + r.delay \div 50), "group-mean-delay")
                    \cup B(MeanOk(SeqOf(c, C, dt), r.detour, 4 + r.detour \div 50), "group-mean-detour")
                    \cup B(StdOk(SeqOf(c, C, LAMBDA i : dl(i) \div 20), r.delaystd), "group-std-delay")))

Clauses(c) ==
  LET ff == [o \in 1..c.nn |-> From(c, o, LAMBDA l : c.L[l].fft)]
      sd == [o \in 1..c.nn |-> From(c, o, LAMBDA l : c.L[l].len)]
      c2 == [x \in DOMAIN c \cup {"sd"} |-> IF x = "sd" THEN sd ELSE c[x]]
  IN OdTable(c, ff, sd) \cup Summary(c, c.sum, ff) \cup AvgSpeed(c, c.sum) \cup Printed(c, c.sum, c.printed) \cup Files(c) \cup TripTable(c) \cup LinkTable(c) \cup CumTable(c)
     \cup VehTable(c) \cup Gps(c)
     \cup UNION {AreaRow(c, c.area[k]) : k \in 1..Len(c.area)}
     \cup Area2Table(c2)
     \cup UNION {GroupRow(c, c.group[k], ff, sd) : k \in 1..Len(c.group)}
     \cup UNION {B(Near(DistOf(c, c.V[i]), c.V[i].dist, 3), "vehicle-distance") : i \in 1..Len(c.V)}

Init == cid \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
        /\ PrintT("@@V " \o ToJson([id |-> Cases[cid].id, bad |-> Clauses(Cases[cid])]))
Spec == Init /\ [][Next]_<<cid, done>>
=============================================================================
