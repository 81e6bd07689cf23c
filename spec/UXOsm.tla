-------------------------------- MODULE UXOsm -------------------------------
(***************************************************************************)
(* Road maps.  A map has nodes [id, x, y] and links [name, s, e, lanes,    *)
(* sp]; s and e are node ids.  Three transformations:                      *)
(*   Expected1/2 : what a raw map segment becomes in the importers         *)
(*   IsMerge     : one round of merging the ends of short links            *)
(*   Loaded      : a map put into a world that may already have content    *)
(***************************************************************************)
EXTENDS UXCore, TLC
SetOf(s) == {s[k] : k \in 1..Len(s)}
Ids(N) == {N[k].id : k \in 1..Len(N)}
Pairs(L) == {<<L[k].s, L[k].e>> : k \in 1..Len(L)}
Pos(N, i) == LET k == CHOOSE j \in 1..Len(N) : N[j].id = i IN <<N[k].x, N[k].y>>
D2(N, a, b) == LET p == Pos(N, a)
                   q == Pos(N, b)
               IN (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
(* thresholds lie half way between integers: t + 1/2 *)
Short(N, t, l) == l.s # l.e /\ D2(N, l.s, l.e) <= t * t + t
(* the links of a map that exist as short connections of n *)
Near(N, L, t, n) == {l.s : l \in {m \in SetOf(L) : m.e = n /\ Short(N, t, m)}} \cup {l.e : l \in {m \in SetOf(L) : m.s = n /\ Short(N, t, m)}}
Image(L, f) == {<<f[p[1]], f[p[2]]>> : p \in Pairs(L)}
NoLoop(S) == {p \in S : p[1] # p[2]}
Both(S, bidir) == IF bidir THEN S \cup {<<p[2], p[1]>> : p \in S} ELSE S
UsedBy(S) == {p[1] : p \in S} \cup {p[2] : p \in S}
(* f says where every node of the map went *)
Admissible(N, L, t, f) == \A n \in Ids(N) : f[n] = n \/ (f[n] \in Near(N, L, t, n) /\ f[f[n]] = f[n])
Progress(N, L, t, f) == (\E l \in SetOf(L) : Short(N, t, l)) => \E n \in Ids(N) : f[n] # n

(* one round: new nodes N2 and links L2 (with the recorded length) *)
MapOk(N, L, t, bidir, L2, f) ==
  /\ Admissible(N, L, t, f) /\ Progress(N, L, t, f)
  /\ Pairs(L2) = Both(NoLoop(Image(L, f)), bidir)
WellFormed(N, N2, L2) ==
  /\ \A a, b \in 1..Len(N2) : N2[a].id = N2[b].id => a = b
  /\ \A k \in 1..Len(N2) : N2[k] \in SetOf(N)
  /\ Ids(N2) = UsedBy(Pairs(L2))
  /\ \A k \in 1..Len(L2) : L2[k].s # L2[k].e
  /\ \A a, b \in 1..Len(L2) : (L2[a].s = L2[b].s /\ L2[a].e = L2[b].e) => a = b
(* a link keeps the attributes of a link it stands for; an added reverse link those of its opposite *)
Kept(L, f, l) == \E m \in SetOf(L) : f[m.s] = l.s /\ f[m.e] = l.e /\ m.name = l.name /\ m.lanes = l.lanes /\ m.sp = l.sp
Reversed(L, L2, f, l) == /\ <<l.s, l.e>> \notin Image(L, f)
                         /\ \E m \in SetOf(L2) : m.s = l.e /\ m.e = l.s /\ l.name = m.name \o "-reverse" /\ m.lanes = l.lanes /\ m.sp = l.sp
AttrOk(L, bidir, L2, f) == \A k \in 1..Len(L2) : Kept(L, f, L2[k]) \/ (bidir /\ Reversed(L, L2, f, L2[k]))
LengthOk(N, L2, len) == \A k \in 1..Len(L2) : LET d == D2(N, L2[k].s, L2[k].e) IN Abs(len[k] * len[k] - d * 10000) <= 2 * len[k] + 2

Gone(N, N2) == Ids(N) \ Ids(N2)
Choices(N, L, t, N2) == [n \in Gone(N, N2) |-> {n} \cup Near(N, L, t, n)]
(* the witnesses: functions on the nodes that are gone, everything else stays *)
RECURSIVE Fns(_, _)
Fns(D, C) == IF D = {} THEN {<<>>}
             ELSE LET n == CHOOSE n \in D : TRUE
                  IN {(n :> m) @@ g : m \in C[n], g \in Fns(D \ {n}, C)}
Witness(N, L, t, N2) == {[n \in Ids(N) |-> IF n \in Gone(N, N2) THEN g[n] ELSE n] : g \in Fns(Gone(N, N2), Choices(N, L, t, N2))}

(*------------------------- raw map segments -------------------------------*)
(* q: cls (sequence of road classes, <<>> = unknown), lanes (-1 = none), sp (km/h * 10, -1 = none), oneway; a: default lanes and speeds by class
   in the same units, "others" for all else; over = TRUE ignores what the map says *)
ClassesOf(q, A) == IF q.cls = <<>> THEN DOMAIN A ELSE {IF c \in DOMAIN A THEN c ELSE "others" : c \in SetOf(q.cls)}
Lanes1(q, A, l) == IF q.lanes # -1 THEN l = q.lanes ELSE \E c \in ClassesOf(q, A) : l = A[c].lanes
Speed1(q, A, s) == IF q.sp # -1 THEN Abs(s - q.sp) <= 1 ELSE \E c \in ClassesOf(q, A) : Abs(s - A[c].sp) <= 1
(* the second importer: the lanes of a two-way road are those of both directions together *)
Half(q, n) == IF q.oneway THEN n ELSE Max(1, n \div 2)
Lanes2(q, A, over, l) == IF q.lanes # -1 /\ ~over THEN l = Half(q, q.lanes) ELSE \E c \in ClassesOf(q, A) : l = A[c].lanes
Speed2(q, A, over, s) == IF q.sp # -1 /\ ~over THEN Abs(s - q.sp) <= 1 ELSE \E c \in ClassesOf(q, A) : Abs(s - A[c].sp) <= 1
=============================================================================
