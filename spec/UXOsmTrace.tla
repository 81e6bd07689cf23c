----------------------------- MODULE UXOsmTrace -----------------------------
(***************************************************************************)
(* Recorded uses of the two map importers, judged against UXOsm.           *)
(***************************************************************************)
EXTENDS UXOsm, Json, IOUtils
Cases == JsonDeserialize(IOEnv.UX_CASES)
VARIABLES cid, done
B(c, n) == IF c THEN {} ELSE {n}
Rec(N) == [k \in 1..Len(N) |-> [id |-> N[k].id, x |-> N[k].x, y |-> N[k].y]]

Round(N, L, c, r) ==
  IF ~WellFormed(N, r.N, r.L) THEN {"map-malformed"}
  ELSE LET W == {f \in TLCEval(Witness(N, L, c.t, r.N)) : MapOk(N, L, c.t, c.bidir, r.L, f)}
       IN IF W = {} THEN {"map-merge"}
          ELSE B(\E f \in W : AttrOk(L, c.bidir, r.L, f), "map-attributes") \cup B(LengthOk(N, r.L, r.len), "map-length")
MergeBad(c) ==
  UNION {LET N == IF k = 1 THEN c.N ELSE c.R[k - 1].N
             L == IF k = 1 THEN c.L ELSE c.R[k - 1].L
         IN Round(N, L, c, c.R[k]) : k \in 1..Len(c.R)}
  \cup B(c.all.N = Last(c.R).N /\ c.all.L = Last(c.R).L /\ c.all.len = Last(c.R).len, "map-rounds")

(* first importer: raw segments to lists *)
Import1Bad(c) ==
  B(Len(c.L) = Len(c.Q), "map-segments")
  \cup (IF Len(c.L) = Len(c.Q) THEN UNION {LET q == c.Q[k]
                                               l == c.L[k]
    IN B(l.s = q.s /\ l.e = q.e, "map-endpoints")
       \cup B(l.name = (IF q.name = "" THEN "" ELSE q.name \o "-" \o q.osmid), "map-names")
       \cup B(Lanes1(q, c.A, l.lanes), "map-lanes") \cup B(Speed1(q, c.A, l.sp), "map-speed") : k \in 1..Len(c.L)} ELSE {})
  \cup B(/\ \A k \in 1..Len(c.N) : c.N[k] \in SetOf(c.G)
         /\ \A a, b \in 1..Len(c.N) : c.N[a].id = c.N[b].id => a = b
         /\ Ids(c.N) = {c.Q[k].s : k \in 1..Len(c.Q)} \cup {c.Q[k].e : k \in 1..Len(c.Q)}, "map-nodes")

(* a world before (P) and after (W) *)
Names(s) == {s[k].name : k \in 1..Len(s)}
NamedOk(s, k, asked) == \/ s[k].name = asked
                        \/ /\ asked = "" \/ \E j \in 1..(k - 1) : s[j].name = asked
                           /\ \A j \in 1..(k - 1) : s[j].name # s[k].name
Unique(s) == \A a, b \in 1..Len(s) : s[a].name = s[b].name => a = b
Kept2(P, W) == Len(W) >= Len(P) /\ \A k \in 1..Len(P) : W[k] = P[k]
Sq(W, l) == LET a == W.N[l.s]
                b == W.N[l.e]
            IN (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)

Load1Bad(c) ==
  LET np == Len(c.P.N)
      lp == Len(c.P.L)
      at(i) == np + (CHOOSE j \in 1..Len(c.N) : c.N[j].id = i)
  IN IF ~(Kept2(c.P.N, c.W.N) /\ Kept2(c.P.L, c.W.L)) THEN {"map-existing-content"}
     ELSE B(Unique(c.W.N) /\ Unique(c.W.L), "map-names")
     \cup (IF Len(c.W.N) # np + Len(c.N) \/ Len(c.W.L) # lp + Len(c.L) THEN {"map-segments"}
           ELSE UNION {LET n == c.W.N[np + k] IN B(n.x = c.N[k].x /\ n.y = c.N[k].y, "map-nodes")
                                                 \cup B(NamedOk(c.W.N, np + k, c.N[k].nm), "map-names") : k \in 1..Len(c.N)}
                \cup UNION {LET l == c.W.L[lp + k]
                                m == c.L[k]
                            IN B(l.s = at(m.s) /\ l.e = at(m.e), "map-endpoints") \cup B(NamedOk(c.W.L, lp + k, m.name), "map-names")
                               \cup B(Abs(l.len - m.len) <= 1, "map-length") \cup B(l.lanes = m.lanes, "map-lanes")
                               \cup B(Abs(l.sp - m.sp) <= 1, "map-speed") \cup B(l.kpl = c.kpl, "map-density") : k \in 1..Len(c.L)})

(* second importer: raw segments to a world *)
RECURSIVE Plan(_, _)
Plan(Q, k) == IF k > Len(Q) THEN <<>>
              ELSE (IF Q[k].oneway THEN <<<<k, 1>>>> ELSE <<<<k, 1>>, <<k, 2>>>>) \o Plan(Q, k + 1)
Import2Bad(c) ==
  LET np == Len(c.P.N)
      lp == Len(c.P.L)
      plan == Plan(c.Q, 1)
      ends == {c.Q[k].p : k \in 1..Len(c.Q)} \cup {c.Q[k].q : k \in 1..Len(c.Q)}
      pos(n) == <<c.W.N[n].x, c.W.N[n].y>>
      new == (np + 1)..Len(c.W.N)
      best(n) == MaxOf({c.W.L[k].lanes : k \in {m \in 1..Len(c.W.L) : c.W.L[m].s = n \/ c.W.L[m].e = n}})
  IN IF ~(Kept2(c.P.N, c.W.N) /\ Kept2(c.P.L, c.W.L)) THEN {"map-existing-content"}
     ELSE B(Unique(c.W.N) /\ Unique(c.W.L), "map-names")
     \cup B({pos(n) : n \in new} = ends /\ Cardinality(ends) = Cardinality(new), "map-nodes")
     \cup (IF Len(c.W.L) # lp + Len(plan) THEN {"map-segments"}
           ELSE UNION {LET l == c.W.L[lp + k]
                           q == c.Q[plan[k][1]]
                           back == plan[k][2] = 2
                           a == IF back THEN q.q ELSE q.p
                           b == IF back THEN q.p ELSE q.q
                       IN B(l.s \in new /\ l.e \in new /\ pos(l.s) = a /\ pos(l.e) = b, "map-endpoints")
                          \cup B(NamedOk(c.W.L, lp + k, IF q.name = "" THEN "" ELSE IF back THEN q.name \o "-reverse" ELSE q.name), "map-names")
                          \cup B(Abs(l.len - q.len) <= 1, "map-length")
                          \cup B(Lanes2(q, c.A, c.over, l.lanes), "map-lanes") \cup B(Speed2(q, c.A, c.over, l.sp), "map-speed") : k \in 1..Len(plan)}
                \cup UNION {IF c.cap THEN B(c.W.N[n].fc = best(n) * 1600 /\ c.W.N[n].lanes = 2 * best(n), "map-node-capacity")
                            ELSE B(c.W.N[n].fc = -1, "map-node-capacity") : n \in new})

(* a rectangular grid of w x h nodes *)
GridBad(c) ==
  LET w == c.w
      h == c.h
      id(i, j) == i * h + j + 1
      cell == {<<i, j>> : i \in 0..(w - 1), j \in 0..(h - 1)}
      adj == {<<a, b>> \in cell \X cell : Abs(a[1] - b[1]) + Abs(a[2] - b[2]) = 1}
      at(n) == <<c.W.N[n].x, c.W.N[n].y>>
  IN B(Unique(c.W.N) /\ Unique(c.W.L) /\ Len(c.W.N) = w * h /\ {at(n) : n \in 1..Len(c.W.N)} = {<<100 * a[1], 100 * a[2]>> : a \in cell}, "grid-nodes")
     \cup B(Len(c.W.L) = Cardinality(adj)
            /\ {<<at(c.W.L[k].s), at(c.W.L[k].e)>> : k \in 1..Len(c.W.L)} = {<<<<100 * p[1][1], 100 * p[1][2]>>, <<100 * p[2][1], 100 * p[2][2]>>>> : p \in adj}, "grid-links")
     \cup B(\A k \in 1..Len(c.W.L) : c.W.L[k].len = c.len /\ c.W.L[k].sp = c.sp /\ c.W.L[k].lanes = c.lanes, "grid-attributes")
     \cup B(c.keysn = 1 /\ c.keysl = 1, "grid-returned")

Bad(c) == CASE c.k = "merge" -> MergeBad(c) [] c.k = "import1" -> Import1Bad(c) [] c.k = "load1" -> Load1Bad(c) [] c.k = "import2" -> Import2Bad(c)
            [] c.k = "grid" -> GridBad(c)
Init == cid \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED cid /\ PrintT("@@V " \o ToJson([id |-> Cases[cid].id, bad |-> Bad(Cases[cid])]))
Spec == Init /\ [][Next]_<<cid, done>>
=============================================================================
