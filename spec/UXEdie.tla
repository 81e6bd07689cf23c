-------------------------------- MODULE UXEdie ------------------------------
(* Reported traffic states of recorded runs, decided against UXEdieDef. *)
EXTENDS UXEdieDef, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.UX_CASES)
VARIABLES cid, li, tot, bad
vars == <<cid, li, tot, bad>>
B(c, n) == IF c THEN {} ELSE {n}
Case == Cases[cid]

Near(a, b, tol) == Abs(a - b) <= tol
Cell(c, l, g, r) ==
  B(r.t = g.i * c.edt /\ r.x = g.j * l.dx /\ r.dt = c.edt /\ r.dx = l.dx, "edie-cell")
  \cup B(Near(r.D, g.d, c.dn * g.n + 3), "edie-distance")
  \cup B(Near(r.K, g.t, c.dn * g.n + 3), "edie-time")
  \cup (IF r.K = 0 /\ g.n = 0 THEN B(r.V = l.u, "edie-empty-speed")
        ELSE IF r.K < 20 THEN {}
        ELSE B(Abs(r.V * (r.K \div 10) - r.D * 10) <= r.K \div 10 + r.V * 2 + 20, "edie-speed"))
OneLink(c, l, G) ==
  IF Len(l.R) # NT(c) * NX(l) THEN {"edie-grid"}
  ELSE UNION {Cell(c, l, G[n], l.R[n]) : n \in 1..Len(G)}
Sure(c, l) == \A k \in 1..Len(l.T) : ~Unsure(c, l, l.T[k])

(*----- network averages: m.L the chosen links, tot[l] the sums per time bin -----*)
Net(c, m) ==
  LET len == Sum([k \in 1..Len(m.L) |-> c.L[m.L[k]].len]) \div 100
      T(i) == Sum([k \in 1..Len(m.L) |-> tot[m.L[k]][i].t])
      D(i) == Sum([k \in 1..Len(m.L) |-> tot[m.L[k]][i].d])
      (* per 1e-6 vehicles per metre, 1e-6 vehicles per second *)
      per(X) == (X \div c.edt) * 10000 + ((X % c.edt) * 10000) \div c.edt
      perm(X) == (X \div len) * 100 + ((X % len) * 100) \div len
      k6(i) == per(perm(T(i)))
      q6(i) == per(perm(D(i)))
  IN IF Len(m.R) # NT(c) THEN {"mfd-rows"}
     ELSE UNION {B(m.R[i].t = (i - 1) * c.edt, "mfd-rows")
                 \cup B(Near(m.R[i].k, k6(i), k6(i) \div 200 + 200), "mfd-density") \cup B(Near(m.R[i].q, q6(i), q6(i) \div 200 + 2000), "mfd-flow") : i \in 1..Len(m.R)}

Init == cid \in 1..Len(Cases) /\ li = 1 /\ tot = <<>> /\ bad = {}
Next ==
  \/ /\ li <= Len(Case.L)
     /\ LET l == Case.L[li] G == Grid(Case, l) ok == Sure(Case, l) IN
        /\ bad' = bad \cup (IF ok THEN OneLink(Case, l, G) ELSE {})
        /\ tot' = Append(tot, [i \in 1..NT(Case) |-> [t |-> Sum([j \in 1..NX(l) |-> G[(i - 1) * NX(l) + j].t]),
                                                     d |-> Sum([j \in 1..NX(l) |-> G[(i - 1) * NX(l) + j].d]), sure |-> ok]])
     /\ li' = li + 1 /\ UNCHANGED cid
  \/ /\ li = Len(Case.L) + 1
     /\ bad' = bad \cup UNION {IF \A k \in 1..Len(m.L) : Sure(Case, Case.L[m.L[k]]) THEN Net(Case, m) ELSE {} : m \in {Case.M[k] : k \in 1..Len(Case.M)}}
     /\ PrintT("@@V " \o ToJson([id |-> Case.id, bad |-> bad']))
     /\ li' = li + 1 /\ UNCHANGED <<cid, tot>>
Spec == Init /\ [][Next]_vars
=============================================================================
