----------------------------- MODULE UXNetTrace -----------------------------
(***************************************************************************)
(* Recorded sequences of construction calls, each with its outcome and the *)
(* registry seen afterwards, validated step by step against UXNet.         *)
(***************************************************************************)
EXTENDS UXNet, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.UX_CASES)
VARIABLES cid, i, R, bad
vars == <<cid, i, R, bad>>
B(c, n) == IF c THEN {} ELSE {n}
NamesOf(s) == [k \in 1..Len(s) |-> s[k].name]
InL(r, n) == {l \in 1..Len(r.L) : r.L[l].e = n}
OutL(r, n) == {l \in 1..Len(r.L) : r.L[l].s = n}

Seen(r, q) ==
  B(q.after.n = NamesOf(r.N), "net-nodes") \cup B(q.after.l = NamesOf(r.L), "net-links") \cup B(q.after.v = NamesOf(r.V), "net-vehicles")
  \cup B(Len(q.after.io) = Len(r.N) /\ \A k \in 1..Len(r.N) : SetOf(q.after.io[k][1]) = InL(r, k) /\ SetOf(q.after.io[k][2]) = OutL(r, k)
         /\ Len(q.after.io[k][1]) = Cardinality(InL(r, k)) /\ Len(q.after.io[k][2]) = Cardinality(OutL(r, k)), "net-connection")
  \cup B(q.after.look = 1, "net-lookup")
Step(q) ==
  LET acc == Accepts(R, q) IN
  B(q.ok = 1 => acc, "net-accepts-wrong-" \o q.k)
  \cup B(acc => q.ok = 1, "net-rejects-" \o q.k)
  \cup B((acc /\ q.ok = 1 /\ q.k \in {"node", "link", "veh"}) => NameOk(Reg(R, q), q), "net-name")
  \cup B((acc /\ q.ok = 1 /\ q.k \in {"getnode", "getlink"}) => q.name = q.asked, "net-lookup")
  \cup B((acc /\ q.ok = 1 /\ q.k = "demand") => Cardinality(SetOf(q.names)) = Len(q.names) /\ SetOf(q.names) \cap Names(R.V) = {}, "net-name")
  \cup Seen(Apply(R, q), q)

(* the whole registry at the end *)
Same(a, b, F) == \A f \in F : a[f] = b[f]
Final(c, r) ==
  LET P == c.P IN
  B(Len(c.fin.N) = Len(r.N) /\ \A k \in 1..Len(r.N) : Same(r.N[k], c.fin.N[k], {"name", "x", "y", "sig", "off", "attr"})
      /\ ((r.N[k].fc = -1 /\ c.adj) \/ (r.N[k].fc = c.fin.N[k].fc /\ (r.N[k].fc = -1 \/ r.N[k].lanes = c.fin.N[k].lanes))), "net-node-parameters")
  \cup B(Len(c.fin.L) = Len(r.L) /\ \A k \in 1..Len(r.L) : Same(r.L[k], c.fin.L[k], {"name", "s", "e", "len", "u", "kappa", "lanes", "prio", "sg", "attr"}), "net-link-parameters")
  \cup B(Len(c.fin.V) = Len(r.V) /\ \A k \in 1..Len(r.V) : Same(r.V[k], c.fin.V[k], {"name", "o", "d", "dep", "attr"}), "net-vehicle-parameters")
  \cup (IF Len(c.fin.L) = Len(r.L)
        THEN UNION {Derived(P, r.L[k], (CHOOSE q \in SetOf(c.Q) : q.k = "link" /\ q.ok = 1 /\ q.name = r.L[k].name), c.fin.L[k]) : k \in 1..Len(r.L)}
             \cup (IF c.adj THEN UNION {B(Abs(c.fin.N[k].fc4 - AdjFc(r, c.fin.L, k)) <= 10, "net-adjusted-capacity") : k \in 1..Len(r.N)} ELSE {})
        ELSE {})
  \cup B(c.tmax = (IF c.asktmax # -1 THEN c.asktmax ELSE AutoMax(P, r)), "net-horizon")
  \cup B(c.steps = c.tmax \div P.dt10, "net-horizon")
  \cup B(c.after = 1, "net-runs")

Init == cid \in 1..Len(Cases) /\ i = 1 /\ R = Empty /\ bad = {}
Next ==
  LET c == Cases[cid] IN
  \/ /\ i <= Len(c.Q)
     /\ bad' = bad \cup (IF bad = {} THEN Step(c.Q[i]) ELSE {})
     /\ R' = Apply(R, c.Q[i])
     /\ i' = i + 1 /\ UNCHANGED cid
  \/ /\ i = Len(c.Q) + 1
     /\ bad' = bad \cup (IF bad = {} THEN Final(c, R) ELSE {})
     /\ PrintT("@@V " \o ToJson([id |-> c.id, bad |-> bad']))
     /\ i' = i + 1 /\ UNCHANGED <<cid, R>>
Spec == Init /\ [][Next]_vars
=============================================================================
