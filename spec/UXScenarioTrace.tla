--------------------------- MODULE UXScenarioTrace --------------------------
(***************************************************************************)
(* Recorded programs over worlds and files, decided against UXScenario.    *)
(* c.base: the definition (nodes and links as a world shows them right     *)
(* after the calls, demand calls with the vehicles they made);             *)
(* c.Q: what was done; c.snap: what every world shows in the end;          *)
(* c.hist: a fingerprint of every step of every world's run.               *)
(* For files of rows (c.rows) the network is what the rows say.            *)
(***************************************************************************)
EXTENDS UXScenario, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.UX_CASES)
VARIABLES cid, i, W, F, bad
vars == <<cid, i, W, F, bad>>
B(c, n) == IF c THEN {} ELSE {n}
Case == Cases[cid]

Do(q) ==
  CASE q.op = "define" -> /\ W' = [W EXCEPT ![q.w] = [N |-> IF q.net THEN @.N \o Case.base.N ELSE @.N,
                                                     L |-> IF q.net THEN @.L \o Case.base.L ELSE @.L,
                                                     D |-> IF q.dem THEN @.D \o Case.base.D ELSE @.D]]
                          /\ UNCHANGED F
    [] q.op = "save" -> F' = [F EXCEPT ![q.f] = Save(W[q.w], q.net, q.dem)] /\ UNCHANGED W
    [] q.op = "load" -> W' = [W EXCEPT ![q.w] = IF CanLoad(W[q.w], F[q.f], q.net, q.dem) THEN Load(W[q.w], F[q.f], q.net, q.dem) ELSE W[q.w]] /\ UNCHANGED F

RECURSIVE Vehs(_)
Vehs(D) == IF D = <<>> THEN <<>> ELSE Head(D).veh \o Vehs(Tail(D))
Random(D) == \E k \in 1..Len(D) : D[k].rand
Fields(a, b, what) == UNION {IF a[f] = b[f] THEN {} ELSE {what \o f} : f \in DOMAIN a}
Elements(a, b, what) == IF Len(a) # Len(b) THEN {what \o "s"} ELSE UNION {Fields(a[k], b[k], what \o "-") : k \in 1..Len(a)}
Shows(w) ==
  LET s == Case.snap[w] IN
  Elements(W[w].N, s.N, "scenario-node") \cup Elements(W[w].L, s.L, "scenario-link")
  \cup (IF Random(W[w].D) THEN B(Len(Vehs(W[w].D)) = Len(s.V), "scenario-vehicles") ELSE Elements(Vehs(W[w].D), s.V, "scenario-vehicle"))
(* same definition, same seed (automatic renaming draws random letters): same run *)
Runs == UNION {LET a == Case.drew[w] = Case.drew[1] /\ Case.snap[w].N = Case.snap[1].N /\ Case.snap[w].L = Case.snap[1].L /\ Case.snap[w].V = Case.snap[1].V IN
               B(a => Case.hist[w] = Case.hist[1], "scenario-history") : w \in 1..Len(Case.hist)}
(* rows of a network file *)
Rows == B(Len(Case.rows.N) = Len(Case.snap[1].N) /\ \A k \in 1..Len(Case.rows.N) :
            LET r == Case.rows.N[k] n == Case.snap[1].N[k] IN n.name = r.name /\ n.x = r.x /\ n.y = r.y, "csv-nodes")
   \cup B(Len(Case.rows.L) = Len(Case.snap[1].L) /\ \A k \in 1..Len(Case.rows.L) :
            LET r == Case.rows.L[k] l == Case.snap[1].L[k] IN \A f \in DOMAIN r : l[f] = r[f], "csv-links")

Init == cid \in 1..Len(Cases) /\ i = 1 /\ bad = {} /\ W = [k \in 1..Cases[cid].nw |-> EmptyWorld] /\ F = [k \in 1..3 |-> NOFILE]
Next ==
  \/ i <= Len(Case.Q) /\ Do(Case.Q[i]) /\ bad' = bad \cup B(Case.Q[i].ok = 1, "scenario-" \o Case.Q[i].op) /\ i' = i + 1 /\ UNCHANGED cid
  \/ /\ i = Len(Case.Q) + 1
     /\ bad' = bad \cup (IF bad # {} THEN {} ELSE UNION {Shows(w) : w \in 1..Case.nw} \cup Runs \cup (IF Case.csv THEN Rows ELSE {}))
     /\ PrintT("@@V " \o ToJson([id |-> Case.id, bad |-> bad']))
     /\ i' = i + 1 /\ UNCHANGED <<cid, W, F>>
Spec == Init /\ [][Next]_vars
=============================================================================
