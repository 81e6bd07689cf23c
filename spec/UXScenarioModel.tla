--------------------------- MODULE UXScenarioModel --------------------------
(* Two worlds and two files over a few elements: what a file gives back. *)
EXTENDS UXScenario, TLC
CONSTANTS NodeNames, LinkNames, Kinds, MaxDem
VARIABLES W, F, G, nd
vars == <<W, F, G, nd>>
(* W[1] is defined by calls, W[2] only by loading files; G remembers W[1] as it was when each file was written *)
Init == W = [i \in 1..2 |-> EmptyWorld] /\ F = [i \in 1..2 |-> NOFILE] /\ G = [i \in 1..2 |-> EmptyWorld] /\ nd = 0
AddN == \E n \in NodeNames \ NamesIn(W[1].N) : W' = [W EXCEPT ![1].N = Append(@, [name |-> n])] /\ UNCHANGED <<F, G, nd>>
AddL == \E l \in LinkNames \ NamesIn(W[1].L) : W[1].N # <<>> /\ W' = [W EXCEPT ![1].L = Append(@, [name |-> l])] /\ UNCHANGED <<F, G, nd>>
AddD == /\ nd < MaxDem /\ nd' = nd + 1
        /\ \E k \in Kinds : W' = [W EXCEPT ![1].D = Append(@, [kind |-> k, no |-> nd])] /\ UNCHANGED <<F, G>>
Write == \E i \in 1..2, net \in BOOLEAN, dem \in BOOLEAN : F' = [F EXCEPT ![i] = Save(W[1], net, dem)] /\ G' = [G EXCEPT ![i] = W[1]] /\ UNCHANGED <<W, nd>>
Read == \E i \in 1..2, net \in BOOLEAN, dem \in BOOLEAN : CanLoad(W[2], F[i], net, dem) /\ Len(W[2].D) < MaxDem
           /\ W' = [W EXCEPT ![2] = Load(W[2], F[i], net, dem)] /\ UNCHANGED <<F, G, nd>>
Next == AddN \/ AddL \/ AddD \/ Write \/ Read
Spec == Init /\ [][Next]_vars

Elems(s) == {s[k] : k \in 1..Len(s)}
(* a full file loaded into an empty world gives the world that was saved back, demand gathered by kind *)
RoundTrip == \A i \in 1..2 : (F[i].net /\ F[i].dem) =>
   LET w == Load(EmptyWorld, F[i], TRUE, TRUE) IN
   /\ w.N = G[i].N /\ w.L = G[i].L /\ Elems(w.D) = Elems(G[i].D) /\ Len(w.D) = Len(G[i].D)
   /\ \A k \in Kinds : SelectSeq(w.D, LAMBDA q : q.kind = k) = SelectSeq(G[i].D, LAMBDA q : q.kind = k)
   (* and a second generation changes nothing any more *)
   /\ Load(EmptyWorld, Save(w, TRUE, TRUE), TRUE, TRUE) = w
(* the parts put together are the whole *)
Parts == \A i, j \in 1..2 : (F[i].net /\ F[j].dem /\ G[i] = G[j]) =>
   LET a == Load(Load(EmptyWorld, F[i], TRUE, FALSE), F[j], FALSE, TRUE)
       b == Load(EmptyWorld, Save(G[i], TRUE, TRUE), TRUE, TRUE) IN a = b
Unique == \A w \in 1..2 : Cardinality(NamesIn(W[w].N)) = Len(W[w].N) /\ Cardinality(NamesIn(W[w].L)) = Len(W[w].L)
=============================================================================
