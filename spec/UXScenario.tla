----------------------------- MODULE UXScenario -----------------------------
(***************************************************************************)
(* Scenario files.  A world holds what its user defined: nodes N, links L, *)
(* demand calls D (each with its kind) in the order given.  A file written *)
(* from a world holds the network, the demand calls gathered by kind, or   *)
(* both; loading adds to a world what the file holds and is asked for.     *)
(* An element is any record with a name (nodes, links) or a kind (demand). *)
(***************************************************************************)
EXTENDS UXCore
NOFILE == [net |-> FALSE, dem |-> FALSE, N |-> <<>>, L |-> <<>>, D |-> <<>>]
EmptyWorld == [N |-> <<>>, L |-> <<>>, D |-> <<>>]

RECURSIVE KindsOf(_, _)
(* kinds in the order of their first use *)
KindsOf(D, seen) ==
  IF D = <<>> THEN seen
  ELSE KindsOf(Tail(D), IF \E k \in 1..Len(seen) : seen[k] = Head(D).kind THEN seen ELSE Append(seen, Head(D).kind))
RECURSIVE Gather(_, _)
Gather(D, ks) == IF ks = <<>> THEN <<>> ELSE SelectSeq(D, LAMBDA q : q.kind = Head(ks)) \o Gather(D, Tail(ks))
Group(D) == Gather(D, KindsOf(D, <<>>))

Save(W, net, dem) == [net |-> net, dem |-> dem,
                      N |-> IF net THEN W.N ELSE <<>>, L |-> IF net THEN W.L ELSE <<>>,
                      D |-> IF dem THEN Group(W.D) ELSE <<>>]
NamesIn(s) == {s[k].name : k \in 1..Len(s)}
CanLoad(W, F, net, dem) == /\ net => F.net /\ NamesIn(W.N) \cap NamesIn(F.N) = {} /\ NamesIn(W.L) \cap NamesIn(F.L) = {}
Load(W, F, net, dem) == [N |-> IF net THEN W.N \o F.N ELSE W.N,
                         L |-> IF net THEN W.L \o F.L ELSE W.L,
                         D |-> IF dem THEN W.D \o F.D ELSE W.D]
=============================================================================
