----------------------------- MODULE UXOsmModel -----------------------------
(* Every way to merge the short links of every small map, again and again:
   the map stays well formed, what was connected stays connected, and in the
   end no short link is left. *)
EXTENDS UXOsm, TLC
CONSTANTS NodeSet, Places, T, MaxLinks, Bidir
VARIABLES N, L, home, L0, round
vars == <<N, L, home, L0, round>>
Link(p) == [name |-> "l", s |-> p[1], e |-> p[2], lanes |-> 1, sp |-> 1]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o ToSeq(S \ {e})
NodeSeq(S, pos) == [k \in 1..Cardinality(S) |-> [id |-> Asc(S)[k], x |-> pos[Asc(S)[k]], y |-> 0]]
Init == /\ \E pos \in [NodeSet -> Places] : N = NodeSeq(NodeSet, pos)
        /\ \E P \in SUBSET (NodeSet \X NodeSet) : /\ Cardinality(P) <= MaxLinks /\ P # {}
                                                  /\ L0 = P
        /\ L = [k \in 1..Cardinality(L0) |-> Link(ToSeq(L0)[k])]
        /\ home = [n \in NodeSet |-> n] /\ round = 0
Merge == \E f \in [Ids(N) -> Ids(N)] :
  /\ Admissible(N, L, T, f) /\ Progress(N, L, T, f)
  /\ LET S == Both(NoLoop(Image(L, f)), Bidir)
         U == {k \in 1..Len(N) : N[k].id \in UsedBy(S)}
     IN /\ L' = [k \in 1..Cardinality(S) |-> Link(ToSeq(S)[k])]
        /\ N' = [k \in 1..Cardinality(U) |-> N[Asc(U)[k]]]
  /\ home' = [n \in NodeSet |-> IF home[n] \in Ids(N) THEN f[home[n]] ELSE home[n]]
  /\ round' = round + 1 /\ UNCHANGED L0
Next == round < Cardinality(NodeSet) /\ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Reach(_, _, _)
Reach(P, S, k) == IF k = 0 THEN S ELSE Reach(P, S \cup {p[2] : p \in {q \in P : q[1] \in S}}, k - 1)
Formed == round > 0 => /\ Ids(N) = UsedBy(Pairs(L)) /\ \A p \in Pairs(L) : p[1] # p[2]
Closed == UsedBy(Pairs(L)) \subseteq Ids(N)
Connected == \A p \in L0 : home[p[2]] \in Reach(Pairs(L), {home[p[1]]}, Cardinality(NodeSet))
Reverse == (Bidir /\ round > 0) => \A p \in Pairs(L) : <<p[2], p[1]>> \in Pairs(L)
Done == round = Cardinality(NodeSet) => \A l \in SetOf(L) : ~Short(N, T, l)
Agrees == [][LET N2 == N'
                 L2 == L'
             IN WellFormed(N, N2, L2) /\ \E f \in Witness(N, L, T, N2) : MapOk(N, L, T, Bidir, L2, f)]_vars
=============================================================================
