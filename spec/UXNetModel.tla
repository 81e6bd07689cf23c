----------------------------- MODULE UXNetModel -----------------------------
(* Every sequence of construction calls over a few names: the registry stays
   consistent and a rejected call leaves it alone. *)
EXTENDS UXNet, TLC
CONSTANTS NodeNames, LinkNames, VehNames, Fresh, MaxLen
VARIABLES R, last
vars == <<R, last>>
QN == [k : {"node"}, asked : NodeNames, name : NodeNames \cup Fresh, rename : BOOLEAN, x : {0}, y : {0}, sig : {<<0>>}, off : {0}, oldoff : {-1}, fc : {-1}, lanes : {0}, attr : {0}]
QL == [k : {"link"}, asked : LinkNames, name : LinkNames \cup Fresh, rename : BOOLEAN, s : NodeNames \cup {"?"}, e : NodeNames, len : {1}, u : {1}, kappa : {1}, kpl : {-1}, lanes : {1}, prio : {1}, sg : {<<0>>}, attr : {0}]
QV == [k : {"veh"}, asked : VehNames \cup {""}, name : VehNames \cup Fresh, rename : BOOLEAN, o : NodeNames \cup {"?"}, d : NodeNames, dep : {0}, pre : {<<>>}, avo : {<<>>}, attr : {0}]
QR == [k : {"route"}, path : {<<a>> : a \in LinkNames} \cup {<<a, b>> : a \in LinkNames, b \in LinkNames}]
Calls == QN \cup QL \cup QV \cup QR
Init == R = Empty /\ last = TRUE
Call(q) == /\ (q.k # "route" => (Accepts(R, q) => NameOk(Reg(R, q), q)))
           /\ R' = Apply(R, q) /\ last' = Accepts(R, q)
Next == Len(R.N) + Len(R.L) + Len(R.V) < MaxLen /\ \E q \in Calls : Call(q)
Spec == Init /\ [][Next]_vars
Unique(s) == \A a, b \in 1..Len(s) : s[a].name = s[b].name => a = b
UniqueNames == Unique(R.N) /\ Unique(R.L) /\ Unique(R.V)
Connected == /\ \A l \in 1..Len(R.L) : R.L[l].s \in 1..Len(R.N) /\ R.L[l].e \in 1..Len(R.N)
             /\ \A v \in 1..Len(R.V) : R.V[v].o \in 1..Len(R.N) /\ R.V[v].d \in 1..Len(R.N)
Grows == [][/\ \A k \in 1..Len(R.N) : R'.N[k] = R.N[k]
            /\ \A k \in 1..Len(R.L) : R'.L[k] = R.L[k]
            /\ \A k \in 1..Len(R.V) : R'.V[k] = R.V[k]
            /\ ~last' => R' = R]_vars
=============================================================================
