-------------------------------- MODULE UXNet -------------------------------
(***************************************************************************)
(* The registry of a scenario: nodes, links and vehicles as the user       *)
(* describes them one call at a time.  Apply(P, R, q) is the outcome of    *)
(* call q in registry R with world parameters P: either the extended       *)
(* registry or the same one, rejected.                                     *)
(* Units: coordinates and lengths 1/10 m, times 1/10 s, speed 1/10 m/s,    *)
(* density 1/1000 veh/m, node capacity 1/1000 veh/s, link capacity 1/10000.*)
(***************************************************************************)
EXTENDS UXCore
SetOf(s) == {s[k] : k \in 1..Len(s)}
Empty == [N |-> <<>>, L |-> <<>>, V |-> <<>>]
Names(s) == {s[k].name : k \in 1..Len(s)}
NameIdx(s, nm) == IF \E k \in 1..Len(s) : s[k].name = nm THEN CHOOSE k \in 1..Len(s) : s[k].name = nm ELSE 0

(* the name an object gets: the asked one, or with automatic renaming, or without
   an asked name, one nobody has; a renaming shows as a name given by the system *)
NameOk(s, q) == IF q.asked = "" THEN q.name \notin Names(s)
                ELSE IF q.asked \notin Names(s) THEN q.name = q.asked
                ELSE q.rename /\ q.name \notin Names(s)
Free(s, q) == q.asked = "" \/ q.asked \notin Names(s) \/ q.rename

Node(q) == [name |-> q.name, x |-> q.x, y |-> q.y, sig |-> q.sig, off |-> IF q.oldoff # -1 THEN SumSeq(q.sig) - q.oldoff ELSE q.off,
            fc |-> q.fc, lanes |-> IF q.fc = -1 THEN 0 ELSE IF q.lanes # 0 THEN q.lanes ELSE (q.fc + 799) \div 800, attr |-> q.attr]
Kappa(q) == IF q.kpl # -1 THEN q.kpl * q.lanes ELSE q.kappa
Link(R, q) == [name |-> q.name, s |-> NameIdx(R.N, q.s), e |-> NameIdx(R.N, q.e), len |-> q.len, u |-> q.u, kappa |-> Kappa(q), lanes |-> q.lanes,
               prio |-> q.prio, sg |-> q.sg, attr |-> q.attr]
Veh(R, q) == [name |-> q.name, o |-> NameIdx(R.N, q.o), d |-> NameIdx(R.N, q.d), dep |-> q.dep, attr |-> q.attr]

(* preconditions *)
Known(R, q) ==
  CASE q.k = "node" -> TRUE
    [] q.k = "link" -> {q.s, q.e} \subseteq Names(R.N)
    [] q.k = "veh" -> {q.o, q.d} \subseteq Names(R.N) /\ SetOf(q.pre) \cup SetOf(q.avo) \subseteq Names(R.L)
    [] q.k = "demand" -> {q.o, q.d} \subseteq Names(R.N)
    [] q.k = "getnode" -> q.asked \in Names(R.N)
    [] q.k = "getlink" -> q.asked \in Names(R.L)
    [] q.k = "enforce" -> SetOf(q.path) \subseteq Names(R.L)
    [] q.k = "route" -> /\ SetOf(q.path) \subseteq Names(R.L)
                        /\ \A i \in 1..(Len(q.path) - 1) : R.L[NameIdx(R.L, q.path[i])].e = R.L[NameIdx(R.L, q.path[i + 1])].s
Reg(R, q) == CASE q.k = "node" -> R.N [] q.k = "link" -> R.L [] OTHER -> R.V
Accepts(R, q) == Known(R, q) /\ (q.k \in {"node", "link", "veh"} => Free(Reg(R, q), q))
Apply(R, q) ==
  IF ~Accepts(R, q) THEN R
  ELSE CASE q.k = "node" -> [R EXCEPT !.N = Append(@, Node(q))]
         [] q.k = "link" -> [R EXCEPT !.L = Append(@, Link(R, q))]
         [] q.k = "veh" -> [R EXCEPT !.V = Append(@, Veh(R, q))]
         [] q.k = "demand" -> [R EXCEPT !.V = @ \o [i \in 1..Len(q.names) |-> Veh(R, [q EXCEPT !.name = q.names[i]])]]
         [] OTHER -> R

(*----- derived parameters of a link l as reported (record f) in a world P -----*)
Qt == INSTANCE UXQuant
Derived(P, l, q, f) ==
  Qt!Quantities(P.rt10, l, f)
  \cup (IF f.cout = (IF q.cout = -1 THEN 2 * f.cap ELSE q.cout) \/ (q.cout = -1 /\ Abs(f.cout - 2 * f.cap) <= 1) THEN {} ELSE {"net-default-capacity"})
  \cup (IF f.cin = (IF q.cin = -1 THEN 2 * f.cap ELSE q.cin) \/ (q.cin = -1 /\ Abs(f.cin - 2 * f.cap) <= 1) THEN {} ELSE {"net-default-capacity"})
  \cup (IF Abs(f.dx - (IF q.dx # -1 THEN q.dx ELSE Max(l.len \div 10, (l.u * P.dt10) \div 10))) <= 1 THEN {} ELSE {"net-cell-length"})
(* horizon when none is given: two half hours beyond the half hour of the last departure *)
AutoMax(P, R) == LET last == MaxOf({0} \cup {R.V[i].dep * P.dt10 : i \in 1..Len(R.V)}) IN (last \div 18000 + 2) * 18000
(* node capacities when they are to be adjusted: mean of the best link in and the best link out *)
AdjFc(R, F, k) ==
  LET ins == {F[l].cap : l \in {m \in 1..Len(R.L) : R.L[m].e = k}}
      outs == {F[l].cap : l \in {m \in 1..Len(R.L) : R.L[m].s = k}}
  IN IF R.N[k].fc # -1 \/ ins = {} \/ outs = {} THEN R.N[k].fc * 10 ELSE (MaxOf(ins) + MaxOf(outs)) \div 2
=============================================================================
