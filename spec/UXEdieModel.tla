----------------------------- MODULE UXEdieModel ----------------------------
(* All short trajectories on a short link, all cell and bin sizes: the grid
   holds exactly the distance and, up to rounding, the time of the completed
   trajectories on the covered part. *)
EXTENDS UXEdieDef, TLC
CONSTANTS Len0, Dx, Edt, MaxT
VARIABLES T, par, st
vars == <<T, par, st>>
Step0 == 2                      \* points are recorded every 2 time units
C == [dt |-> Step0 * 100, dn |-> 2, edt |-> par.edt, tmax |-> MaxT * Step0 * 100]
Ln == [len |-> Len0, u |-> par.u, dx |-> par.dx, T |-> <<T>>]
Init == \E dx \in Dx, e \in Edt, u \in {1, 2}, t0 \in 0..1, x \in 0..2 :
          par = [dx |-> dx, edt |-> e * 100, u |-> u] /\ x <= u * Step0 /\ (x > 0 => t0 > 0) /\ T = <<<<t0 * Step0 * 100, x>>>> /\ st = "open"
Move == \E d \in 0..(par.u * Step0) : st = "open" /\ T[Len(T)][1] < (MaxT - 1) * Step0 * 100 /\ T[Len(T)][2] + d < Len0
          /\ T' = Append(T, <<T[Len(T)][1] + Step0 * 100, T[Len(T)][2] + d>>) /\ UNCHANGED <<par, st>>
Done == st = "open" /\ st' = "done" /\ UNCHANGED <<T, par>>
Next == Move \/ Done
Spec == Init /\ [][Next]_vars
All == Full(C, Ln, T)
G == Grid(C, Ln)
SG == Segs(C, Ln)[1]
Covered == (NX(Ln)) * par.dx
InTime == SelectSeq(SG, LAMBDA g : g.t0 \div par.edt < NT(C))
Dist == Sum([k \in 1..Len(InTime) |-> Over(InTime[k], 0, Covered)])
Conserved == st = "done" => Sum([n \in 1..Len(G) |-> G[n].d]) = 2 * Dist
TimeAll == Sum([k \in 1..Len(InTime) |-> TimeIn(InTime[k], 0, Covered)])
TimeKept == st = "done" => LET t == Sum([n \in 1..Len(G) |-> G[n].t]) IN t <= 2 * TimeAll /\ t >= 2 * TimeAll - 2 * Len(InTime) * (NX(Ln) + 1)
(* a complete passage covers the whole link *)
Complete == (st = "done" /\ T[1][2] <= par.u * Step0 /\ T[Len(T)][2] >= Len0 - par.u * Step0) => (All[1][2] = 0 /\ All[Len(All)][2] = Len0)
=============================================================================
