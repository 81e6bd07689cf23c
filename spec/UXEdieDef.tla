-------------------------------- MODULE UXEdieDef ---------------------------
(***************************************************************************)
(* Aggregate traffic states from vehicle trajectories (Edie).              *)
(* A trajectory is the sequence of recorded points <<t, x>> of one vehicle *)
(* on one link, completed at both ends of the link by free-flow travel.    *)
(* A segment between two points belongs to the time bin in which it        *)
(* starts; distance and time in it are shared among the cells along the    *)
(* link that it crosses.                                                   *)
(* Units: times 1/100 s, positions and lengths cm, speed cm/s.             *)
(***************************************************************************)
EXTENDS UXCore
Sum(S) == SumSeq(S)

(*----- completed trajectories -----*)
Head1(c, l, T) ==
  LET t == T[1][1] x == T[1][2] IN
  IF x > 0 /\ x * 10000 > l.u * c.dt THEN <<<<t - (x * 100) \div l.u, 0>>>> \o T ELSE T
Full(c, l, T) ==
  LET H == Head1(c, l, T) n == Len(H) t == H[n][1] x == H[n][2] r == l.len - x IN
  IF x * 100 >= l.len * 100 - l.u * c.dt /\ x < l.len /\ r * 10000 > l.u * c.dt THEN Append(H, <<t + (r * 100) \div l.u, l.len>>) ELSE H
(* an extrapolated start that is not an exact number and falls next to a bin boundary *)
Unsure(c, l, T) == LET x == T[1][2] t0 == T[1][1] - (x * 100) \div l.u IN
  x > 0 /\ (x * 100) % l.u # 0 /\ (t0 % c.edt) \in {0, 1, c.edt - 1}
Segs(c, l) == LET F == [k \in 1..Len(l.T) |-> Full(c, l, l.T[k])] IN
  [k \in 1..Len(F) |-> [i \in 1..(Len(F[k]) - 1) |-> [t0 |-> F[k][i][1], x0 |-> F[k][i][2], t1 |-> F[k][i + 1][1], x1 |-> F[k][i + 1][2]]]]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
InBin(c, S, i) == SelectSeq(S, LAMBDA g : g.t0 \div c.edt = i)
(* part of a segment inside the cell [a, b) *)
Over(g, a, b) == Max(0, Min(g.x1, b) - Max(g.x0, a))
DistIn(g, a, b) == Over(g, a, b)
TimeIn(g, a, b) == IF g.x1 = g.x0 THEN (IF a <= g.x0 /\ g.x0 < b THEN g.t1 - g.t0 ELSE 0)
                   ELSE (Over(g, a, b) * (g.t1 - g.t0)) \div (g.x1 - g.x0)
Touch(S, a, b) == SelectSeq(S, LAMBDA g : Over(g, a, b) > 0 \/ (g.x1 = g.x0 /\ a <= g.x0 /\ g.x0 < b))

NX(l) == l.len \div l.dx
NT(c) == c.tmax \div c.edt
(* the grid of a link: one record per cell, row by row *)
Grid(c, l) ==
  LET S == Cat(Segs(c, l)) IN
  [n \in 1..(NT(c) * NX(l)) |->
     LET i == (n - 1) \div NX(l) j == (n - 1) % NX(l)
         G == Touch(InBin(c, S, i), j * l.dx, (j + 1) * l.dx)
         m == Len(G)
     IN [i |-> i, j |-> j, n |-> m,
         d |-> c.dn * Sum([k \in 1..m |-> DistIn(G[k], j * l.dx, (j + 1) * l.dx)]),
         t |-> c.dn * Sum([k \in 1..m |-> TimeIn(G[k], j * l.dx, (j + 1) * l.dx)])]]
=============================================================================
