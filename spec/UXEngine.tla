------------------------------ MODULE UXEngine ------------------------------
(***************************************************************************)
(* The engine's state and the effect of each critical section on it,       *)
(* parameterised by a configuration cfg (network, vehicles, parameters).   *)
(* UXModel drives these operators nondeterministically; UXTrace drives     *)
(* them with recorded executions.                                          *)
(***************************************************************************)
EXTENDS UXCore
VARIABLE cfg
C == cfg
NL == Len(C.L)
NN == Len(C.N)
NV == Len(C.V)
M6 == 1000000
OnePl == C.DN * M6

(* ---------------------------------------------------------------------- *)
InitW(c) ==
  LET nl == Len(c.L) nn == Len(c.N) nv == Len(c.V) IN
  [ lp |-> [l \in 1..nl |-> c.L[l]],
    np |-> [n \in 1..nn |-> c.N[n]],
    st |-> [v \in 1..nv |-> Home], ln |-> [v \in 1..nv |-> 0],
    x |-> [v \in 1..nv |-> 0], xo |-> [v \in 1..nv |-> 0], v |-> [v \in 1..nv |-> 0],
    lane |-> [v \in 1..nv |-> 0], mr |-> [v \in 1..nv |-> 0],
    nx |-> [v \in 1..nv |-> 0],
    at |-> [v \in 1..nv |-> 0], cnt |-> [v \in 1..nv |-> 0], vis |-> [v \in 1..nv |-> {}],
    hist |-> [v \in 1..nv |-> <<>>], endt |-> [v \in 1..nv |-> -1],
    pre |-> [v \in 1..nv |-> c.V[v].pre], avo |-> [v \in 1..nv |-> c.V[v].avo],
    spec |-> [v \in 1..nv |-> c.V[v].spec], dest |-> [v \in 1..nv |-> c.V[v].d],
    q |-> [l \in 1..nl |-> <<>>], gq |-> [n \in 1..nn |-> <<>>],
    ca |-> [l \in 1..nl |-> 0], cd |-> [l \in 1..nl |-> 0],
    cor |-> [l \in 1..nl |-> [lo |-> c.L[l].cor0, hi |-> c.L[l].cor0]],
    cir |-> [l \in 1..nl |-> [lo |-> c.L[l].cir0, hi |-> c.L[l].cir0]],
    fr |-> [n \in 1..nn |-> [lo |-> c.N[n].fr0, hi |-> c.N[n].fr0]],
    ph |-> [n \in 1..nn |-> SigInit(c.N[n].sig, c.N[n].off).ph],
    sgt |-> [n \in 1..nn |-> SigInit(c.N[n].sig, c.N[n].off).t],
    tti |-> [l \in 1..nl |-> 0], toll |-> [l \in 1..nl |-> c.L[l].toll],
    wend |-> {}, inc |-> {},
    exits |-> [l \in 1..nl |-> <<>>],
    pref |-> [n \in 1..nn |-> [l \in 1..nl |-> 0]],
    seen |-> {}, nxt |-> <<>>, log |-> <<>> ]


(* user interventions between two steps *)
RECURSIVE Events(_, _)
Events(w0, evs) ==
  IF evs = <<>> THEN w0
  ELSE LET e == Head(evs)
           w1 == CASE e.k = "link" ->
                     [w0 EXCEPT !.lp[e.l] = e.p,
                                \* a bucket that was unlimited holds an unknown stock when a limit is set
                                !.cir[e.l] = IF w0.lp[e.l].cin >= CAPINF /\ e.p.cin < CAPINF
                                             THEN [lo |-> 0, hi |-> e.p.hib] ELSE @,
                                !.cor[e.l] = IF w0.lp[e.l].cout >= CAPINF /\ e.p.cout < CAPINF
                                             THEN [lo |-> 0, hi |-> e.p.hib] ELSE @]
                   [] e.k = "toll" -> [w0 EXCEPT !.toll[e.l] = e.toll]
                   [] e.k = "sig"  -> [w0 EXCEPT !.np[e.n].sig = e.sig,
                                                 \* a phase that no longer exists is replaced by the first one
                                                 !.ph[e.n] = IF e.reset \/ @ >= Len(e.sig) THEN 0 ELSE @,
                                                 !.sgt[e.n] = IF e.reset \/ w0.ph[e.n] >= Len(e.sig) THEN 0 ELSE @]
                   [] e.k = "grp"  -> [w0 EXCEPT !.lp[e.l].sg = e.sg]
                   [] e.k = "prio" -> [w0 EXCEPT !.lp[e.l].prio = e.prio]
                   [] e.k = "node" -> [w0 EXCEPT !.np[e.n].fc = e.fc]
                   [] e.k = "route" -> [w0 EXCEPT !.spec[e.v] = e.spec, !.pre[e.v] = e.spec]
                   [] e.k = "prefer" -> [w0 EXCEPT !.pre[e.v] = e.s]
                   [] e.k = "avoid" -> [w0 EXCEPT !.avo[e.v] = e.s]
                   [] OTHER -> w0
       IN Events(w1, Tail(evs))


TravelTimeMs(w0, l) ==     \* length over mean speed (in m, s), which is at least 1% of the free speed
  LET q == w0.q[l] n == Len(q)
      sv == SumSeq([k \in 1..n |-> w0.v[q[k]]])     \* mm/s
      p == w0.lp[l]
      num == p.len * n
  IN IF n = 0 THEN (p.len \div (p.u * 100)) * 1000 + ((p.len % (p.u * 100)) * 1000) \div (p.u * 100)
     ELSE IF sv <= p.u * n THEN (p.len \div p.u) * 1000 + ((p.len % p.u) * 1000) \div p.u
     ELSE (num \div sv) * 1000 + ((num % sv) * 1000) \div sv
TtTol(w0, l) ==            \* speeds are known up to 0.5 mm/s each
  LET q == w0.q[l] n == Len(q)
      sv == SumSeq([k \in 1..n |-> w0.v[q[k]]])
  IN IF n = 0 THEN 2 ELSE 2 + TravelTimeMs(w0, l) \div Max(Max(1, w0.lp[l].u), sv \div n)

PrefOf(w0, v) == w0.pref[w0.dest[v]]
PermittedFor(w0, v, n) ==
  Permitted(w0.np[n].out, [spec |-> w0.spec[v], pre |-> w0.pre[v], avo |-> w0.avo[v]],
            w0.cnt[v], w0.vis[v], [l \in 1..NL |-> w0.lp[l].e], C.cyc)
MayChoose(w0, v, n) ==
  LET S == PermittedFor(w0, v, n) IN
  IF Len(w0.spec[v]) > 0 \/ S = {} THEN S
  ELSE IF C.det THEN MostPreferred(S, PrefOf(w0, v), C.tolp)
       ELSE Choosable(S, PrefOf(w0, v), C.tolp)

AcceptMust(w0, l) == LET p == w0.lp[l] IN
  SpaceMust(w0.q[l], w0.x, p.lanes, p.gap, C.tolx) /\ Must(w0.cir[l], OnePl, C.tolc)
AcceptMay(w0, l) == LET p == w0.lp[l] IN
  SpaceMay(w0.q[l], w0.x, p.lanes, p.gap, C.tolx) /\ May(w0.cir[l], OnePl, C.tolc)


Enter(w0, v, l, T, xe, ve) ==
  [w0 EXCEPT !.st[v] = Run, !.ln[v] = l, !.x[v] = xe, !.v[v] = ve, !.mr[v] = 0,
             !.lane[v] = EntryLane(w0.q[l], w0.lane, w0.lp[l].lanes),
             !.q[l] = Append(@, v), !.ca[l] = @ + C.DN, !.cir[l] = Spend(@, OnePl),
             !.at[v] = T, !.cnt[v] = @ + 1, !.vis[v] = @ \cup {w0.lp[l].s},
             !.hist[v] = Append(@, <<T, l>>)]


Candidates(w0, s, n, o, must) ==
  {v \in s.inc : /\ w0.nx[v] = o
                 /\ s.q[w0.ln[v]] # <<>> /\ Head(s.q[w0.ln[v]]) = v
                 /\ Green(w0.np[n].sig, w0.ph[n], w0.lp[w0.ln[v]].sg)
                 /\ IF must THEN Must(s.cor[w0.ln[v]], OnePl, C.tolc)
                            ELSE May(s.cor[w0.ln[v]], OnePl, C.tolc)}
Prio(w0, v) == w0.lp[w0.ln[v]].prio
Winners(w0, S) ==      \* who may win the merge among S
  IF \A v \in S : Prio(w0, v) = 0 THEN IF C.det THEN {MinOf(S)} ELSE S
  ELSE IF C.det THEN {MinOf({v \in S : \A u \in S : Prio(w0, v) >= Prio(w0, u)})}
  ELSE {v \in S : Prio(w0, v) > 0}

PopWaiting(q, wend) == IF q # <<>> /\ Head(q) \in wend THEN Tail(q) ELSE q

MoveOne(w0, s, n, v, o) ==
  LET a == w0.ln[v]
      pa == w0.lp[a]  po == w0.lp[o]
      ld == EntryLeader(s.q[o], po.lanes)
      xe == EntryX(w0.mr[v], pa.u, po.u, po.udt, ld, w0.xo, po.gap, po.len)
  IN [s EXCEPT !.q = [@ EXCEPT ![a] = PopWaiting(Tail(@), w0.wend), ![o] = Append(@, v)],
               !.x = [@ EXCEPT ![v] = xe],
               !.cor = [@ EXCEPT ![a] = Spend(@, OnePl)],
               !.cir = [@ EXCEPT ![o] = Spend(@, OnePl)],
               !.fr = Spend(@, OnePl),
               !.inc = @ \ {v},
               !.ex = [@ EXCEPT ![o] = Tail(@)],
               !.att = [@ EXCEPT ![o] = @ - 1]]


(* vehicle v crosses node n from its link into link l *)
CrossNode(w0, n, v, l, T) ==
  LET a == w0.ln[v]
      pa == w0.lp[a]  pl == w0.lp[l]
      ld == EntryLeader(w0.q[l], pl.lanes)
      xe == EntryX(w0.mr[v], pa.u, pl.u, pl.udt, ld, w0.xo, pl.gap, pl.len)
  IN [Enter(w0, v, l, T, xe, w0.v[v] + (xe * 1000) \div C.DT)
        EXCEPT !.q[a] = Keep(@, Rng(@) \ {v}),
               !.cd[a] = @ + C.DN, !.cor[a] = Spend(@, OnePl),
               !.fr[n] = IF w0.np[n].fc < 0 THEN @ ELSE Spend(@, OnePl),
               !.exits[a] = Append(@, <<w0.at[v], T - w0.at[v]>>),
               !.inc = @ \ {v}]

(* where every running vehicle gets to in one step, all at once *)
Movement(w0) ==
  LET running == {v \in 1..NV : w0.st[v] = Run}
      pos == [v \in running |-> IndexOf(w0.q[w0.ln[v]], v)]
      ldx == [v \in running |->
               LET l == LeaderAt(w0.q[w0.ln[v]], pos[v], w0.lp[w0.ln[v]].lanes)
               IN IF l = 0 THEN -1 ELSE w0.x[l]]
      P(v) == w0.lp[w0.ln[v]]
  IN [running |-> running, pos |-> pos,
      xn |-> [v \in running |-> NextX(w0.x[v], P(v).udt, ldx[v], P(v).gap, P(v).len)],
      lf |-> [v \in running |-> Leftover(w0.x[v], P(v).udt, ldx[v], P(v).gap, P(v).len)]]
TripOver(w0, v) ==
  LET e == w0.lp[w0.ln[v]].e IN e = w0.dest[v] \/ (Len(w0.np[e].out) = 0 /\ C.V[v].ab = 1)

(* end the trips of waiting vehicles that have come to the head *)
RECURSIVE WaitingPrefix(_, _)
WaitingPrefix(q, wend) == IF q # <<>> /\ Head(q) \in wend THEN <<Head(q)>> \o WaitingPrefix(Tail(q), wend) ELSE <<>>
EndTrip(w0, v, T) ==
  LET a == w0.ln[v]
      ab == w0.lp[a].e # w0.dest[v]
  IN [w0 EXCEPT !.st[v] = IF ab THEN Abort ELSE End, !.ln[v] = 0, !.x[v] = 0,
                !.q[a] = Keep(@, Rng(@) \ {v}), !.cd[a] = @ + C.DN,
                !.exits[a] = Append(@, <<w0.at[v], T + 1 - w0.at[v]>>),
                !.endt[v] = T, !.wend = @ \ {v},
                !.hist[v] = IF ab THEN @ ELSE Append(@, <<T, -1>>)]
RECURSIVE EndAll(_, _, _)
EndAll(w0, vs, T) == IF vs = <<>> THEN w0 ELSE EndAll(EndTrip(w0, Head(vs), T), Tail(vs), T)


INF == 1000000000
Cost(w0, l) == w0.tti[l] + w0.toll[l]
AdjFn(w0) ==
  LET es == {<<w0.lp[l].s, w0.lp[l].e>> : l \in 1..NL} IN
  [e \in es |->
     \* parallel links count with their average; closed ones do not count
     LET ls == {l \in 1..NL : w0.lp[l].s = e[1] /\ w0.lp[l].e = e[2] /\ ~w0.lp[l].closed} IN
     IF ls = {} THEN INF
     ELSE SumF([l \in ls |-> Cost(w0, l)], ls) \div Cardinality(ls)]
RECURSIVE Relax(_, _, _)
Relax(d, adj, k) ==
  IF k = 0 THEN d
  ELSE LET d1 == [p \in DOMAIN d |->
             IF p[1] = p[2] THEN 0
             ELSE LET cs == {adj[e] + d[<<e[2], p[2]>>] : e \in {f \in DOMAIN adj : f[1] = p[1]}}
                  IN Min(INF, IF cs = {} THEN INF ELSE MinOf(cs))]
       IN IF d1 = d THEN d ELSE Relax(d1, adj, k - 1)
ShortestPaths(adj) ==
  Relax([p \in (1..NN) \X (1..NN) |-> IF p[1] = p[2] THEN 0 ELSE INF], adj, NN)
Slack(d) == IF C.noise = 0 THEN 0 ELSE (d \div 10000) * C.noise + C.noise

RECURSIVE Overwrite(_, _, _)
Overwrite(arr, ex, n) ==     \* ex: <<entry step, travel time in steps>> in order of exit
  IF ex = <<>> THEN arr
  ELSE LET e == Head(ex) IN
       Overwrite([k \in 1..n |-> IF k - 1 >= e[1] THEN e[2] * C.DT ELSE arr[k]], Tail(ex), n)
=============================================================================
