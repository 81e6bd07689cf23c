------------------------------- MODULE UXModel ------------------------------
(***************************************************************************)
(* The design: every behaviour of the engine's state machine on small      *)
(* networks, over all configurations in a file and all of the engine's     *)
(* nondeterministic choices (route lottery, merge lottery, order of        *)
(* admission attempts).  The invariants state the user-level properties    *)
(* without reference to the laws that implement them.                      *)
(* In hard deterministic configurations the behaviour is unique; it is     *)
(* then printed for replay in the real engines.                            *)
(***************************************************************************)
EXTENDS UXEngine, TLC, Json, IOUtils

Cfgs == JsonDeserialize(IOEnv.UX_CFGS)
Emit == IOEnv.UX_EMIT = "1"

VARIABLES tid, pc, n, T, w, att, h, pre
vars == <<cfg, tid, pc, n, T, w, att, h, pre>>
(* h: history for the window properties and for replay:                     *)
(*   ca, cd, cn: curves after every step;  obs: projections;  amb: a tie    *)
(* pre: the world when the current step began                               *)

Steps == C.steps

Init == /\ tid \in 1..Len(Cfgs) /\ cfg = Cfgs[tid] /\ w = InitW(Cfgs[tid])
        /\ pc = "begin" /\ n = 1 /\ T = 0 /\ att = <<>> /\ pre = <<>>
        /\ h = [ca |-> <<>>, cd |-> <<>>, cn |-> <<>>, obs |-> <<>>, amb |-> FALSE]

LinkAdvance(w0) ==
  [w0 EXCEPT !.cor = [l \in 1..NL |-> Refill(w0.cor[l], w0.lp[l].cout, OnePl * w0.lp[l].lanes, 0)],
             !.cir = [l \in 1..NL |-> Refill(w0.cir[l], w0.lp[l].cin, OnePl * w0.lp[l].lanes, 0)],
             !.tti = IF T % C.ttint = 0 THEN [l \in 1..NL |-> TravelTimeMs(w0, l)] ELSE w0.tti]

Begin == /\ pc = "begin" /\ T < Steps
         /\ pre' = w
         /\ w' = LinkAdvance(w) /\ pc' = "gen" /\ n' = 1
         /\ att' = <<>>
         /\ UNCHANGED <<cfg, tid, T, h>>

(* a vehicle departs from the origin queue of node n *)
Tries == SumSeq([k \in 1..Len(w.np[n].out) |-> w.lp[w.np[n].out[k]].lanes])
First(S) == CHOOSE l \in S : \A m \in S : IndexOf(w.np[n].out, l) <= IndexOf(w.np[n].out, m)
Choices(v, nd) == LET S == MayChoose(w, v, nd) IN
  IF C.det /\ S # {} THEN {CHOOSE l \in S : \A m \in S : IndexOf(w.np[nd].out, l) <= IndexOf(w.np[nd].out, m)} ELSE S
GenTry == /\ pc = "gen" /\ n <= NN
          /\ w.gq[n] # <<>> /\ Len(att) < Tries
          /\ \E l \in Choices(Head(w.gq[n]), n) :
               IF AcceptMust(w, l)
               THEN /\ w' = [Enter(w, Head(w.gq[n]), l, T, 0, w.lp[l].u * 100) EXCEPT !.gq[n] = Tail(@)]
                    /\ att' = Append(att, l) /\ n' = n
               ELSE /\ w' = w /\ att' = <<>> /\ n' = n + 1
          /\ UNCHANGED <<cfg, tid, pc, T, h, pre>>
GenNext == /\ pc = "gen" /\ n <= NN /\ (w.gq[n] = <<>> \/ Len(att) >= Tries)
           /\ n' = n + 1 /\ att' = <<>>
           /\ UNCHANGED <<cfg, tid, pc, T, w, h, pre>>

Nodes == /\ pc = "gen" /\ n > NN
         /\ LET nx == [k \in 1..NN |-> IF Len(w.np[k].sig) <= 1 THEN [ph |-> 0, t |-> 0]
                                       ELSE SigNext(w.np[k].sig, w.ph[k], w.sgt[k], C.DT)]
            IN w' = [w EXCEPT !.ph = [k \in 1..NN |-> nx[k].ph], !.sgt = [k \in 1..NN |-> nx[k].t],
                              !.fr = [k \in 1..NN |-> IF w.np[k].fc < 0 THEN [lo |-> CAPMAX, hi |-> CAPMAX]
                                                      ELSE Refill(w.fr[k], w.np[k].fc, OnePl * w.np[k].lanes, 0)]]
         /\ pc' = "xfer" /\ n' = 1 /\ att' = <<>>
         /\ UNCHANGED <<cfg, tid, T, h, pre>>

(* admission attempts at node n: one per lane of every requested link *)
Incn == {v \in w.inc : w.ln[v] \in Rng(w.np[n].in)}
Reqs == {w.nx[v] : v \in {u \in Incn : w.nx[u] # 0}}
XferOpen == /\ pc = "xfer" /\ n <= NN /\ att = <<>> /\ Reqs # {}
            /\ att' = [l \in Reqs |-> [left |-> w.lp[l].lanes, ord |-> MinOf({v \in Incn : w.nx[v] = l})]]
            /\ UNCHANGED <<cfg, tid, pc, n, T, w, h, pre>>
PopEnded(w0, a) == IF w0.q[a] # <<>> /\ Head(w0.q[a]) \in w0.wend THEN EndTrip(w0, Head(w0.q[a]), T) ELSE w0
XferTry == /\ pc = "xfer" /\ n <= NN /\ att # <<>> /\ \E l \in DOMAIN att : att[l].left > 0
           /\ LET open == {l \in DOMAIN att : att[l].left > 0}
                  pick == IF C.det THEN {CHOOSE l \in open : \A m \in open : att[l].ord <= att[m].ord} ELSE open
              IN \E l \in pick :
                   LET cand == Candidates(w, [q |-> w.q, cor |-> w.cor, inc |-> Incn], n, l, TRUE)
                       can == AcceptMust(w, l) /\ Must(w.fr[n], OnePl, 0)
                   IN /\ att' = [att EXCEPT ![l].left = @ - 1]
                      /\ IF can /\ cand # {}
                         THEN \E v \in Winners(w, cand) :
                                w' = PopEnded(CrossNode(w, n, v, l, T), w.ln[v])
                         ELSE w' = w
           /\ UNCHANGED <<cfg, tid, pc, n, T, h, pre>>
RECURSIVE EndHeads(_, _)
EndHeads(w0, S) == IF S = {} THEN w0
                   ELSE LET a == MinOf(S) IN EndHeads(EndAll(w0, WaitingPrefix(w0.q[a], w0.wend), T), S \ {a})
XferClose == /\ pc = "xfer" /\ n <= NN
             /\ (IF att = <<>> THEN Reqs = {} ELSE \A l \in DOMAIN att : att[l].left = 0)
             /\ w' = EndHeads(w, Rng(w.np[n].in))
             /\ n' = n + 1 /\ att' = <<>>
             /\ UNCHANGED <<cfg, tid, pc, T, h, pre>>

(* everybody moves at once; then trips end and next links are requested *)
RECURSIVE EndMoved(_, _)
EndMoved(w0, l) ==     \* heads that have arrived leave the link, in queue order
  IF w0.q[l] # <<>> /\ Head(w0.q[l]) \in w0.wend THEN EndMoved(EndTrip(w0, Head(w0.q[l]), T), l) ELSE w0
RECURSIVE EndLinks(_, _)
EndLinks(w0, l) == IF l > NL THEN w0 ELSE EndLinks(EndMoved(w0, l), l + 1)
Moved(w0) ==
  LET M == Movement(w0)
      R == M.running
      atend(v) == v \in R /\ M.xn[v] >= w0.lp[w0.ln[v]].len
      w1 == [w0 EXCEPT !.xo = [v \in 1..NV |-> IF v \in R THEN w0.x[v] ELSE @[v]],
                       !.x = [v \in 1..NV |-> IF v \in R THEN M.xn[v] ELSE @[v]],
                       !.v = [v \in 1..NV |-> IF v \in R THEN ((M.xn[v] - w0.x[v]) * 1000) \div C.DT ELSE @[v]],
                       !.mr = [v \in 1..NV |-> IF v \in R /\ M.lf[v] > 0 THEN M.lf[v] ELSE @[v]],
                       !.wend = {v \in R : atend(v) /\ TripOver(w0, v)},
                       !.inc = {v \in R : atend(v) /\ ~TripOver(w0, v)}]
  IN EndLinks(w1, 1)
Move == /\ pc = "xfer" /\ n > NN
        /\ w' = Moved(w) /\ pc' = "req" /\ n' = 0 /\ att' = <<>>
        /\ UNCHANGED <<cfg, tid, T, h, pre>>

(* next-link requests, vehicle by vehicle (n: the last one served) *)
Request == /\ pc = "req"
           /\ LET S == {v \in w.inc : v > n} IN
              /\ S # {}
              /\ LET v == MinOf(S)
                     nd == w.lp[w.ln[v]].e
                     ch == Choices(v, nd)
                 IN /\ n' = v
                    /\ IF ch = {} THEN w' = [w EXCEPT !.nx[v] = 0]
                       ELSE \E l \in ch : w' = [w EXCEPT !.nx[v] = l]
           /\ UNCHANGED <<cfg, tid, pc, T, att, h, pre>>

Depart(w0) ==
  LET due == {v \in 1..NV : w0.st[v] = Home /\ T >= C.V[v].dep}
  IN [w0 EXCEPT !.st = [v \in 1..NV |-> IF v \in due THEN Wait ELSE @[v]],
                !.gq = [k \in 1..NN |-> @[k] \o Asc({v \in due : C.V[v].o = k})]]
(* one route update; ties in the search are resolved arbitrarily *)
NextHop(adj, D, i, j) ==
  IF i = j \/ D[<<i, j>>] >= INF THEN 0
  ELSE CHOOSE k \in 1..NN : <<i, k>> \in DOMAIN adj /\ adj[<<i, k>>] + D[<<k, j>>] = D[<<i, j>>]
Tie(adj, D) == \E i \in 1..NN, j \in 1..NN :
  i # j /\ D[<<i, j>>] < INF /\
  Cardinality({k \in 1..NN : <<i, k>> \in DOMAIN adj /\ adj[<<i, k>>] + D[<<k, j>>] <= D[<<i, j>>] + 20}) > 1
Routed(w0) ==
  LET srch == T % C.rint = 0
      adj == AdjFn(w0)
      D == ShortestPaths(adj)
      nxt == IF srch THEN [i \in 1..NN |-> [j \in 1..NN |-> NextHop(adj, D, i, j)]] ELSE w0.nxt
      wt(k) == IF SumSeq(w0.pref[k]) = 0 THEN 10000 ELSE C.W
  IN IF ~(srch \/ C.grad) THEN w0
     ELSE [w0 EXCEPT !.nxt = nxt,
                     !.pref = [k \in 1..NN |-> [l \in 1..NL |->
                         ((10000 - wt(k)) * w0.pref[k][l]) \div 10000
                         + (IF nxt[w0.lp[l].s][k] = w0.lp[l].e /\ ~w0.lp[l].closed THEN wt(k) ELSE 0)]]]
Project(w0) == [st |-> w0.st, ln |-> w0.ln, x |-> [v \in 1..NV |-> IF w0.st[v] = Run THEN w0.x[v] ELSE 0],
                lane |-> [v \in 1..NV |-> IF w0.st[v] = Run THEN w0.lane[v] ELSE 0],
                q |-> w0.q, gq |-> w0.gq, ca |-> w0.ca, cd |-> w0.cd, ph |-> w0.ph]
Finish == /\ pc = "req" /\ {v \in w.inc : v > n} = {}
          /\ LET w1 == Routed(Depart(w)) IN
             /\ w' = w1
             /\ h' = [ca |-> Append(h.ca, w1.ca), cd |-> Append(h.cd, w1.cd), cn |-> <<>>,
                      obs |-> IF Emit THEN Append(h.obs, Project(w1)) ELSE <<>>,
                      amb |-> h.amb \/ (Emit /\ T % C.rint = 0 /\ Tie(AdjFn(w), ShortestPaths(AdjFn(w))))]
             /\ IF Emit /\ T + 1 = Steps
                THEN PrintT("@@V " \o ToJson([id |-> C.id, amb |-> h'.amb, obs |-> h'.obs, hist |-> w1.hist,
                                               endt |-> w1.endt]))
                ELSE TRUE
          /\ pc' = "begin" /\ n' = 1 /\ T' = T + 1 /\ att' = <<>> /\ pre' = <<>>
          /\ UNCHANGED <<cfg, tid>>
Done == pc = "begin" /\ T = Steps /\ UNCHANGED vars

Next == Begin \/ GenTry \/ GenNext \/ Nodes \/ XferOpen \/ XferTry \/ XferClose \/ Move \/ Request \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<tid, pc, n, T, w, att, h.ca, h.cd>>

-----------------------------------------------------------------------------
(* C01 *)
OnLink(v) == {l \in 1..NL : v \in Rng(w.q[l])}
Queued(v) == {k \in 1..NN : v \in Rng(w.gq[k])}
Conservation ==
  /\ \A v \in 1..NV : CASE w.st[v] = Home -> OnLink(v) = {} /\ Queued(v) = {}
                        [] w.st[v] = Wait -> OnLink(v) = {} /\ Queued(v) = {C.V[v].o}
                        [] w.st[v] = Run  -> OnLink(v) = {w.ln[v]} /\ Queued(v) = {}
                        [] OTHER          -> OnLink(v) = {} /\ Queued(v) = {}
  /\ \A l \in 1..NL : w.ca[l] - w.cd[l] = C.DN * Len(w.q[l])
  /\ SumSeq([l \in 1..NL |-> Len(w.q[l])]) = Cardinality({v \in 1..NV : w.st[v] = Run})
LifeCycle == [][\A v \in 1..NV : w'.st[v] >= w.st[v] /\ (w.st[v] = End => w'.st[v] = End)
                                 /\ ~(w.st[v] = Home /\ w'.st[v] > Wait)]_vars
DepartOnTime == \A v \in 1..NV : (pc = "begin" /\ T > 0) => ((w.st[v] = Home) <=> (T - 1 < C.V[v].dep))
Monotone == [][\A l \in 1..NL : w'.ca[l] >= w.ca[l] /\ w'.cd[l] >= w.cd[l]]_vars
(* C02 *)
Spaced == \A l \in 1..NL : \A k \in 1..Len(w.q[l]) :
  /\ 0 <= w.x[w.q[l][k]] /\ w.x[w.q[l][k]] <= w.lp[l].len
  /\ k <= w.lp[l].lanes \/ (/\ w.x[w.q[l][k - w.lp[l].lanes]] - w.x[w.q[l][k]] >= w.lp[l].gap
                            /\ w.lane[w.q[l][k - w.lp[l].lanes]] = w.lane[w.q[l][k]])
Fifo == \A l \in 1..NL : \A k \in 1..(Len(w.exits[l]) - 1) : w.exits[l][k][1] <= w.exits[l][k + 1][1]
NoOvertake == \A l \in 1..NL : \A k \in 1..(Len(w.q[l]) - 1) : w.at[w.q[l][k]] <= w.at[w.q[l][k + 1]]
SpeedRange == \A v \in 1..NV : (pc = "begin" /\ w.st[v] = Run) => (0 <= w.v[v] /\ w.v[v] <= w.lp[w.ln[v]].u * 100)
(* C03 *)
FreeIfAlone == [][(pc = "xfer" /\ pc' = "req") =>
                  \A l \in 1..NL : w.q[l] # <<>> =>
                     LET v == Head(w.q[l]) IN
                     w'.ln[v] = l => w'.x[v] = Min(w.x[v] + w.lp[l].udt, w.lp[l].len)]_vars
NeverBack == [][\A v \in 1..NV : (w.st[v] = Run /\ w'.st[v] = Run /\ w.ln[v] = w'.ln[v]) =>
                   (w'.x[v] >= w.x[v] /\ w'.x[v] - w.x[v] <= w.lp[w.ln[v]].udt)]_vars
(* C04: every window of the curves, plus the burst allowance *)
Burst(cap, lanes) == OnePl * lanes + cap
Windows == pc = "begin" => \A l \in 1..NL :
  \* (the end of a trip is not flow out of the link into the network)
  /\ ((w.lp[l].cout < CAPINF /\ \A v \in 1..NV : C.V[v].d # w.lp[l].e) => \A a \in 1..T :
       (w.cd[l] - h.cd[a][l]) * M6 <= w.lp[l].cout * (T - a) + Burst(w.lp[l].cout, w.lp[l].lanes))
  /\ (w.lp[l].cin < CAPINF => \A a \in 1..T :
       (w.ca[l] - h.ca[a][l]) * M6 <= w.lp[l].cin * (T - a) + Burst(w.lp[l].cin, w.lp[l].lanes))
Closed == \A l \in 1..NL : (w.lp[l].cin = 0 /\ w.lp[l].cir0 = 0) => w.ca[l] = 0
NodeWindow == (pc = "begin" /\ T > 0) => \A k \in {j \in 1..NN : w.np[j].fc >= 0} :
  \* through traffic of a node without destinations or origins: curves of its inlinks
  (\A v \in 1..NV : C.V[v].d # k) =>
   SumSeq([j \in 1..Len(w.np[k].in) |-> w.cd[w.np[k].in[j]] - h.cd[1][w.np[k].in[j]]]) * M6
     <= w.np[k].fc * T + Burst(w.np[k].fc, w.np[k].lanes)
(* C05 *)
Storage == \A l \in 1..NL : Len(w.q[l]) <= w.lp[l].lanes * (w.lp[l].len \div w.lp[l].gap + 1)
OriginFifo == \A k \in 1..NN : \A a, b \in 1..Len(w.gq[k]) :
  a < b => C.V[w.gq[k][a]].dep <= C.V[w.gq[k][b]].dep
(* C06: closed form of the plan, independent of the stepwise law.  A phase  *)
(* whose duration is g steps of width DT holds for floor(g/DT)+1 steps.     *)
GreenOnly == [][\A v \in 1..NV : (pc = "xfer" /\ w.st[v] = Run /\ w'.st[v] = Run /\ w'.ln[v] # w.ln[v]) =>
                 LET e == w.lp[w.ln[v]].e IN Len(w.np[e].sig) <= 1 \/ w.ph[e] \in Rng(w.lp[w.ln[v]].sg)]_vars
Hold(k, p) == w.np[k].sig[p + 1] \div C.DT + 1
RECURSIVE PhaseAt(_, _, _)
PhaseAt(k, p, s) == IF s < Hold(k, p) THEN p ELSE PhaseAt(k, (p + 1) % Len(w.np[k].sig), s - Hold(k, p))
PlanKept == (pc = "xfer") => \A k \in 1..NN : (Len(w.np[k].sig) > 1 /\ w.np[k].off = 0) =>
              w.ph[k] = PhaseAt(k, 0, T)
(* C07 *)
Idle(k, l) ==    \* l accepts, node and some head with green and capacity requests it
  /\ AcceptMust(w, l) /\ Must(w.fr[k], OnePl, 0)
  \* (a vehicle that came to the head only during this step may have missed its turn)
  /\ \E v \in Candidates(w, [q |-> w.q, cor |-> w.cor, inc |-> w.inc], k, l, TRUE) :
        Head(pre.q[w.ln[v]]) = v
WorkConserving == [][(pc = "xfer" /\ n' = n + 1 /\ att # <<>>) =>
                      \A l \in DOMAIN att : w.ca[l] > pre.ca[l] \/ ~Idle(n, l)]_vars
PriorityKept == [][(pc = "xfer" /\ n' = n) => \A v \in 1..NV : (w.st[v] = Run /\ w'.st[v] = Run /\ w'.ln[v] # w.ln[v] /\ Prio(w, v) = 0) =>
                      \A u \in Candidates(w, [q |-> w.q, cor |-> w.cor, inc |-> w.inc], n, w'.ln[v], TRUE) : Prio(w, u) = 0]_vars
(* C08 *)
Connected == \A v \in 1..NV : LET r == w.hist[v] IN
  /\ (r # <<>> => w.lp[r[1][2]].s = C.V[v].o)
  /\ \A k \in 1..(Len(r) - 1) : r[k + 1][2] # -1 => w.lp[r[k + 1][2]].s = w.lp[r[k][2]].e
  /\ \A k \in 1..Len(r) : r[k][2] = -1 => (k = Len(r) /\ w.lp[r[k - 1][2]].e = C.V[v].d)
  /\ (w.st[v] = End) <=> (r # <<>> /\ Last(r)[2] = -1)
  /\ (w.st[v] = Abort => (Len(w.np[w.lp[Last(r)[2]].e].out) = 0 /\ w.lp[Last(r)[2]].e # C.V[v].d))
  /\ (Len(C.V[v].spec) > 0 => \A k \in 1..Len(r) : r[k][2] # -1 => r[k][2] = C.V[v].spec[k])
(* C09 *)
PrefSums == \A k \in 1..NN : \A i \in 1..NN :
  LET out == w.np[i].out s == SumSeq([j \in 1..Len(out) |-> w.pref[k][out[j]]])
  IN i # k => s <= 10000 * Cardinality(Rng(out))
(* C10 *)
ActualTimes == \A v \in 1..NV : w.st[v] = End => (w.endt[v] >= C.V[v].dep /\ w.hist[v][1][1] >= C.V[v].dep)
(* progress: in an uncongested-by-design configuration everybody arrives    *)
AllArrive == <>(C.live => \A v \in 1..NV : w.st[v] \in {End, Abort})
=============================================================================
