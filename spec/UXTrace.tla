------------------------------- MODULE UXTrace ------------------------------
(***************************************************************************)
(* Validation of recorded executions (Python engine and C++ engine)        *)
(* against the laws of UXCore.  One TLC behaviour per recorded trace; each *)
(* transition consumes the observation taken after one time step, drives   *)
(* the specification through the phases of that step                       *)
(*   link update; per node: generate, signal/capacity update; per node:    *)
(*   transfer; car following; vehicle update; route choice                 *)
(* binding only the engine's free choices (route picks, merge winners) to  *)
(* the observation, and compares everything observed with what the         *)
(* specification derives.  Hidden state (capacity buckets, leftover        *)
(* distance, previous positions, visited nodes) is never read from the     *)
(* code: it is carried by the specification.                               *)
(* The verdict is total: a set of violated clauses with the time step.     *)
(***************************************************************************)
EXTENDS UXEngine, TLC, Json, IOUtils

File == IOEnv.UX_TRACES
Traces == JsonDeserialize(File)
MAXBAD == 12

VARIABLES tid, i, w, bad
vars == <<cfg, tid, i, w, bad>>

B(cond, name) == IF cond THEN {} ELSE {name}

(* --------------------------- 1. link update ---------------------------- *)
LinkUpdate(w0, o, T) ==
  LET cor == [l \in 1..NL |-> Refill(w0.cor[l], w0.lp[l].cout, OnePl * w0.lp[l].lanes, C.tolc)]
      cir == [l \in 1..NL |-> Refill(w0.cir[l], w0.lp[l].cin, OnePl * w0.lp[l].lanes, C.tolc)]
      fresh == T % C.ttint = 0
      b == UNION { IF fresh
                   THEN B(Abs(o.tti[l] - TravelTimeMs(w0, l)) <= TtTol(w0, l), "tti")
                   ELSE B(o.tti[l] = w0.tti[l], "tti-hold") : l \in 1..NL }
  IN [w |-> [w0 EXCEPT !.cor = cor, !.cir = cir, !.tti = o.tti], b |-> b]

(* --------------------------- 2. generation ----------------------------- *)
EnterClauses(w0, o, v, l) ==
  LET p == w0.lp[l] IN
  B(SpaceMay(w0.q[l], w0.x, p.lanes, p.gap, C.tolx), "enter-space")
  \cup B(May(w0.cir[l], OnePl, C.tolc), "enter-capin")
  \cup B(o.st[v] # Run \/ o.lane[v] = EntryLane(w0.q[l], w0.lane, p.lanes), "enter-lane")

RECURSIVE GenFold(_, _, _, _, _)
GenFold(w0, o, n, vs, T) ==          \* vs: vehicles that left the origin queue, in order
  IF vs = <<>> THEN [w |-> w0, b |-> {}]
  ELSE LET v == Head(vs)
           l == o.ln[v]
           okl == l # 0 /\ l \in Rng(w0.np[n].out)
           b == IF ~okl THEN {"gen-link"}
                ELSE B(l \in PermittedFor(w0, v, n), "gen-permit")
                     \cup B(l \in MayChoose(w0, v, n), "gen-choice")
                     \cup EnterClauses(w0, o, v, l)
           w1 == IF okl THEN [Enter(w0, v, l, T, 0, w0.lp[l].u * 100) EXCEPT !.gq[n] = Tail(@)]
                 ELSE [w0 EXCEPT !.gq[n] = Tail(@)]
           r == GenFold(w1, o, n, Tail(vs), T)
       IN [w |-> r.w, b |-> b \cup r.b]

GenNode(w0, o, n, T) ==
  LET g == w0.gq[n]
      left == {v \in Rng(g) : o.st[v] # Wait}
      vs == Keep(g, left)
      bf == B(IsPrefixOf(vs, g), "gen-fifo")
      w0p == [w0 EXCEPT !.gq[n] = vs \o Keep(g, Rng(g) \ left)]
      r == GenFold(w0p, o, n, vs, T)
      w1 == r.w
      out == w0.np[n].out
      tries == SumSeq([k \in 1..Len(out) |-> w0.lp[out[k]].lanes])
      bstall == IF w1.gq[n] = <<>> \/ Len(vs) >= tries THEN {}
                ELSE LET h == Head(w1.gq[n]) S == MayChoose(w1, h, n)
                     IN B(S = {} \/ \E l \in S : ~AcceptMust(w1, l), "gen-stall")
      bmany == B(Len(vs) <= tries, "gen-many")
  IN [w |-> w1, b |-> bf \cup r.b \cup bstall \cup bmany]

RECURSIVE GenAll(_, _, _, _)
GenAll(w0, o, n, T) ==
  IF n > NN THEN [w |-> w0, b |-> {}]
  ELSE LET r == IF w0.gq[n] = <<>> THEN [w |-> w0, b |-> {}] ELSE GenNode(w0, o, n, T)
           s == GenAll(r.w, o, n + 1, T)
       IN [w |-> s.w, b |-> r.b \cup s.b]

NodeUpdate(w0, o) ==
  LET nxt == [n \in 1..NN |->
                SigNext(w0.np[n].sig, w0.ph[n], w0.sgt[n], C.DT)]
      b == UNION {B(Len(w0.np[n].sig) <= 1 \/ o.ph[n] = nxt[n].ph, "sig-phase") : n \in 1..NN}
  IN [w |-> [w0 EXCEPT !.ph = [n \in 1..NN |-> nxt[n].ph],
                       !.sgt = [n \in 1..NN |-> nxt[n].t],
                       !.fr = [n \in 1..NN |-> IF w0.np[n].fc < 0 THEN [lo |-> CAPMAX, hi |-> CAPMAX]
                                               ELSE Refill(w0.fr[n], w0.np[n].fc, OnePl * w0.np[n].lanes, C.tolc)]],
      b |-> b]

(* ---------------------------- 3. transfer ------------------------------ *)
(* Is there an order of the node's admission attempts that produces exactly *)
(* the observed entries?  s: search state; nondeterminism is the order of   *)
(* attempts (shuffled by the engine unless hard deterministic) and the      *)
(* merge lottery, which is bound to the observed winner.                    *)
(* Searched level by level (every attempt is one level), so that orders of  *)
(* attempts which lead to the same state are explored once.                 *)
Attempts(w0, s, n, order) ==
  LET open == {l \in DOMAIN s.att : s.att[l] > 0}
      pick == IF C.det THEN {order[MinOf({k \in 1..Len(order) : order[k] \in open})]} ELSE open
  IN UNION {
       LET p == w0.lp[l]
           cm == Candidates(w0, s, n, l, FALSE)
           cM == Candidates(w0, s, n, l, TRUE)
           gm == SpaceMay(s.q[l], s.x, p.lanes, p.gap, C.tolx) /\ May(s.cir[l], OnePl, C.tolc) /\ May(s.fr, OnePl, C.tolc)
           gM == SpaceMust(s.q[l], s.x, p.lanes, p.gap, C.tolx) /\ Must(s.cir[l], OnePl, C.tolc) /\ Must(s.fr, OnePl, C.tolc)
           \* the observed entry
           hit == IF gm /\ s.ex[l] # <<>> /\ Head(s.ex[l]) \in cm
                     /\ (Head(s.ex[l]) \in Winners(w0, cm) \/ Head(s.ex[l]) \in Winners(w0, {Head(s.ex[l])} \cup cM))
                  THEN {MoveOne(w0, s, n, Head(s.ex[l]), l)} ELSE {}
           \* an attempt that comes to nothing
           miss == IF ~(gM /\ cM # {}) /\ Len(s.ex[l]) < s.att[l]
                   THEN {[s EXCEPT !.att = [@ EXCEPT ![l] = @ - 1]]} ELSE {}
       IN hit \cup miss : l \in pick}
RECURSIVE Explained(_, _, _, _)
Explained(w0, S, n, order) ==
  IF S = {} THEN FALSE
  ELSE IF \E s \in S : \A l \in DOMAIN s.att : s.att[l] = 0 /\ s.ex[l] = <<>> THEN TRUE
  ELSE Explained(w0, TLCEval(UNION {Attempts(w0, s, n, order) : s \in {t \in S : \E l \in DOMAIN t.att : t.att[l] > 0}}), n, order)

(* fold the observed entries of outlink l *)
RECURSIVE XferFold(_, _, _, _, _, _)
XferFold(w0, o, n, l, vs, T) ==
  IF vs = <<>> THEN [w |-> w0, b |-> {}]
  ELSE LET v == Head(vs)
           a == w0.ln[v]
           pa == w0.lp[a]  pl == w0.lp[l]
           b == B(v \in w0.inc, "xfer-norequest")
                \cup B(w0.nx[v] = l, "xfer-next")
                \cup B(w0.nx[v] = l \/ l \in PermittedFor(w0, v, n), "xfer-permit")
                \cup B(Green(w0.np[n].sig, w0.ph[n], pa.sg), "xfer-red")
                \cup B(May(w0.cor[a], OnePl, C.tolc), "xfer-capout")
                \cup B(May(w0.fr[n], OnePl, C.tolc), "xfer-capnode")
                \cup EnterClauses(w0, o, v, l)
           w1 == CrossNode(w0, n, v, l, T)
           r == XferFold(w1, o, n, l, Tail(vs), T)
       IN [w |-> r.w, b |-> b \cup r.b]

RECURSIVE XferOut(_, _, _, _, _, _)
XferOut(w0, o, n, ls, ent, T) ==
  IF ls = <<>> THEN [w |-> w0, b |-> {}]
  ELSE LET r == XferFold(w0, o, n, Head(ls), ent[Head(ls)], T)
           s == XferOut(r.w, o, n, Tail(ls), ent, T)
       IN [w |-> s.w, b |-> r.b \cup s.b]

XferNode(w0, o, n, T) ==
  LET N == w0.np[n]
      ent == [l \in Rng(N.out) |->
               Keep(o.q[l], {v \in 1..NV : w0.st[v] = Run /\ w0.ln[v] \in Rng(N.in) /\ w0.ln[v] # l})]
      movers == UNION {Rng(ent[l]) : l \in Rng(N.out)}
      incn == {v \in w0.inc : w0.ln[v] \in Rng(N.in)}
      reqs == {w0.nx[v] : v \in {u \in incn : w0.nx[u] # 0}}
      r == XferOut(w0, o, n, N.out, ent, T)
      \* leavers of each inlink are its head, head after head
      RECURSIVE HeadFirst(_, _)
      HeadFirst(q, mv) == IF mv = {} THEN TRUE
                          ELSE IF q = <<>> THEN FALSE
                          ELSE IF Head(q) \in mv THEN HeadFirst(Tail(q), mv \ {Head(q)})
                          ELSE IF Head(q) \in w0.wend THEN HeadFirst(Tail(q), mv)
                          ELSE FALSE
      bh == UNION {B(HeadFirst(w0.q[a], movers \cap Rng(w0.q[a])), "xfer-head") : a \in Rng(N.in)}
      order == LET RECURSIVE Ord(_)
                   Ord(S) == IF S = {} THEN <<>>
                             ELSE LET v == MinOf({u \in incn : w0.nx[u] \in S})
                                  IN <<w0.nx[v]>> \o Ord(S \ {w0.nx[v]})
               IN Ord(reqs)
      s0 == [q |-> w0.q, x |-> w0.x, cor |-> w0.cor, cir |-> w0.cir, fr |-> w0.fr[n], inc |-> incn,
             ex |-> [l \in reqs |-> ent[l]], att |-> [l \in reqs |-> w0.lp[l].lanes]]
      b0 == r.b \cup bh
      be == IF b0 # {} THEN {}       \* a more specific clause already failed
            ELSE IF reqs = {} THEN B(movers = {}, "xfer-explain")
            ELSE IF \A l \in reqs : l \in Rng(N.out)
                 THEN B((\A v \in movers : w0.nx[v] \in reqs) /\ Explained(w0, {s0}, n, order), "xfer-explain")
                 ELSE {"xfer-next"}
      \* work conservation, stated separately: nothing entered l although a head could have
      stalled == {l \in reqs : /\ l \in Rng(N.out) /\ ent[l] = <<>> /\ AcceptMust(w0, l)
                               /\ AcceptMust(r.w, l)
                               /\ Must(r.w.fr[n], OnePl, C.tolc)
                               /\ Candidates(w0, s0, n, l, TRUE) # {}
                               /\ \E v \in Candidates(w0, s0, n, l, TRUE) : w0.ln[v] \in Rng(N.in) /\ v \in Rng(r.w.q[w0.ln[v]])}
      bs == B(stalled = {}, "xfer-stall")
            \* no vehicle is held back where there is no signal, whatever the signal groups of the links
            \cup B(~\E l \in stalled : \A v \in Candidates(w0, s0, n, l, TRUE) :
                      Len(w0.np[n].sig) <= 1 /\ w0.ph[n] \notin Rng(w0.lp[w0.ln[v]].sg), "sig-blocks")
      \* waiting vehicles reached the head
      te == [a \in Rng(N.in) |-> WaitingPrefix(r.w.q[a], w0.wend)]
      tev == UNION {Rng(te[a]) : a \in Rng(N.in)}
      bt == B(\A v \in tev : o.st[v] \in {End, Abort}, "end-late")
      w2 == LET RECURSIVE Go(_, _)
                Go(ww, S) == IF S = {} THEN ww ELSE LET a == MinOf(S) IN Go(EndAll(ww, te[a], T), S \ {a})
            IN Go(r.w, Rng(N.in))
      \* vehicles leave a link in queue order whatever the order of the outlinks
      gone(a) == Keep(w0.q[a], Rng(w0.q[a]) \ Rng(w2.q[a]))
      w3 == [w2 EXCEPT !.exits = [a \in 1..NL |->
               IF a \notin Rng(N.in) THEN @[a]
               ELSE w0.exits[a] \o [k \in 1..Len(gone(a)) |->
                      LET v == gone(a)[k] IN
                      <<w0.at[v], (IF w2.st[v] \in {End, Abort} THEN T + 1 ELSE T) - w0.at[v]>>]]]
  IN [w |-> w3, b |-> b0 \cup be \cup bs \cup bt]

RECURSIVE XferAll(_, _, _, _)
XferAll(w0, o, n, T) ==
  IF n > NN THEN [w |-> w0, b |-> {}]
  ELSE LET busy == \E a \in Rng(w0.np[n].in) :
                     \E v \in Rng(w0.q[a]) : v \in w0.inc \/ v \in w0.wend
                                             \/ (o.st[v] = Run /\ o.ln[v] # a)
           r == IF busy THEN XferNode(w0, o, n, T) ELSE [w |-> w0, b |-> {}]
           s == XferAll(r.w, o, n + 1, T)
       IN [w |-> s.w, b |-> r.b \cup s.b]

(* ------------------- 4. car following and vehicle update ---------------- *)
MoveAll(w0, o, T) ==
  LET M == Movement(w0)
      running == M.running
      pos == M.pos
      xn == M.xn
      lf == M.lf
      P(v) == w0.lp[w0.ln[v]]
      ended == {v \in running : o.st[v] \in {End, Abort}}
      finish(v) == TripOver(w0, v)
      abt(v) == P(v).e # w0.dest[v]
      \* spec position with observed resynchronisation inside tolerance
      near(v) == Abs(o.x[v] - xn[v]) <= C.tolx
      bx == UNION {IF v \in ended THEN B(xn[v] >= P(v).len - C.tolx, "end-early")
                   ELSE B(o.st[v] = Run, "run-lost")
                        \cup (IF o.st[v] # Run THEN {} ELSE
                        B(near(v), IF w0.at[v] = T /\ w0.cnt[v] > 1 THEN "move-entry" ELSE "move")
                        \cup B(o.ln[v] = w0.ln[v], "link")
                        \cup B(o.lane[v] = w0.lane[v], "lane")
                        \cup B(Abs(o.v[v] * C.DT - (o.x[v] - w0.x[v]) * 1000) <= C.DT * (1 + C.tolx) + 1000 * C.tolx, "speed")
                        \* safety bounds, stated independently of the exact law
                        \cup B(o.x[v] >= w0.x[v] - C.tolx, "back")
                        \cup B(o.x[v] <= P(v).len, "beyond-end")
                        \cup B(o.x[v] - w0.x[v] <= P(v).udt + C.tolx, "too-fast")
                        \cup B(o.v[v] >= 0 /\ o.v[v] <= P(v).u * 100 + 1, "v-range")) : v \in running}
      be == UNION {B(finish(v), "end-place") \cup B(~finish(v) \/ o.st[v] = (IF abt(v) THEN Abort ELSE End), "end-kind")
                   \cup B(\A k \in 1..(pos[v] - 1) : w0.q[w0.ln[v]][k] \in ended, "end-order") : v \in ended}
      bm == UNION {LET v == Head(w0.q[l]) IN
                   IF w0.q[l] = <<>> THEN {}
                   ELSE B(~(finish(v) /\ xn[v] >= P(v).len /\ o.x[v] >= P(v).len) \/ v \in ended, "end-missed") : l \in 1..NL}
      x1 == [v \in 1..NV |-> IF v \in running /\ v \notin ended
                             THEN (IF near(v) \/ TRUE THEN o.x[v] ELSE xn[v]) ELSE w0.x[v]]
      atend(v) == v \in running /\ v \notin ended /\ x1[v] >= P(v).len
      w1 == [w0 EXCEPT !.xo = [v \in 1..NV |-> IF v \in running THEN w0.x[v] ELSE @[v]],
                       !.x = x1,
                       !.v = [v \in 1..NV |-> IF v \in running THEN o.v[v] ELSE @[v]],
                       !.mr = [v \in 1..NV |-> IF v \in running /\ lf[v] > 0 THEN lf[v] ELSE @[v]],
                       !.wend = {v \in running \ ended : atend(v) /\ finish(v)},
                       !.inc = {v \in running \ ended : atend(v) /\ ~finish(v)}]
      \* vehicles ended in this phase: those that end are removed head first
      endseq == LET RECURSIVE Es(_)
                    Es(l) == IF l > NL THEN <<>> ELSE Keep(w0.q[l], ended) \o Es(l + 1)
                IN Es(1)
      w2 == EndAll(w1, endseq, T)
  IN [w |-> w2, b |-> bx \cup be \cup bm]

(* next-link requests of vehicles at the end of their link *)
Requests(w0, o) ==
  LET b == UNION { LET n == w0.lp[w0.ln[v]].e IN
                   IF Len(w0.np[n].out) = 0 THEN B(o.nx[v] = 0, "nx-deadend")
                   ELSE IF o.nx[v] = 0 THEN {"nx-none"}
                   ELSE B(o.nx[v] \in Rng(w0.np[n].out), "nx-connect")
                        \cup (IF o.nx[v] \in Rng(w0.np[n].out)
                              THEN B(o.nx[v] \in PermittedFor(w0, v, n), "nx-permit")
                                   \cup B(o.nx[v] \in MayChoose(w0, v, n) \/ o.nx[v] \notin PermittedFor(w0, v, n), "nx-choice")
                              ELSE {}) : v \in w0.inc }
  IN [w |-> [w0 EXCEPT !.nx = [v \in 1..NV |-> IF v \in w0.inc THEN o.nx[v] ELSE @[v]]], b |-> b]

(* departures: home -> waiting at the origin *)
Departures(w0, o, T) ==
  LET due == {v \in 1..NV : w0.st[v] = Home /\ C.V[v].add <= T /\ T >= C.V[v].dep}
      b == UNION {B(o.st[v] = Wait, "depart-late") : v \in due}
           \cup UNION {B(o.st[v] = Home, "depart-early") : v \in {u \in 1..NV : w0.st[u] = Home /\ u \notin due}}
      now == {v \in due : o.st[v] = Wait}
      w1 == [w0 EXCEPT !.st = [v \in 1..NV |-> IF v \in now THEN Wait ELSE @[v]],
                       !.gq = [n \in 1..NN |-> @[n] \o Asc({v \in now : C.V[v].o = n})]]
  IN [w |-> w1, b |-> b]

(* --------------------------- 5. route choice --------------------------- *)
RouteUpdate(w0, o, T) ==
  LET srch == T % C.rint = 0
      doupd == srch \/ C.grad
      \* a travel time beyond the range of the projection: nothing can be said
      huge == \E l \in 1..NL : w0.tti[l] >= 150000000
      adj == AdjFn(w0)
      D == ShortestPaths(adj)
      bd == IF ~srch \/ huge THEN {}
            ELSE UNION {
              IF p[1] = p[2] THEN {}
              ELSE IF D[p] >= INF THEN B(o.dist[p[1]][p[2]] = -1, "dist-reach")
              ELSE B(o.dist[p[1]][p[2]] # -1, "dist-reach")
                   \cup (IF o.dist[p[1]][p[2]] = -1 THEN {} ELSE
                         B(o.dist[p[1]][p[2]] >= D[p] - 4 /\ o.dist[p[1]][p[2]] <= D[p] + Slack(D[p]) + 4, "dist"))
              : p \in (1..NN) \X (1..NN)}
      bn == IF ~srch \/ huge THEN {}
            ELSE UNION {
              LET j == o.nxt[p[1]][p[2]] IN
              IF p[1] = p[2] THEN {}
              ELSE IF D[p] >= INF THEN B(j = 0, "next-reach")
              ELSE B(j # 0 /\ <<p[1], j>> \in DOMAIN adj, "next-edge")
                   \cup (IF j # 0 /\ <<p[1], j>> \in DOMAIN adj
                         THEN B(adj[<<p[1], j>>] + D[<<j, p[2]>>] <= D[p] + Slack(D[p]) + 6, "next-short") ELSE {})
              : p \in (1..NN) \X (1..NN)}
      nxt == IF srch THEN o.nxt ELSE w0.nxt
      zero(k) == SumSeq(w0.pref[k]) = 0
      wt(k) == IF zero(k) THEN 10000 ELSE C.W
      ind(l, k) == IF nxt # <<>> /\ nxt[w0.lp[l].s][k] = w0.lp[l].e /\ ~w0.lp[l].closed THEN 1 ELSE 0
      np(l, k) == ((10000 - wt(k)) * w0.pref[k][l]) \div 10000 + wt(k) * ind(l, k)
      \* a preference that has decayed below the projection may or may not be exactly zero
      np2(l, k) == C.W * ind(l, k)
      bp == IF ~doupd THEN {} ELSE
            UNION {B(\/ \A l \in 1..NL : Abs(o.pref[k][l] - np(l, k)) <= 3
                     \/ zero(k) /\ k \in w0.seen /\ \A l \in 1..NL : Abs(o.pref[k][l] - np2(l, k)) <= 3, "pref") : k \in 1..NN}
  IN IF ~doupd THEN [w |-> w0, b |-> {}]
     ELSE [w |-> [w0 EXCEPT !.pref = o.pref, !.nxt = nxt, !.seen = @ \cup {k \in 1..NN : SumSeq(o.pref[k]) > 0}],
           b |-> bd \cup bn \cup bp]

(* ----------------------- 6. observable agreement ------------------------ *)
Compare(w0, o) ==
  UNION {B(o.st[v] = w0.st[v], "state") : v \in 1..NV}
  \cup UNION {B(o.q[l] = w0.q[l], "queue")
              \cup B(o.ca[l] = w0.ca[l], "arrivals") \cup B(o.cd[l] = w0.cd[l], "departures")
              \cup B(o.ca[l] - o.cd[l] = C.DN * Len(o.q[l]), "balance") : l \in 1..NL}
  \cup UNION {B(o.gq[n] = w0.gq[n], "origin-queue") : n \in 1..NN}
  \cup UNION {B((o.st[v] = Run) = (\E l \in 1..NL : v \in Rng(o.q[l])), "on-one-link")
              \cup B(o.st[v] # Run \/ (o.ln[v] # 0 /\ v \in Rng(o.q[o.ln[v]])), "on-own-link") : v \in 1..NV}
  \cup B(\A l \in 1..NL : Cardinality(Rng(o.q[l])) = Len(o.q[l]), "duplicate")
  \* the registers of the world: every vehicle on the road, and every vehicle whose trip is not over
  \cup B(Rng(o.run) = {v \in 1..NV : w0.st[v] = Run}, "register-running")
  \cup B(Rng(o.liv) = {v \in 1..NV : w0.st[v] \notin {End, Abort} /\ C.V[v].add <= o.T}, "register-living")
  \* static spacing and storage (only meaningful while spacing is unchanged)
  \cup UNION {IF w0.lp[l].vgap THEN {} ELSE
              B(\A k \in 1..Len(o.q[l]) : k <= w0.lp[l].lanes \/
                  LET a == o.q[l][k - w0.lp[l].lanes] b == o.q[l][k]
                  IN o.x[a] - o.x[b] >= w0.lp[l].gap - C.tolx /\ o.lane[a] = o.lane[b], "spacing")
              \cup B(Len(o.q[l]) <= w0.lp[l].lanes * (w0.lp[l].len \div (w0.lp[l].gap - C.tolx) + 1), "storage")
              : l \in 1..NL}
(* vehicle log entries written in this step: <<state, link, x, v, lane>> *)
LogWant(w0, v) == <<w0.st[v], w0.ln[v], IF w0.st[v] = Run THEN w0.x[v] ELSE -1,
                    IF w0.st[v] = Run THEN w0.v[v] ELSE -1, IF w0.st[v] = Run THEN w0.lane[v] ELSE -1>>
LogSame(a, b) == /\ a[1] = b[1] /\ a[2] = b[2] /\ a[5] = b[5]
                 /\ (a[3] = b[3] \/ (a[3] >= 0 /\ Abs(a[3] - b[3]) <= C.tolx + 1))
                 /\ (a[4] = b[4] \/ (a[4] >= 0 /\ Abs(a[4] - b[4]) <= 2 + C.tolx))
(* every logi-th step is logged (logi = -1: nothing is); the end of a trip always is *)
LogCheck(w2, w3, o) ==       \* w2: before movement, w3: after the vehicle update
  IF ~C.logs THEN {} ELSE
  IF C.logi < 0 THEN B(\A v \in 1..NV : o.lg[v] = <<>>, "log-off") ELSE
  LET on == IF o.T % C.logi = 0 THEN 1 ELSE 0 IN
  UNION {
    IF w2.st[v] = Home THEN B((Len(o.lg[v]) = on \/ (Len(o.lg[v]) = 0 /\ o.T < C.V[v].add)) /\ \A e \in Rng(o.lg[v]) : e[1] = Home, "log-home")
    ELSE IF w2.st[v] \in {End, Abort} /\ w2.endt[v] < o.T THEN B(o.lg[v] = <<>>, "log-after-end")
    ELSE IF w2.st[v] \in {End, Abort}       \* ended during the transfer phase
         THEN B(Len(o.lg[v]) = 1 /\ o.lg[v][1][1] = w2.st[v], "log-end")
    ELSE LET ended == w3.st[v] \in {End, Abort} IN
         B(on = 0 \/ (Len(o.lg[v]) >= 1 /\ LogSame(LogWant(w2, v), o.lg[v][1])), "log")
         \cup B(Len(o.lg[v]) = on + (IF ended THEN 1 ELSE 0), "log-count")
         \cup B(~ended \/ o.lg[v] = <<>> \/ Last(o.lg[v])[1] = w3.st[v], "log-end")
    : v \in 1..NV}

(* adopt the observed queues after a disagreement so the rest of the trace *)
(* is still checked                                                         *)
Resync(w0, o) ==
  [w0 EXCEPT !.st = o.st,
             !.q = [l \in 1..NL |-> o.q[l]], !.gq = [n \in 1..NN |-> o.gq[n]],
             !.ca = o.ca, !.cd = o.cd,
             !.ln = [v \in 1..NV |-> IF o.st[v] = Run THEN o.ln[v] ELSE 0],
             !.lane = [v \in 1..NV |-> IF o.st[v] = Run THEN o.lane[v] ELSE 0],
             !.ph = [n \in 1..NN |-> o.ph[n]],
             !.sgt = [n \in 1..NN |-> o.sgt[n]],
             !.x = [v \in 1..NV |-> IF o.st[v] = Run THEN o.x[v] ELSE 0],
             !.inc = {v \in 1..NV : o.st[v] = Run /\ o.ln[v] # 0 /\ o.x[v] >= w0.lp[o.ln[v]].len
                                    /\ ~(w0.lp[o.ln[v]].e = w0.dest[v] \/ (Len(w0.np[w0.lp[o.ln[v]].e].out) = 0 /\ C.V[v].ab = 1))},
             !.wend = {v \in 1..NV : o.st[v] = Run /\ o.ln[v] # 0 /\ o.x[v] >= w0.lp[o.ln[v]].len
                                    /\ (w0.lp[o.ln[v]].e = w0.dest[v] \/ (Len(w0.np[w0.lp[o.ln[v]].e].out) = 0 /\ C.V[v].ab = 1))}]
(* the observation must be readable at all before the phases run *)
Sane(w0, o) ==
  /\ \A v \in 1..NV : o.st[v] \in {Home, Wait, Run, End, Abort}
  /\ \A v \in 1..NV : o.st[v] = Run => (o.ln[v] \in 1..NL /\ v \in Rng(o.q[o.ln[v]]))
  /\ \A l \in 1..NL : Rng(o.q[l]) \subseteq 1..NV /\ Cardinality(Rng(o.q[l])) = Len(o.q[l])
                      /\ \A v \in Rng(o.q[l]) : o.st[v] = Run /\ o.ln[v] = l
  /\ \A v \in 1..NV : \* legal life cycle moves within one step
       <<w0.st[v], o.st[v]>> \in {<<Home, Home>>, <<Home, Wait>>, <<Wait, Wait>>, <<Wait, Run>>,
                                   <<Run, Run>>, <<Run, End>>, <<Run, Abort>>, <<End, End>>, <<Abort, Abort>>}
  \* a running vehicle is on its link or has crossed exactly one node
  /\ \A v \in 1..NV : (w0.st[v] = Run /\ o.st[v] = Run) =>
        (o.ln[v] = w0.ln[v] \/ w0.lp[o.ln[v]].s = w0.lp[w0.ln[v]].e)
  /\ \A v \in 1..NV : (w0.st[v] = Wait /\ o.st[v] = Run) => w0.lp[o.ln[v]].s = C.V[v].o

(* a change of speed or density is reported by the link together with what  *)
(* follows from it                                                          *)
Qt == INSTANCE UXQuant
EventClauses(w0, evs) ==
  UNION {LET e == evs[k] IN
         IF e.k # "derived" THEN {} ELSE
         LET p == w0.lp[e.l] IN
         B(e.f.u = p.u /\ e.f.ff = p.u /\ e.f.kappa = p.kap /\ e.f.jd = p.kap, "change-value")
         \cup Qt!Quantities(e.rt10, [u |-> p.u, kappa |-> p.kap, lanes |-> p.lanes], e.f)
         : k \in 1..Len(evs)}

StepW(w0, o) ==
  LET T == o.T
      wa == Events(w0, o.ev)
  IN IF ~Sane(wa, o) THEN [w |-> Resync(wa, o), b |-> {"sane"}]
     ELSE
     LET r1 == LinkUpdate(wa, o, T)
         r2 == GenAll(r1.w, o, 1, T)
         r3 == NodeUpdate(r2.w, o)
         r4 == XferAll(r3.w, o, 1, T)
         r5 == MoveAll(r4.w, o, T)
         r6 == Requests(r5.w, o)
         r7 == Departures(r6.w, o, T)
         r8 == RouteUpdate(r7.w, o, T)
         b == r1.b \cup r2.b \cup r3.b \cup r4.b \cup r5.b \cup r6.b \cup r7.b \cup r8.b
              \cup Compare(r8.w, o) \cup LogCheck(r4.w, r8.w, o) \cup EventClauses(wa, o.ev)
     IN [w |-> IF b = {} THEN r8.w ELSE Resync(r8.w, o), b |-> b]

(* --------------------------- end of the trace --------------------------- *)
FinalClauses(f) ==
  IF ~C.fin THEN {} ELSE
  UNION {
    B(f.fst[v] = w.st[v], "fin-state")
    \cup (IF w.st[v] = End
          THEN B(f.tt[v] = (w.endt[v] - C.V[v].dep) * C.DT, "fin-traveltime")
               \cup B(f.arr[v] = w.endt[v], "fin-arrival")
          ELSE B(f.tt[v] = -1, "fin-traveltime"))
    \* route log: <<step, link>> of every entered link, then the end of the trip
    \cup B(f.route[v] = w.hist[v] \/ ~C.rlog, "fin-route") : v \in 1..NV}
  \cup UNION {LET free == C.L[l].fftt
                  want == Overwrite([k \in 1..f.n |-> free], w.exits[l], f.n)
              IN B(\A k \in 1..f.n : Abs(f.tta[l][k] - want[k]) <= 2, "fin-actual-tt") : l \in 1..NL}

Init == /\ tid \in 1..Len(Traces) /\ i = 1 /\ bad = {} /\ cfg = Traces[tid].c
        /\ w = InitW(Traces[tid].c)
Next ==
  \/ /\ i <= Len(Traces[tid].steps)
     /\ Cardinality(bad) < MAXBAD
     /\ LET r == StepW(w, Traces[tid].steps[i]) IN
        /\ w' = r.w
        /\ bad' = bad \cup {<<c, Traces[tid].steps[i].T>> : c \in r.b}
     /\ i' = i + 1 /\ UNCHANGED <<cfg, tid>>
  \/ /\ i = Len(Traces[tid].steps) + 1 \/ (Cardinality(bad) >= MAXBAD /\ i <= Len(Traces[tid].steps) + 1)
     /\ LET fb == IF bad = {} THEN {<<c, -1>> : c \in FinalClauses(Traces[tid].fin)} ELSE {} IN
        /\ bad' = bad \cup fb
        /\ PrintT("@@V " \o ToJson([id |-> Traces[tid].id, n |-> i - 1, bad |-> bad \cup fb]))
     /\ i' = Len(Traces[tid].steps) + 2 /\ UNCHANGED <<cfg, tid, w>>
Spec == Init /\ [][Next]_vars
View == <<tid, i>>
=============================================================================
