---------------------------- MODULE GrainHistory ----------------------------
(***************************************************************************)
(* One step of the grain tracker (C02, C03, C06): identities, reassignment  *)
(* of order parameters, remapping of the fields. Distances are hundredths   *)
(* and carry a tolerance: a relation "sure" implies the exact one, which    *)
(* implies "maybe".                                                         *)
(***************************************************************************)
EXTENDS GrainDetect

NoId == -2

(* ------------------------------ identities ------------------------------ *)
\* g, o: records with op and segs ; o an old grain, g a new one
TouchTol(s, t, tol) == \A d \in DOMAIN s.c : GAbs(s.c[d] - t.c[d]) <= s.r + t.r + tol
TPairs(g, o, tol) == {p \in (DOMAIN g.segs) \X (DOMAIN o.segs) : TouchTol(g.segs[p[1]], o.segs[p[2]], tol)}
TCands(g, olds, tol) == {o \in olds : o.op = g.op /\ TPairs(g, o, tol) # {}}
PairDist(g, o, P) == SetMin({D100(g.segs[p[1]].c, o.segs[p[2]].c) : p \in P})
CDist(g, o) == PairDist(g, o, (DOMAIN g.segs) \X (DOMAIN o.segs))
Tol == 6
\* o could be the nearest old grain of g
MaybeBest(g, olds) ==
  LET S == {<<q, PairDist(g, q, TPairs(g, q, -Tol))>> : q \in TCands(g, olds, -Tol)} IN
  {o \in TCands(g, olds, Tol) : \A q \in S : PairDist(g, o, TPairs(g, o, Tol)) <= q[2] + Tol}

\* news: set of new grains, with the identity given to each in m (NoId: none)
IdsOK(m, news, olds) ==
  /\ \A g \in news : m[g.key] # NoId => \E o \in MaybeBest(g, olds) : o.id = m[g.key]
  /\ \A g, h \in news : g.key # h.key /\ m[g.key] # NoId => m[g.key] # m[h.key]
  /\ \A g \in news : m[g.key] = NoId =>
       \/ TCands(g, olds, -Tol) = {}
       \/ \E o \in MaybeBest(g, olds) : \E w \in news :
            w.key # g.key /\ m[w.key] = o.id /\ CDist(w, o) <= CDist(g, o) + Tol

\* a big unmatched grain must exist (refusal) / cannot exist (acceptance)
MaybeUnmatched(g, news, olds) ==
  \/ TCands(g, olds, -Tol) = {}
  \/ \E o \in MaybeBest(g, olds) : \E w \in news : w.key # g.key /\ o \in MaybeBest(w, olds) /\ CDist(w, o) <= CDist(g, o) + Tol
SureUnmatched(g, olds) == TCands(g, olds, Tol) = {}

\* expected grains of all fields as records
NewGrains(dim, cells, cm, det) ==
  UNION {{[key |-> <<op, SetMin(UNION G)>>, op |-> op - 1,
           segs |-> LET S == TLCEval({Seg(dim, cells, cm[op], r) : r \in G}) IN SetToSq(S),
           max |-> SetMax({RegMax(r, cm[op]) : r \in G}), cell |-> SetMin(UNION G)] : G \in det[op]} : op \in DOMAIN det}

TrackIds(c, news, olds, o) ==
  LET oldids == {x.id : x \in olds}
      idof == [k \in {g.key : g \in news} |-> o.lab[k[1]][k[2]][1]]
      m == [k \in DOMAIN idof |-> IF idof[k] \in oldids THEN idof[k] ELSE NoId]
  IN /\ IdsOK(m, news, olds)
     /\ \A g \in news : m[g.key] = NoId =>
          IF g.max > c.thrnew
          THEN c.allow /\ idof[g.key] >= 0 /\ \A x \in oldids : idof[g.key] > x
          ELSE idof[g.key] = NoId
     /\ \A i \in DOMAIN o.grains : LET g == o.grains[i] IN
          IF g.id \in oldids
          THEN LET q == CHOOSE q \in olds : q.id = g.id IN g.dyn = (IF g.mea > q.mea THEN 1 ELSE -1) /\ g.old = q.op
          ELSE g.dyn = 0
TrackRefusal(c, news, olds, o) ==
  /\ o.exc = 1 => (~c.allow /\ \E g \in news : g.max > c.thrnew /\ MaybeUnmatched(g, news, olds))
  /\ o.exc # 1 => (c.allow \/ ~ \E g \in news : g.max > c.thrnew /\ SureUnmatched(g, olds))

SetupIds(c, news, o) ==
  /\ {o.grains[i].id : i \in DOMAIN o.grains} = 0..(Cardinality(news) - 1)
  /\ \A i \in DOMAIN o.grains : o.grains[i].dyn = 0

(* ---------------------------- reassignment ------------------------------ *)
\* gap between two grains and the buffer, hundredths
Gap(g, h) == SetMin({D100(g.segs[p[1]].c, h.segs[p[2]].c) - g.segs[p[1]].r - h.segs[p[2]].r : p \in (DOMAIN g.segs) \X (DOMAIN h.segs)})
Buffer(c, g, h) == (c.ratio * (g.rmax + h.rmax)) \div 1000 + c.fixed \div 10
ShareCell(g, h, o, cells) ==
  \E x \in DOMAIN cells : o.lab[g.old + 1][x][1] = g.id /\ o.lab[h.old + 1][x][1] = h.id
SureOverlap(c, cells, o, g, h) ==
  IF c.repr = 0 THEN Gap(g, h) <= Buffer(c, g, h) - 7 
  ELSE Buffer(c, g, h) > 7 /\ ShareCell(g, h, o, cells)  \* closer than the buffer, strictly
MaybeOverlap(c, g, h) == Gap(g, h) <= Buffer(c, g, h) + 7

ReassignOK(c, cells, o, forced, skip) ==
  LET G == {o.grains[i] : i \in DOMAIN o.grains}
      sure == TLCEval({p \in G \X G : p[1].id < p[2].id /\ SureOverlap(c, cells, o, p[1], p[2])})
      maybe == TLCEval({p \in G \X G : p[1].id < p[2].id /\ MaybeOverlap(c, p[1], p[2])})
      ops == {g.op : g \in G}
      olds == {g.old : g \in G}
      k == Cardinality(ops)
      changed == \E g \in G : g.op # g.old
      gap == olds # 0..(Cardinality(olds) - 1)
      colS == Cardinality({p[2].id : p \in {q \in sure : q[1].old = q[2].old}})
      colM == Cardinality({p[2].id : p \in {q \in maybe : q[1].old = q[2].old}})
  IN IF skip THEN ~changed /\ ~o.reas /\ ~o.opch /\ o.ncol = 0 /\ {o.active[i] : i \in DOMAIN o.active} = ops
     ELSE
     /\ \A p \in sure : p[1].op # p[2].op
     /\ ops = 0..(k - 1)
     /\ {o.active[i] : i \in DOMAIN o.active} = ops
     /\ Cardinality(G) = 0 \/ k <= SetMax({c.maxops, Cardinality(olds)})
     \* the fast strategy may go on with more order parameters than allowed if they were there before
     /\ changed /\ o.ncol > 0 /\ ~c.fast => k <= c.maxops
     /\ changed => o.reas
     /\ o.reas => changed \/ gap \/ o.ncol > 0
     /\ changed => forced \/ gap \/ colM > 0
     \* the fast strategy leaves every grain alone which does not collide, as long as there are enough order parameters
     /\ c.fast /\ ~forced /\ ~gap /\ Cardinality(olds) + colM <= c.maxops =>
          \A g \in G : g.op # g.old => \E h \in G : h.id < g.id /\ h.old = g.old /\ MaybeOverlap(c, h, g)
     /\ o.opch = (k # o.nops)
     /\ o.ncol >= colS /\ o.ncol <= colM
\* refusing for lack of order parameters is right only if a greedy colouring may need too many
RefusalOK(c, news) ==
  LET adj(g) == Cardinality({h \in news : h.key # g.key /\ Gap(g, h) <= Buffer(c, [rmax |-> SetMax({g.segs[i].r : i \in DOMAIN g.segs})],
                                 [rmax |-> SetMax({h.segs[i].r : i \in DOMAIN h.segs})]) + 30})
  IN c.repr # 0 \/ \E g \in news : adj(g) >= c.maxops

(* ------------------------------- remapping ------------------------------ *)
CellsOfNode(dim, cells, nn) == [n \in 1..nn |-> {c \in DOMAIN cells : n \in Nodes(dim, cells[c])}]
\* det: the last detection step (labels), o: the remap step
RemapOK(c, dim, cells, con, last, o) ==
  LET newop == [id \in {o.grains[i].id : i \in DOMAIN o.grains} |-> GrainOf(o.grains, id).op]
      nold == o.nold
      \* grains with a region in cell x: set of <<old op, id>>
      at == TLCEval([x \in DOMAIN cells |-> {<<b, last.lab[b][x][1]>> : b \in {b \in 1..nold : last.lab[b][x][1] >= 0}}])
      valid == \A x \in DOMAIN cells : \A p, q \in at[x] : p # q => newop[p[2]] # newop[q[2]]
      moved(x) == \E p \in at[x] : newop[p[2]] # p[1] - 1
      \* identities of the grains owning node n in field b
      src(n, b) == {p \in UNION {at[x] : x \in con[n]} : p[1] = b}
  IN /\ o.exc = 0 /\ o.agree /\ o.mark
     /\ Len(o.w) = o.nnew
     /\ o.nre = Cardinality({i \in DOMAIN o.grains : o.grains[i].op # o.grains[i].old})
     /\ \A b \in DOMAIN o.w : \A n \in DOMAIN o.w[b] : o.w2[b][n] = -3 * o.w[b][n]
     /\ valid =>
        \A n \in DOMAIN con :
          IF \E x \in con[n] : moved(x)
          THEN LET big == {b \in 1..nold : o.v[b][n] > c.thr /\ \E x \in con[n] : last.lab[b][x][1] >= 0}
                   tgt == {newop[(CHOOSE p \in src(n, b) : TRUE)[2]] + 1 : b \in big}
               IN /\ \A b \in big : o.w[newop[(CHOOSE p \in src(n, b) : TRUE)[2]] + 1][n] = o.v[b][n]
                  /\ \A b \in (1..o.nnew) \ tgt : o.w[b][n] <= c.thr
                        \/ (b <= nold /\ o.w[b][n] = o.v[b][n] /\ \E x \in con[n] : last.lab[b][x][1] = NoId)
          ELSE \A b \in 1..o.nnew : o.w[b][n] = (IF b <= nold THEN o.v[b][n] ELSE 0)
=============================================================================
