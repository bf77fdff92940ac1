---------------------------- MODULE GrainDetect ----------------------------
(***************************************************************************)
(* Detection of grains on an adaptive mesh (C05, C07).                      *)
(*                                                                          *)
(* A mesh is a sequence of cells <<lo_1..lo_dim, size, n_1..n_2^dim>> with  *)
(* integer coordinates, n_i the numbers of its nodes. A field is a sequence *)
(* of nodal values. A cell belongs to a region of an order parameter when   *)
(* one of its nodal values exceeds the threshold; regions are the connected *)
(* components of such cells under face neighbourhood; a grain is the union  *)
(* of the regions linked by (chains of) periodic face contacts, and its     *)
(* segments are these regions. Nothing here mentions processes, flooding,   *)
(* numbering or stitching.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SetToSq(_)
SetToSq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSq(S \ {x})
GAbs(x) == IF x < 0 THEN -x ELSE x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m)
ISqrt(n) == IF n = 0 THEN 0 ELSE SqrtIn(n, 0, 46340)

(* ------------------------------ geometry ------------------------------ *)
Size(dim, c) == c[dim + 1]
Overlap(a, sa, b, sb) == a < b + sb /\ b < a + sa
Adj(dim, a, b) ==
  \E d \in 1..dim :
    /\ a[d] + Size(dim, a) = b[d] \/ b[d] + Size(dim, b) = a[d]
    /\ \A e \in 1..dim : e # d => Overlap(a[e], Size(dim, a), b[e], Size(dim, b))
PAdj(dim, L, a, b) ==
  \E d \in 1..dim :
    /\ (a[d] = 0 /\ b[d] + Size(dim, b) = L[d]) \/ (b[d] = 0 /\ a[d] + Size(dim, a) = L[d])
    /\ \A e \in 1..dim : e # d => Overlap(a[e], Size(dim, a), b[e], Size(dim, b))

Neighbours(dim, cells) == [c \in DOMAIN cells |-> {b \in DOMAIN cells : Adj(dim, cells[c], cells[b])}]
PNeighbours(dim, L, per, cells) ==
  [c \in DOMAIN cells |-> IF per THEN {b \in DOMAIN cells : PAdj(dim, L, cells[c], cells[b])} ELSE {}]

Nodes(dim, c) == {c[i] : i \in (dim + 2)..Len(c)}
CellMax(dim, c, field) == SetMax({field[n] : n \in Nodes(dim, c)})

(* ------------------------------ components ------------------------------ *)
RECURSIVE Flood(_, _, _)
Flood(S, front, nb) ==
  IF front = {} THEN S
  ELSE LET nx == (UNION {nb[c] : c \in front}) \ S IN Flood(S \cup nx, nx, nb)
RECURSIVE Comps(_, _)
Comps(rest, nb) ==
  IF rest = {} THEN {}
  ELSE LET c == SetMin(rest) IN LET F == Flood({c}, {c}, nb) IN {F} \cup Comps(rest \ F, nb)

\* all regions and grains of one field: a set of sets of regions (each a set of cells)
DetectField(dim, cells, nb, pnb, cmax, thr) ==
  LET in == {c \in DOMAIN cells : cmax[c] > thr}
      nbi == TLCEval([c \in in |-> nb[c] \cap in])
      all == TLCEval([c \in in |-> (nb[c] \cup pnb[c]) \cap in])
      regs == TLCEval(Comps(in, nbi))
      grs == TLCEval(Comps(in, all))
  IN {{r \in regs : r \subseteq g} : g \in grs}

(* ------------------------- properties of a region ------------------------ *)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Measure(dim, cells, r) == SumOver(r, [c \in r |-> Pow(Size(dim, cells[c]), dim)])
\* centre in hundredths (rounded down)
Center(dim, cells, r) ==
  LET M == Measure(dim, cells, r) IN
  [d \in 1..dim |-> (50 * SumOver(r, [c \in r |-> Pow(Size(dim, cells[c]), dim) * (2 * cells[c][d] + Size(dim, cells[c]))])) \div M]
HalfDiag(dim, s) == (s * (IF dim = 2 THEN 7071 ELSE 8660)) \div 100
RECURSIVE SumSqD(_, _, _)
SumSqD(a, b, d) == IF d = 0 THEN 0 ELSE (a[d] - b[d]) * (a[d] - b[d]) + SumSqD(a, b, d - 1)
D100(a, b) == ISqrt(SumSqD(a, b, Len(a)))
Bary(dim, c) == [d \in 1..dim |-> 100 * c[d] + 50 * Size(dim, c)]
Radius(dim, cells, r) ==
  LET ctr == Center(dim, cells, r) IN
  SetMax({D100(Bary(dim, cells[c]), ctr) + HalfDiag(dim, Size(dim, cells[c])) : c \in r})
RegMax(r, cmax) == SetMax({cmax[c] : c \in r})

(* the segment as the specification sees it *)
Seg(dim, cells, cmax, r) == [c |-> Center(dim, cells, r), r |-> Radius(dim, cells, r),
                             mea |-> Measure(dim, cells, r), max |-> RegMax(r, cmax)]
Near(a, b, tol) == GAbs(a - b) <= tol
SegMatches(dim, s, o, repr) ==
  /\ s.mea = o.mea /\ s.max = o.max
  /\ \A d \in 1..dim : Near(s.c[d], o.c[d], 2)
  /\ IF repr = 1 THEN o.r >= 0 ELSE Near(s.r, o.r, 4)

(***************************************************************************)
(* Observed detection: lab[op][cell] = <<grain, segment>> with grain -1 for *)
(* no region and -2 for a region not accepted as a grain; grains: sequence  *)
(* of records id, op, old, dyn, max, mea, rmax, segs.                       *)
(***************************************************************************)
GrainOf(grains, id) == grains[CHOOSE i \in DOMAIN grains : grains[i].id = id]
HasGrain(grains, id) == \E i \in DOMAIN grains : grains[i].id = id

\* one expected grain G (set of regions) of field op
GrainDetected(dim, cells, cmax, repr, G, op, lab, grains) ==
  LET one == CHOOSE c \in UNION G : TRUE
      id == lab[one][1]
  IN /\ \A c \in UNION G : lab[c][1] = id
     /\ id = -2 \/ (
        /\ HasGrain(grains, id)
        /\ LET g == GrainOf(grains, id) IN
           /\ g.own = id
           /\ g.old = op
           /\ Len(g.segs) = Cardinality(G)
           /\ \A r \in G : \A c \in r : lab[c] = lab[CHOOSE x \in r : TRUE]
           /\ Cardinality({lab[CHOOSE x \in r : TRUE][2] : r \in G}) = Cardinality(G)
           /\ \A r \in G : LET s == lab[CHOOSE x \in r : TRUE][2] IN
                /\ s + 1 \in DOMAIN g.segs
                /\ SegMatches(dim, Seg(dim, cells, cmax, r), g.segs[s + 1], repr)
           /\ g.mea = SumOver(DOMAIN g.segs, [i \in DOMAIN g.segs |-> g.segs[i].mea])
           /\ g.max = SetMax({g.segs[i].max : i \in DOMAIN g.segs})
           /\ g.rmax = SetMax({g.segs[i].r : i \in DOMAIN g.segs}))

\* det[op]: expected grains per field; cm[op]: cell maxima
DetectOK(dim, cells, cm, det, repr, o) ==
  /\ o.agree
  /\ \A op \in DOMAIN det :
       /\ {c \in DOMAIN cells : o.lab[op][c][1] # -1} = UNION UNION det[op]
       /\ \A G \in det[op] : GrainDetected(dim, cells, cm[op], repr, G, op - 1, o.lab[op], o.grains)
  \* distinct grains have distinct identities, and nothing else is registered
  /\ LET shown == UNION {{<<op, G>> : G \in {H \in det[op] : o.lab[op][CHOOSE c \in UNION H : TRUE][1] >= 0}} : op \in DOMAIN det}
     IN /\ Cardinality({o.lab[x[1]][CHOOSE c \in UNION x[2] : TRUE][1] : x \in shown}) = Cardinality(shown)
        /\ Cardinality(shown) = Len(o.grains)
  \* the numbering of segments is one-to-one
  /\ o.nseg = SumOver(DOMAIN det, [op \in DOMAIN det |-> Cardinality(UNION det[op])])
  /\ \A i \in DOMAIN o.num : o.num[i][3] >= 0 /\ o.num[i][3] < o.nseg
  /\ Cardinality({o.num[i][3] : i \in DOMAIN o.num}) = Len(o.num)
=============================================================================
