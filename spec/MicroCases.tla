----------------------------- MODULE MicroCases -----------------------------
EXTENDS InitialComponents, Polygons
XS(grain) == UNION {{grain[s][i][1] : i \in DOMAIN grain[s]} : s \in DOMAIN grain}
YS(grain) == UNION {{grain[s][i][2] : i \in DOMAIN grain[s]} : s \in DOMAIN grain}
Ext(c) == IF c.dir = 1 THEN c.w ELSE IF c.dir = 0 THEN c.w \div 2 ELSE 0
SegXY(seg, k) == {seg[i][k] : i \in DOMAIN seg}
Diag2(c, seg) == Sq(MaxS(SegXY(seg, 1)) - MinS(SegXY(seg, 1)) + 2 * Ext(c)) + Sq(MaxS(SegXY(seg, 2)) - MinS(SegXY(seg, 2)) + 2 * Ext(c))
\* order parameter of every grain: as in the file, or the largest value in its middle
OpOf(c, g) ==
  IF c.kind = "image" THEN c.color[g] + 1
  ELSE LET e == OpsOf(c, c.obs.v[c.mid[g]]) IN CHOOSE k \in DOMAIN e : \A m \in DOMAIN e : e[m] <= e[k]
Micro(c) ==
  LET o == c.obs  G == DOMAIN c.grains
      ops == TLCEval(Sets(o.ops))
      nops == Len(o.ops)
      Op == TLCEval([g \in G |-> OpOf(c, g)])
      big == MaxS({Diag2(c, c.grains[g][s]) : <<g, s>> \in {<<x, y>> \in G \X (1..4) : y \in DOMAIN c.grains[x]}})
  IN /\ o.np = Len(c.grains) /\ o.nops = nops
     /\ Covers(ops, Len(c.grains)) /\ SumSeq([k \in DOMAIN o.ops |-> Len(o.ops[k])]) = Len(c.grains)
     /\ Sq(2 * o.rmax - 1) <= big + 1 /\ Sq(2 * o.rmax + 1) >= big - 1
     /\ o.lo[1] = MinS(UNION {XS(c.grains[g]) : g \in G}) - Ext(c) /\ o.hi[1] = MaxS(UNION {XS(c.grains[g]) : g \in G}) + Ext(c)
     /\ o.lo[2] = MinS(UNION {YS(c.grains[g]) : g \in G}) - Ext(c) /\ o.hi[2] = MaxS(UNION {YS(c.grains[g]) : g \in G}) + Ext(c)
     /\ c.kind = "image" => /\ nops = MaxS({c.color[g] : g \in G}) + 1
                            /\ \A k \in DOMAIN ops : ops[k] = {g \in G : Op[g] = k}
     \* grains meeting in a vertex have different order parameters, and no more of them are used than the neighbours require
     /\ c.kind = "voronoi" =>
          LET V(g) == UNION {SeqSet(c.grains[g][s]) : s \in DOMAIN c.grains[g]}
              vs == TLCEval([g \in G |-> V(g)])
              Meet(a, b) == a # b /\ vs[a] \cap vs[b] # {}
          IN /\ \A a, b \in G : Meet(a, b) => Op[a] # Op[b]
             /\ nops <= 1 + MaxS({Cardinality({b \in G : Meet(a, b)}) : a \in G})
             /\ \A k \in DOMAIN ops : Cardinality(ops[k]) = Cardinality({g \in G : Op[g] = k})
     /\ \A q \in DOMAIN c.pts :
          LET v == o.v[q]  e == OpsOf(c, v)  p == c.pts[q]
          IN /\ Components(c, v, nops)
             /\ \A k \in 1..nops :
                  LET B == {Val(c.grains[g], p, c.w, c.dir) : g \in {x \in G : Op[x] = k}}
                      lo == MaxS({b[1] : b \in B})  hi == MaxS({b[2] : b \in B})
                  IN lo - 1 <= e[k] /\ e[k] <= hi + 1
OK(c) == "obs" \in DOMAIN c /\ Micro(c)
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
