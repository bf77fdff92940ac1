-------------------------- MODULE GrainStoreCases --------------------------
EXTENDS CaseBase
CONSTANT Dim
GS == INSTANCE GrainStore WITH NG <- 4, Dim <- Dim, MaxLen <- 0, Simulate <- FALSE, Kinds <- {}, Pos <- {}, Rad <- {}, st <- l, log <- l
Near(a, b) == AbsV(a - b) <= 2
SegSame(s, o, dim) == /\ o.c = [e \in 1..dim |-> 100 * s.c[e]]
                      /\ o.r = 100 * s.r /\ o.m = 100 * s.m /\ o.v = s.v
                      /\ o.trivial = (s.k < 2)
                      /\ (s.k = 0) <=> (o.data = <<>>)
                      /\ s.k > 0 => o.data[1] = 100 * s.k /\ \A e \in 1..dim : o.data[e + 1] = 100 * s.c[e]
                      /\ s.k = 1 => o.data[dim + 2] = 100 * s.r
                      /\ s.k = 2 => \A e \in 1..dim : o.data[1 + dim + dim * dim + e] = 100 * s.d[e]
GrainSame(g, o, dim) ==
  /\ o.id = g.id /\ o.op = g.op /\ o.old = g.old /\ o.dyn = g.dyn
  /\ o.maxr = g.maxr /\ o.maxv = g.maxv /\ o.sum = g.sum /\ o.ns = Len(g.segs)
  /\ Near(o.buf, (IF g.near < 0 THEN 0 ELSE IF g.near >= 99999999 THEN 99999999 ELSE g.near \div 2))
  /\ Len(o.segs) = Len(g.segs)
  /\ \A i \in DOMAIN g.segs : SegSame(g.segs[i], o.segs[i], dim)
RetOk(n, dim, s, o, ret) ==
  CASE o[1] = "nb" -> ret = (IF GS!NbOk(s.g[o[2]], s.g[o[3]]) THEN 0 ELSE 1)
    [] o[1] = "dist" -> LET d == GS!Distance(s.g[o[2]], s.g[o[3]]) IN d = <<>> \/ Near(ret, d[1])
    [] o[1] = "ovl" -> LET v == GS!Overlap(s.g[o[2]], s.g[o[3]], o[4], o[5]) IN ret = (CASE v = "T" -> 1 [] v = "F" -> 0 [] OTHER -> ret)
    [] OTHER -> ret = 0
Pairs(n, dim, s, pairs) == \A q \in DOMAIN pairs : LET i == pairs[q][1]  j == pairs[q][2] IN
  Near(pairs[q][3], GS!Lower(s.g[i], s.g[j])) /\ Near(pairs[q][4], GS!Centers(s.g[i], s.g[j]))
\* k: index of the last save
RECURSIVE Run(_, _, _, _)
Run(c, s, i, k) ==
  i > Len(c.ops) \/
  LET o == c.ops[i]
      t == TLCEval(GS!Apply(s, o))
      k2 == IF o[1] = "save" THEN i ELSE k
  IN /\ IF /\ \A x \in 1..c.n : GrainSame(t.g[x], c.obs[i].g[x], c.dim)
           /\ RetOk(c.n, c.dim, s, o, c.obs[i].ret)
           /\ Pairs(c.n, c.dim, t, c.obs[i].pairs)
           /\ Len(c.obs[i].pairs) = c.n * (c.n - 1)
           \* the grains read back are the grains written, to the last bit
           /\ o[1] = "load" /\ k > 0 => c.obs[i].exact = c.obs[k].exact
        THEN TRUE ELSE PrintT(<<"BADSTEP", i, o>>) /\ FALSE
     /\ Run(c, t, i + 1, k2)
OK(c) == "obs" \in DOMAIN c /\ Len(c.obs) = Len(c.ops) /\ Run(c, [g |-> [i \in 1..c.n |-> GS!NewGrain(i - 1, 0, 0)], a |-> <<>>], 1, 0)
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
