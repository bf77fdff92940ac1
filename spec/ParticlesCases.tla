--------------------------- MODULE ParticlesCases ---------------------------
EXTENDS InitialComponents
Cloud(c) ==
  LET P == c.P  o == c.obs
      ops == TLCEval(Sets(o.ops))
      n == Len(P)
      far == Separates(P, ops, 8 * c.u)
  IN /\ o.np = n /\ o.nops = Len(o.ops) /\ Covers(ops, n)
     /\ SumSeq([k \in DOMAIN o.ops |-> Len(o.ops[k])]) = n
     /\ IF c.min THEN /\ \A i, j \in DOMAIN P : Close(P, i, j, 8 * c.u + c.ib * 4 * c.u + c.rb * MaxS({P[i].r, P[j].r})) =>
                           ~\E k \in DOMAIN ops : i \in ops[k] /\ j \in ops[k]
                      /\ LET deg(i) == Cardinality({j \in DOMAIN P : Close(P, i, j, 8 * c.u + c.ib * 4 * c.u + c.rb * MaxS({P[i].r, P[j].r}))})
                         IN Len(ops) <= 1 + MaxS({deg(i) : i \in DOMAIN P})
        ELSE Len(ops) = n
     /\ o.contacts = Cardinality({q \in (DOMAIN P) \X (DOMAIN P) : Contact(P, q[1], q[2])})
     /\ o.rmax = MaxS({P[i].r : i \in DOMAIN P})
     /\ \A d \in 1..c.dim : o.lo[d] = MinS({P[i].c[d] - P[i].r : i \in DOMAIN P}) /\ o.hi[d] = MaxS({P[i].c[d] + P[i].r : i \in DOMAIN P})
     /\ \A q \in DOMAIN c.pts :
          LET v == o.v[q]  e == OpsOf(c, v)  p == c.pts[q]
          IN /\ Components(c, v, Len(ops))
             /\ \A k \in DOMAIN ops :
                  LET A == TLCEval({<<i, Value(P, i, p, c.u, c.dir)>> : i \in ops[k]})
                      NZ == {a \in A : a[2] # 0}
                  IN IF NZ = {} THEN e[k] = 0 ELSE \E a \in NZ : Fits(a[2], e[k])
\* rings and blocks of equal particles, radius r (in 1/1000)
Array(c) ==
  LET o == c.obs  n == Len(o.centers)
      ops == TLCEval(Sets(o.ops))
      e(i, j) == D2(o.centers[i], o.centers[j])
      touching == {q \in (1..n) \X (1..n) : q[1] # q[2] /\ AbsV(e(q[1], q[2]) - Sq(2 * c.r)) <= 8 * c.r + 8}
  IN /\ n = c.n /\ o.np = n /\ o.nops = Len(o.ops)
     /\ Covers(ops, n) /\ SumSeq([k \in DOMAIN o.ops |-> Len(o.ops[k])]) = n
     /\ o.rmax = c.r
     \* nobody overlaps, neighbours touch
     /\ \A i, j \in 1..n : i # j => e(i, j) >= Sq(2 * c.r) - 8 * c.r - 8
     /\ c.kind = "circle" /\ n > 1 => \A i \in 1..n : <<i, (i % n) + 1>> \in touching
     /\ c.kind = "cube" => Cardinality(touching) = c.bonds
     /\ (c.kind = "circle" /\ ~c.min) \/ (c.kind = "cube" /\ c.k = 0) => \A k \in DOMAIN ops : Cardinality(ops[k]) = 1
     /\ c.kind = "circle" /\ c.min => Len(ops) <= 3 /\ (n % 2 = 0 => Len(ops) <= 2)
     /\ c.kind = "cube" /\ c.k > 0 => Len(ops) <= c.k
     /\ c.kind = "circle" \/ c.k # 1 => \A q \in touching : ~\E k \in DOMAIN ops : q[1] \in ops[k] /\ q[2] \in ops[k]
     /\ \A d \in 1..c.dim : /\ AbsV(o.lo[d] - (MinS({o.centers[i][d] : i \in 1..n}) - c.r)) <= 2
                            /\ AbsV(o.hi[d] - (MaxS({o.centers[i][d] : i \in 1..n}) + c.r)) <= 2
     \* at its center a particle is there, in its own order parameter only
     /\ \A i \in 1..n : /\ Components(c, o.v[i], Len(ops))
                        /\ \A k \in DOMAIN ops : OpsOf(c, o.v[i])[k] = IF i \in ops[k] THEN One ELSE 0
OK(c) == "obs" \in DOMAIN c /\ (IF c.kind = "cloud" THEN Cloud(c) ELSE Array(c))
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
