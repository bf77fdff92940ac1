-------------------------- MODULE BlockVectorCases --------------------------
EXTENDS CaseBase
V == INSTANCE BlockVector WITH NV <- 3, MaxB <- 0, Sizes <- {}, Facs5 <- {}, Bound <- 0, MaxLen <- 0, Simulate <- FALSE,
       Kinds <- {}, st <- l, log <- l
SameVec(s, i, o) ==
  LET val == TLCEval([b \in DOMAIN s.v[i] |-> TLCEval(V!B(s, i, b).x)])
      f == TLCEval(V!Flat(val))
  IN /\ o.b = val
     /\ o.size = Len(f)
     /\ o.at = f
     /\ o.own = [k \in 1..Len(f) |-> k - 1]
     /\ o.l1 = V!Sum([k \in DOMAIN f |-> AbsV(f[k])])
     /\ o.l2 = V!Sum([k \in DOMAIN f |-> f[k] * f[k]])
     /\ o.linf = V!MaxSeq([k \in DOMAIN f |-> AbsV(f[k])])
     /\ o.zero = (\A k \in DOMAIN f : f[k] = 0)
     /\ o.mean = V!Sum(f)
     /\ \A b \in DOMAIN val : LET g == V!B(s, i, b).g IN
          g < 2 /\ o.np > 1 /\ Len(val[b]) > 0 => o.g[b] = g
     /\ \A j \in 1..3 : V!Sz(s, i) = V!Sz(s, j) => o.dot[j] = V!DotProd(s, i, j)
RECURSIVE Run(_, _, _)
Run(c, s, i) ==
  i > Len(c.ops) \/
  LET t == TLCEval(V!Apply(s, c.ops[i]))
  IN /\ IF /\ \A m \in 1..3 : SameVec(t, m, c.obs[i].v[m])
           /\ c.obs[i].ret = V!Returns(s, c.ops[i])
        THEN TRUE ELSE PrintT(<<"BADSTEP", i, c.ops[i], t>>) /\ FALSE
     /\ Run(c, TLCEval(V!Compact(t)), i + 1)
OK(c) == "obs" \in DOMAIN c /\ Len(c.obs) = Len(c.ops) /\ Run(c, V!Empty, 1)
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
