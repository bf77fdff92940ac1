--------------------------- MODULE TimeSchemeCases ---------------------------
EXTENDS CaseBase
S == INSTANCE TimeScheme WITH Dts <- {}, NObj <- 3, MaxLen <- 0, Simulate <- FALSE, Kinds <- {}, st <- l, log <- l, past <- l
\* an observed weight, in 1/100000, against num/den
Close(o, w) == AbsV(o * w[2] - 100000 * w[1]) <= AbsV(w[2])
SameObj(x, o) ==
  /\ o.k = x.k /\ o.d = x.d /\ o.cur = x.d[1] /\ o.t = x.t
  /\ o.impl = (x.k > 0) /\ o.alg = (IF x.k > 0 THEN 1 ELSE 0)
  /\ x.k > 0 => /\ Len(o.w) = x.k + 1
                /\ \A j \in 0..x.k : Close(o.w[j + 1], S!W(x, j))
                /\ o.prim = o.w[1]
Same(s, o) == \A i \in 1..3 : SameObj(s[i], o[i])
RECURSIVE Run(_, _, _)
Run(c, s, i) ==
  i > Len(c.ops) \/
  LET t == TLCEval(S!Apply(s, c.ops[i]))
  IN /\ IF Same(t, c.obs[i]) THEN TRUE ELSE PrintT(<<"BADSTEP", i, c.ops[i], t, c.obs[i]>>) /\ FALSE
     /\ Run(c, t, i + 1)
\* explicit schemes: the stages are a Runge-Kutta scheme of the claimed order.
\* In each stage f is evaluated at y + (second entry of the stage before) h f; b = weights, c = nodes, in 1/12.
Stages(c) ==
  LET n == Len(c.stages)
      b == [i \in 1..n |-> c.stages[i][1]]
      k == [i \in 1..n |-> IF i = 1 THEN 0 ELSE c.stages[i - 1][2]]
      SumB(f) == S!SumTo(n, f)
  IN /\ c.stages[n][2] = 0
     /\ SumB([i \in 1..n |-> b[i]]) = 12
     /\ c.name = "RK4" =>
          /\ SumB([i \in 1..n |-> b[i] * k[i]]) * 2 = 144
          /\ SumB([i \in 1..n |-> b[i] * k[i] * k[i]]) * 3 = 1728
          /\ SumB([i \in 1..n |-> b[i] * k[i] * k[i] * k[i]]) * 4 = 20736
          /\ SumB([i \in 1..n |-> IF i = 1 THEN 0 ELSE b[i] * k[i] * k[i - 1]]) * 6 = 1728
          /\ SumB([i \in 1..n |-> IF i = 1 THEN 0 ELSE b[i] * k[i] * k[i] * k[i - 1]]) * 8 = 20736
          /\ SumB([i \in 1..n |-> IF i = 1 THEN 0 ELSE b[i] * k[i] * k[i - 1] * k[i - 1]]) * 12 = 20736
          /\ SumB([i \in 1..n |-> IF i <= 2 THEN 0 ELSE b[i] * k[i] * k[i - 1] * k[i - 2]]) * 24 = 20736
OK(c) == IF "name" \in DOMAIN c
         THEN "stages" \in DOMAIN c /\ (IF c.name = "FE" THEN c.stages = <<<<12, 0>>>> ELSE Stages(c))
         ELSE "obs" \in DOMAIN c /\ Len(c.obs) = Len(c.ops) /\ Run(c, [i \in 1..3 |-> S!Make(i)], 1)
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
