---------------------------- MODULE HistoryCases ----------------------------
EXTENDS CaseBase
H == INSTANCE History WITH Ks <- {}, MaxB <- 0, BS <- 0, Bound <- 0, MaxLen <- 0, Simulate <- FALSE, Kinds <- {}, st <- l, log <- l, acc <- l
Same(s, o) == /\ Len(o.v) = Len(s)
              /\ \A i \in DOMAIN s : /\ o.v[i].b = s[i].b
                                     /\ (s[i].g < 2 /\ o.np > 1) => \A b \in DOMAIN s[i].b : o.v[i].g[b] = s[i].g
RECURSIVE Run(_, _, _)
Run(c, s, i) ==
  i > Len(c.ops) \/
  LET t == TLCEval(H!Apply(s, c.ops[i]))
  IN /\ IF Same(t, c.obs[i]) /\ c.obs[i].ret = H!Returns(s, c.ops[i])
        THEN TRUE ELSE PrintT(<<"BADSTEP", i, c.ops[i], t, H!Returns(s, c.ops[i]), c.obs[i].ret>>) /\ FALSE
     /\ Run(c, t, i + 1)
OK(c) == /\ "obs" \in DOMAIN c /\ Len(c.obs) = Len(c.ops)
         /\ LET s == H!Start(c.ops[1][2], c.ops[1][3], c.ops[1][4]) IN Same(s, c.obs[1]) /\ Run(c, s, 2)
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
