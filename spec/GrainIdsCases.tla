--------------------------- MODULE GrainIdsCases ---------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
VARIABLE l
Cases == ndJsonDeserialize("cases.ndjson")
I == INSTANCE GrainIds WITH Pos <- {}, Rad <- {}, NOld <- 0, NNew <- 0, MaxSegs <- 1, Ops <- {},
                            new <- 0, old <- 0, todo <- 0, n2o <- 0
SetOf(s) == {s[i] : i \in DOMAIN s}
Fn(pairs) == [k \in {pairs[i][1] : i \in DOMAIN pairs} |->
                pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = k][2]]
OK(r) == /\ Cardinality({r.m[i][1] : i \in DOMAIN r.m}) = Len(r.m)
         /\ I!Acceptable(Fn(r.m), SetOf(r.new), SetOf(r.old))
CaseInit == l = 1
CaseNext == /\ l <= Len(Cases)
            /\ IF OK(Cases[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l>>)
            /\ l' = l + 1
CaseSpec == CaseInit /\ [][CaseNext]_l
AllSeen == TLCGet("stats").diameter - 1 = Len(Cases)
=============================================================================
