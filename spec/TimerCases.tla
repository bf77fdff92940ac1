----------------------------- MODULE TimerCases -----------------------------
EXTENDS CaseBase
T == INSTANCE TimerPredicate WITH Kinds <- {}, Starts <- {}, Ivs <- {}, MaxT <- 0, MaxQ <- 0,
       kind <- l, start <- l, iv <- l, s <- l, now <- l, clock <- l, fired <- l, log <- l
RECURSIVE Run(_, _, _)
Run(c, st, i) == i > Len(c.q) \/ (/\ c.ans[i] = T!Fires(c.kind, c.iv, st, c.q[i][1], c.q[i][2])
                                  /\ Run(c, T!After(c.kind, c.iv, st, c.q[i][1], c.q[i][2]), i + 1))
OK(c) == "ans" \in DOMAIN c /\ c.agree /\ Len(c.ans) = Len(c.q) /\ Run(c, T!Fresh(c.kind, c.start), 1)
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
