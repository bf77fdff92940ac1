----------------------------- MODULE NewtonCases -----------------------------
(* A recorded session: sol = sequence of solves (or "clear"), each with the *)
(* calls made, the answers given, and the outcome.                          *)
EXTENDS CaseBase
N == INSTANCE Newton WITH Cfgs <- {}, Norms <- {}, Lins <- {}, MaxCalls <- 0, MaxSolves <- 0, Simulate <- FALSE, cfg <- l, st <- l, log <- l, cnt <- l
RECURSIVE Calls(_, _, _, _)
\* state after the solver made the calls of e with the answers given, or <<>> if it should have called something else
Calls(c, s, e, i) ==
  IF i > Len(e) THEN s
  ELSE IF s.pc = "idle" \/ s.call # e[i].call THEN [s EXCEPT !.pc = "bad", !.cp = i]
  ELSE Calls(c, TLCEval(N!React(c, s, e[i].a)), e, i + 1)
RECURSIVE Run(_, _, _)
Run(c, s, i) ==
  i > Len(c.obs) \/
  LET o == c.obs[i] IN
  IF o.do = "clear" THEN Run(c, N!Clear(s), i + 1)
  ELSE LET t == TLCEval(Calls(c.c, N!Begin(c.c, s), o.calls, 1))
       IN /\ IF /\ t.pc = "idle" /\ t.res = o.res
                /\ o.x = t.x                      \* the returned iterate
                /\ o.it = t.it                    \* Newton iterations reported
                /\ o.again = N!Status(c.c, t.it, t.nr, IF t.it = 0 THEN t.nr ELSE t.n0)
                /\ o.lin = N!Begin(c.c, s).it + o.sumlin /\ o.nres = o.sumres
             THEN TRUE ELSE PrintT(<<"BADSTEP", i, t, o.res, o.x, IF t.pc = "bad" THEN <<t.cp, o.calls[t.cp]>> ELSE <<>>>>) /\ FALSE
          /\ Run(c, t, i + 1)
OK(c) == "obs" \in DOMAIN c /\ Run(c, N!Fresh, 1)
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
