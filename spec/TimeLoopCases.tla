---------------------------- MODULE TimeLoopCases ----------------------------
(* One case: runs of the driver in the same directory (c.runs: parameters,   *)
(* script of solver outcomes, and the checkpoint a run continues from or -1) *)
(* and the events each of them printed (c.obs). Times in 1/65536, states in   *)
(* 1/1000, weights of the time derivative in 64/1000000.            *)
EXTENDS CaseBase
L == INSTANCE TimeLoop
T == INSTANCE TimeScheme WITH Dts <- {}, NObj <- 3, MaxLen <- 0, Simulate <- FALSE, Kinds <- {}, st <- l, log <- l, past <- l
\* --- the weights seen by the residual
RECURSIVE GcdAll(_)
GcdAll(s) == IF s = <<>> THEN 0 ELSE T!Gcd(s[1], GcdAll(Tail(s)))
RECURSIVE Small(_, _, _)
Small(n, d, b) == IF AbsV(n) > b THEN Small(n \div 2, d \div 2, b) ELSE <<n, d>>
Scaled(S, q) == LET r == T!Reduced(q)  x == Small(r[1], r[2], 2000000000 \div S) IN (S * x[1]) \div x[2]
WeightOf(x, S, j) == TLCEval(Scaled(S, T!W(x, j)))
Weights(e, o) ==
  LET g == GcdAll(e.ds)  k == Len(e.ds) IN
  g < 1024 \/
  LET S == 1024000000 \div g
      x == [k |-> k, d |-> [i \in 1..k |-> e.ds[i] \div g]]
      w == TLCEval([j \in 1..k |-> WeightOf(x, S, j)])
      w0 == -T!SumTo(k, w)
      b == T!SumTo(k, [j \in 1..k |-> (w[j] * e.hist[j]) \div 1000])
      tol == 4 + T!SumTo(k, [j \in 1..k |-> AbsV(w[j])]) \div 200
  IN AbsV(o.w - w0) <= tol /\ AbsV(o.b - b) <= tol
\* the state the solver starts from
Guess(e, o) == IF e.pred THEN AbsV((o.s - e.hist[1]) * e.ds[2] - (e.hist[1] - e.hist[2]) * e.ds[1]) <= e.ds[2]
               ELSE e.s = o.s
\* --- events
Same(e, o) == /\ e.k = o.k
              /\ IF e.k = "solve" THEN Guess(e, o) /\ Weights(e, o)
                 ELSE \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]
Match(X, E, j) == (IF j + Len(X) - 1 <= Len(E) THEN TRUE ELSE PrintT(<<"EXPECTED", j, X, "OBSERVED END">>) /\ FALSE) /\ \A i \in DOMAIN X : IF Same(X[i], E[j + i - 1]) THEN TRUE ELSE PrintT(<<"EXPECTED", j + i - 1, X[i], "OBSERVED", E[j + i - 1]>>) /\ FALSE
At(E, j) == IF j <= Len(E) THEN E[j].k ELSE ""
\* what a solver sees of the mesh and the grains
View(o) == [dofs |-> o.dofs, nb |-> o.nb, fp |-> o.fp]
Unknown == [dofs |-> -1]
Agrees(v, o) == v = Unknown \/ v = View(o)
Bad == [ok |-> FALSE]
Outcome(c, i) == IF i <= Len(c) THEN c[i] ELSE [k |-> "c", it |-> 1, s |-> 0]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
(* One iteration. r: the run; s: state; j: next event; i: next outcome;     *)
(* v: what the solver has to see (Unknown: free); m: the checkpoints;       *)
(* last: slots whose continuation (what the next solve sees) is open        *)
RECURSIVE Loop(_, _, _, _, _, _, _, _)
Loop(r, E, s, j, i, v, m, open) ==
  LET p == r.p IN
  \* a step size which is no multiple of the unit of time: not judged any further
  IF s.mode = "run" /\ ~L!Exact(p, s, Outcome(r.script, i)) THEN [ok |-> TRUE, stop |-> TRUE, m |-> m]
  ELSE IF s.mode # "run"
  THEN [ok |-> Match(L!EndEvents(s), E, j) /\ IF j = Len(E) THEN TRUE ELSE PrintT(<<"EXPECTED", j, "end", "OBSERVED", E[j + 1]>>) /\ FALSE, m |-> m]
  ELSE
  LET b == TLCEval(L!Before(s))
      X == L!BeforeEvents(s)
      j1 == j + Len(X)
  IN IF ~Match(X, E, j) THEN Bad
  ELSE IF b.mode # "run" THEN Loop(r, E, b, j1, i, v, m, open)
  ELSE IF ~Match(<<L!SolveEvent(p, b)>>, E, j1) THEN Bad
  ELSE
  LET q == E[j1]
      o == Outcome(r.script, i)
      w == IF s.fA /\ ~r.static THEN Unknown ELSE v
      m1 == TLCEval([k \in DOMAIN m |-> IF k \in open THEN [m[k] EXCEPT !.next = View(q)] ELSE m[k]])
  IN IF ~Agrees(w, q) THEN PrintT(<<"EXPECTED", j1, w, "OBSERVED", q>>) /\ Bad
  ELSE IF o.k = "f" \/ L!Refused(p, b, o)
  THEN LET s2 == TLCEval(IF o.k = "f" THEN L!Fail(p, b) ELSE L!Refuse(p, b, o))
           Y == IF o.k = "f" THEN L!FailEvents(p, b) ELSE L!RefusedEvents(p, b, o)
       IN IF ~Match(Y, E, j1 + 1) THEN Bad ELSE Loop(r, E, s2, j1 + 1 + Len(Y), i + 1, View(q), m1, {})
  ELSE LET t0 == L!Accept(p, b, o, FALSE)
           n == Len(L!AcceptEvents(p, b, o, t0))
           s2 == TLCEval(L!Accept(p, b, o, At(E, j1 + 1 + n) = "amr"))
           Y == TLCEval(L!AcceptEvents(p, b, o, s2))
           v2 == IF o.k = "g" THEN Unknown ELSE View(q)
           saved == s2.rc > b.rc
           x == s2 @@ [full |-> r.full, order |-> p.order, view |-> v2, next |-> Unknown, adapt |-> <<p.amrf, p.top>>]
           k == L!Slot(p, b)
       IN IF ~Match(Y, E, j1 + 1) THEN Bad
          ELSE Loop(r, E, s2, j1 + 1 + Len(Y), i + 1, v2, IF saved THEN TLCEval(Put(m1, k, x)) ELSE m1, IF saved THEN {k} ELSE {})
\* adaptation of the initial mesh: any number of rounds
RECURSIVE SkipAmr(_, _)
SkipAmr(E, j) == IF At(E, j) = "amr" THEN SkipAmr(E, j + 1) ELSE j
Fresh(r, E, m) ==
  LET s == TLCEval(L!Begin(r.p, r.s0))
      X == L!BeginEvents(r.p, s)
      j == SkipAmr(E, 1)
  IN IF ~Match(X, E, j) THEN Bad ELSE Loop(r, E, s, j + Len(X), 1, Unknown, m, {})
\* what the first solve of a restarted run has to see
Seen(r, x) == IF x.fA /\ ~r.static THEN (IF x.adapt = <<r.p.amrf, r.p.top>> THEN x.next ELSE Unknown) ELSE x.view
Again(r, E, m) ==
  IF r.from \notin DOMAIN m THEN [ok |-> Len(E) = 1 /\ E[1].k = "exc", m |-> m]
  ELSE
  LET x == m[r.from]
      s0 == TLCEval(L!Restart(r.p, x))
      \* tracking the grains when they are loaded counts if they were due and the mesh is not adapted first
      s == IF s0.fG /\ ~s0.fA /\ At(E, 3) # "gt" THEN [s0 EXCEPT !.fG = FALSE] ELSE s0
      X == L!RestartEvents(r.p, s)
      v == Seen(r, x)
  IN IF ~Match(X, E, 1) THEN Bad
     ELSE IF s.bad /\ L!HasGT(r.p) THEN [ok |-> At(E, Len(X) + 1) = "exc" /\ Len(E) = Len(X) + 1, m |-> m]
     ELSE LET y == Loop(r, E, [k \in DOMAIN s \ {"view", "next", "adapt", "order", "full"} |-> s[k]], Len(X) + 1, 1, IF s.fA /\ ~r.static THEN Unknown ELSE v, m, {})
              q == SelectSeq(E, LAMBDA e : e.k = "solve")
          IN [y EXCEPT !.ok = @ /\ (q = <<>> \/ IF Agrees(v, q[1]) THEN TRUE ELSE PrintT(<<"EXPECTED", v, "OBSERVED", q[1]>>) /\ FALSE)]
RECURSIVE Runs(_, _, _)
Runs(c, i, m) ==
  i > Len(c.runs) \/
  LET r == c.runs[i]
      y == TLCEval(IF r.from < 0 THEN Fresh(r, c.obs[i], m) ELSE Again(r, c.obs[i], m))
  IN y.ok /\ ("stop" \in DOMAIN y \/ Runs(c, i + 1, y.m))
OK(c) == "obs" \in DOMAIN c /\ Len(c.obs) = Len(c.runs) /\ Runs(c, 1, [x \in {} |-> 0])
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
