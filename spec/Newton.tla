------------------------------- MODULE Newton -------------------------------
(* C13: the (damped) Newton solver as a machine which reacts to the answers *)
(* of its environment: residual norms, linear iterations, verdicts of the   *)
(* optional status callback. x is the iterate: x[k] = step length exponent  *)
(* of the k-th Newton update (step 2^-x[k] along its direction).            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Cfgs, Norms, Lins, MaxCalls, MaxSolves, Simulate
VARIABLES cfg, st, log, cnt

\* cfg: max, abs, rel (1/1024), damp, upd, pre, tn, tl, reuse, cb
Fresh == [pc |-> "idle", it |-> 0, nr |-> 0, n0 |-> 0, k |-> 0, hist |-> 0, lin |-> 0, x |-> <<>>, s1 |-> 0, call |-> <<"none">>, res |-> "none", cp |-> 0]
Throw == -1
NaN == -2
Big == 1000000
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* trial k (omega = 2^-(k-1)) is not good enough: n >= (1 - 0.1 omega / 2) nr
NotLess(n, nr, k) == IF k > 12 THEN n >= nr ELSE n * 10 * Pow2(k) >= (10 * Pow2(k) - 1) * nr
\* 0 iterate, 1 success, 2 failure
Status(c, it, n, n0) == IF n = NaN THEN 2 ELSE IF n <= c.abs \/ n * 1024 <= c.rel * n0 THEN 1 ELSE IF it < c.max THEN 0 ELSE 2
Combine(a, b) == IF a = 2 \/ b = 2 THEN 2 ELSE IF a = 0 \/ b = 0 THEN 0 ELSE 1
Finish(s, r) == [s EXCEPT !.pc = "idle", !.res = r, !.call = <<"none">>]
Decide(c, s, v) == IF v = 1 THEN Finish(s, "ok") ELSE IF v = 2 THEN Finish(s, "newton")
                   ELSE [s EXCEPT !.pc = "J", !.call = <<"J", s.x>>]
Check(c, s) == LET s1 == Status(c, s.it, s.nr, s.n0)
                   t == [s EXCEPT !.s1 = s1] IN
               IF c.cb THEN [t EXCEPT !.pc = "C", !.call = <<"C", s.it, s.nr>>] ELSE Decide(c, t, s1)
ToSolve(s) == [s EXCEPT !.pc = "S", !.call = <<"S", s.nr>>]
NeedsPre(c, s) == c.pre /\ c.upd /\ (s.hist % c.tn = 0 \/ s.lin > c.tl)
Clear(s) == [s EXCEPT !.hist = 0, !.lin = 0]
Begin(c, s) == LET t == IF c.reuse THEN s ELSE Clear(s)
               IN [t EXCEPT !.pc = "R0", !.it = 0, !.x = <<>>, !.res = "none", !.call = <<"R", <<>>>>]
React(c, s, a) ==
  CASE a = Throw -> Finish(s, "exc")
    [] s.pc = "R0" -> Check(c, [s EXCEPT !.nr = a, !.n0 = a])
    [] s.pc = "C" -> Decide(c, s, Combine(s.s1, a))
    [] s.pc = "J" -> IF NeedsPre(c, s) THEN [s EXCEPT !.pc = "P", !.call = <<"P", s.x>>] ELSE ToSolve(s)
    [] s.pc = "P" -> ToSolve(s)
    [] s.pc = "S" -> IF c.damp THEN [s EXCEPT !.lin = a, !.k = 1, !.pc = "T", !.call = <<"R", Append(s.x, 0)>>]
                     ELSE [s EXCEPT !.lin = a, !.x = Append(@, 0), !.pc = "U", !.call = <<"R", Append(s.x, 0)>>]
    [] s.pc = "U" -> Check(c, [s EXCEPT !.nr = a, !.it = @ + 1, !.hist = @ + 1])
    [] s.pc = "T" -> IF a = NaN THEN Finish(s, "damping") ELSE IF ~NotLess(a, s.nr, s.k)
                     THEN Check(c, [s EXCEPT !.x = Append(@, s.k - 1), !.nr = a, !.it = @ + 1, !.hist = @ + 1])
                     ELSE IF s.k < 100 THEN [s EXCEPT !.k = @ + 1, !.call = <<"R", Append(s.x, s.k)>>]
                     ELSE Finish(s, "damping")

\* ------------------------------ environment ------------------------------
Answers(s) == CASE s.call[1] = "R" -> Norms [] s.call[1] = "S" -> Lins \cup {Throw} [] s.call[1] = "C" -> {0, 1, 2} [] OTHER -> {0}
Init == cfg \in (IF Simulate THEN {RandomElement(Cfgs)} ELSE Cfgs) /\ st = Fresh /\ log = <<>> /\ cnt = [calls |-> 0, solves |-> 0, since |-> 0, pres |-> 0]
Solve == /\ st.pc = "idle" /\ cnt.solves < MaxSolves
         /\ st' = Begin(cfg, st)
         /\ cnt' = [cnt EXCEPT !.solves = @ + 1, !.pres = IF cfg.reuse THEN @ ELSE 0, !.calls = 0]
         /\ log' = Append(log, <<"solve">>) /\ UNCHANGED cfg
DoClear == /\ st.pc = "idle" /\ cnt.solves < MaxSolves /\ log # <<>> /\ log[Len(log)][1] # "clear"
           /\ st' = Clear(st) /\ cnt' = [cnt EXCEPT !.pres = 0] /\ log' = Append(log, <<"clear">>) /\ UNCHANGED cfg
Answer(a) == /\ st' = TLCEval(React(cfg, st, a))
             /\ log' = Append(log, <<"a", a>>)
             /\ cnt' = [cnt EXCEPT !.calls = @ + 1,
                          !.pres = IF st.pc = "P" THEN 1 ELSE @,
                          !.since = IF st.pc = "P" THEN 0 ELSE IF st'.hist > st.hist THEN @ + 1 ELSE @]
             /\ UNCHANGED cfg
Respond == st.pc # "idle" /\ cnt.calls < MaxCalls /\ \E a \in (IF Simulate THEN {RandomElement(Answers(st))} ELSE Answers(st)) : Answer(a)
Next == Solve \/ DoClear \/ Respond
Spec == Init /\ [][Next]_<<cfg, st, log, cnt>>
View == <<cfg, st, cnt>>
\* ------------------------------ guarantees -------------------------------
Met(n) == n >= 0 /\ (n <= cfg.abs \/ n * 1024 <= cfg.rel * st.n0)
Truthful == /\ st.res = "ok" => Met(st.nr)
            /\ st.res = "newton" => (cfg.cb \/ (~Met(st.nr) /\ st.it = cfg.max))
            /\ cfg.cb \/ st.it <= cfg.max
Descends == [][cfg.damp /\ st.pc = "T" /\ st'.it > st.it => st'.nr < st.nr]_<<cfg, st, log, cnt>>
\* a failed solve never leaves a rejected trial behind
BestIterate == [][st'.res = "damping" /\ st.pc = "T" => st'.x = st.x]_<<cfg, st, log, cnt>>
\* when a linear system is solved, the preconditioner is at most tn - 1 Newton steps old
PreFresh == cfg.pre /\ cfg.upd /\ st.pc = "S" => cnt.pres = 1 /\ cnt.since <= cfg.tn - 1
\* a long linear solve forces an update
PreAfterLong == [][cfg.pre /\ cfg.upd /\ st.pc = "J" /\ st.lin > cfg.tl => st'.pc = "P"]_<<cfg, st, log, cnt>>
Done == IF Simulate /\ st.pc = "idle" /\ cnt.solves = MaxSolves THEN PrintT(<<"HIST", ToJson([c |-> cfg, log |-> log])>>) ELSE TRUE
=============================================================================
