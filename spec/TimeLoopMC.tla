----------------------------- MODULE TimeLoopMC -----------------------------
(* All sequences of solver outcomes for a set of configurations, with a     *)
(* twin that was restarted from one of the checkpoints and sees the same    *)
(* outcomes.                                                                *)
EXTENDS TimeLoop, FiniteSets
CONSTANTS End, Dt0s, Dmin, Dmax, Rtypes, Full, MaxFail
VARIABLES p, st, tw, acc, fails
vars == <<p, st, tw, acc, fails>>
None == [mode |-> "none"]
P(d0, g, order, amrf, gtf, incons, extra, quality, req, rt, rint, rmax, out) ==
  [start |-> 0, end |-> End, dt0 |-> d0, dmin |-> Dmin, dmax |-> Dmax, gn |-> g[1], gd |-> g[2], dn |-> 5, order |-> order,
   amrf |-> amrf, gtf |-> gtf, incons |-> incons, extra |-> extra, quality |-> quality, tq |-> quality, reqout |-> req,
   rtype |-> rt, rint |-> rint, rmax |-> rmax, outint |-> out]
Init == /\ \E d0 \in Dt0s, g \in {<<2, 1>>, <<3, 2>>, <<1, 1>>}, order \in {1, 3}, amrf \in {0, 2}, gtf \in {0, 3}, v \in {"plain", "incons", "extra", "quality", "req"}, rt \in Rtypes :
             p = P(d0, g, order, amrf, gtf, v = "incons", v = "extra", v = "quality", v = "req", rt, IF rt = "n_calls" THEN 2 ELSE 5, 0, 6)
        /\ st = Begin(p, 0) /\ tw = None /\ acc = 0 /\ fails = 0
Outcomes(s) == {[k |-> "c", it |-> 1, s |-> s.n + 1], [k |-> "c", it |-> 9, s |-> s.n + 1]}
               \cup (IF fails < MaxFail THEN {[k |-> "f"], [k |-> "g", it |-> 1, s |-> s.n + 1]} ELSE {})
Next1(s0, o, low) ==
  LET s == Before(s0) IN
  IF s.mode # "run" THEN s
  ELSE IF o.k = "f" THEN Fail(p, s)
  ELSE IF Refused(p, s, o) THEN Refuse(p, s, o)
  ELSE Accept(p, s, o, low)
Saved(x) == x @@ [full |-> Full, order |-> p.order]
Seen(s) == IF p.rtype = "n_calls" THEN s.ps.calls ELSE IF p.rtype = "simulation_time" THEN s.ps.last ELSE 0
Core(s) == [k \in (DOMAIN s \ {"full", "order"}) \ (IF Full THEN {} ELSE {"hist", "ds"}) |-> IF k = "ps" THEN Seen(s) ELSE s[k]]
Next == /\ st.mode = "run"
        /\ \E o \in Outcomes(st), low \in (IF p.quality THEN BOOLEAN ELSE {FALSE}) :
             /\ st' = Next1(st, o, low)
             /\ acc' = IF st'.n > st.n THEN acc + st.dt ELSE acc
             /\ fails' = IF o.k \in {"f", "g"} THEN fails + 1 ELSE fails
             /\ \/ tw' = IF tw.mode = "run" THEN Next1(tw, o, low) ELSE tw
                \/ tw = None /\ st'.rc > st.rc /\ st'.mode = "run" /\ tw' = Restart(p, Saved(st'))
        /\ UNCHANGED p
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* time is the sum of the accepted steps
Time == st.t = p.start + acc
\* the next step is positive, within its bounds, and never goes past the end
Bounds == /\ st.t <= p.end
          /\ st.mode = "run" => st.dt > 0 /\ st.t + st.dt <= p.end /\ st.dt <= Mx(p.dt0, p.dmax)
          /\ st.ds[1] = st.dt
\* a run ends at its end or because the step cannot be reduced any more (or the grains cannot be tracked)
Ends == /\ st.mode = "done" <=> st.t = p.end
        /\ st.mode = "error" => st.dt <= p.dmin \/ st.bad
        /\ st.dt <= p.dmin /\ st.n = 0 => st.failed = 0 \/ st.mode = "error"
\* work is done when due
Frequencies == /\ p.amrf > 0 /\ ~p.quality => st.n - st.amr <= p.amrf /\ (st.n - st.amr = p.amrf /\ st.mode = "run" => st.fA \/ st.failed > 0)
               /\ p.gtf > 0 => st.n - st.gt <= p.gtf
               /\ p.incons /\ st.mode = "run" => st.gt = st.n
               /\ p.outint > 0 => st.t - st.lastOut < p.outint + Mx(p.dt0, p.dmax)
\* the states used are those of the last accepted times
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
History == /\ Len(st.hist) = Len(st.ds) \/ st.mode # "run" \/ st.n + 1 < p.order
           /\ Len(st.hist) = Mn(p.order, st.n + 1)
           /\ \A i \in DOMAIN st.hist : st.hist[i] = st.n + 1 - i
           /\ Sum(st.ds, 2) <= st.t
\* a restarted run cannot be told from the one that was not interrupted
Twin == tw.mode # "none" => Core(tw) = Core(st)
Ended == <>(st.mode # "run")
=============================================================================
