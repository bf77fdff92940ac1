------------------------------ MODULE TimeLoop ------------------------------
(***************************************************************************)
(* C11, C12: the time loop of a sintering run. Times are integers. The     *)
(* state after k accepted steps is                                         *)
(*   t, dt, n      time, step to be tried next, number of accepted steps   *)
(*   hist, ds      states at the last accepted times and step sizes        *)
(*                 (newest first, ds[1] = dt)                              *)
(*   amr, gt       step of the last mesh adaptation and grain tracking     *)
(*   fA, fG        adaptation / tracking due before the next step          *)
(*   red           the mesh has been made coarser once                     *)
(*   lastOut, outs time of the last output, number of outputs              *)
(*   rc            checkpoints written                                     *)
(*   ps            the predicate that triggers checkpoints                 *)
(*   nl, failed, mx  counters for the final statistics                     *)
(*   mode          "run", "done" or "error"                                *)
(* The solver is the environment: an outcome is                            *)
(*   [k |-> "c", it |-> n, s |-> s]   converged after n iterations to s    *)
(*   [k |-> "f"]                      did not converge                     *)
(*   [k |-> "g", it |-> n, s |-> s]   converged to a state with a grain    *)
(*                                    which was not there before           *)
(* together with low: the quality of the mesh is below the threshold.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
PT == INSTANCE TimerPredicate WITH Kinds <- {}, Starts <- {}, Ivs <- {}, MaxT <- 0, MaxQ <- 0, kind <- 0, start <- 0, iv <- 0, s <- 0, now <- 0, clock <- 0, fired <- 0, log <- 0
Clamp(p, t, d) == IF t + d > p.end THEN p.end - t ELSE d
First(s, k) == SubSeq(s, 1, Mn(Len(s), k))
HasGT(p) == p.gtf > 0 \/ (p.quality /\ p.tq) \/ p.reqout \/ p.incons

\* the restart predicate of a run that begins after n steps, at time t
Pred(p, n, t) == PT!Fresh(p.rtype, IF p.rtype = "n_calls" THEN 16 * n ELSE t)
RInt(p) == IF p.rtype = "n_calls" THEN 16 * p.rint ELSE p.rint

\* a run from the beginning; s0 is the initial state
Begin(p, s0) ==
  LET d == Clamp(p, p.start, p.dt0) IN
  [t |-> p.start, dt |-> d, n |-> 0, hist |-> <<s0>>, ds |-> <<d>>, amr |-> 0, gt |-> 0,
   fA |-> FALSE, fG |-> FALSE, red |-> FALSE, lastOut |-> 0, outs |-> IF p.outint > 0 THEN 1 ELSE 0, rc |-> 0,
   ps |-> Pred(p, 0, p.start), nl |-> 0, failed |-> 0, mx |-> 0, bad |-> FALSE, mode |-> IF p.start = p.end THEN "done" ELSE "run"]
\* what happens before the first step of such a run
BeginEvents(p, s) == (IF HasGT(p) THEN <<[k |-> "gt", init |-> 1]>> ELSE <<>>)
                     \o (IF p.outint > 0 THEN <<[k |-> "out", t |-> p.start, no |-> 0]>> ELSE <<>>)

\* a run that continues from a checkpoint x, maybe with other parameters or another scheme
Restart(p, x) ==
  LET full == x.full
      h == IF full THEN First(x.hist, p.order) ELSE <<x.hist[1]>>
      d == Clamp(p, x.t, x.dt)
      e == IF full THEN <<d>> \o SubSeq(First(x.ds, Mn(p.order, x.order)), 2, Mn(Len(x.ds), Mn(p.order, x.order))) ELSE <<d>>
  IN [x EXCEPT !.hist = h, !.ds = e, !.dt = d, !.ps = Pred(p, x.n, x.t), !.mode = IF x.t = p.end THEN "done" ELSE "run"]
RestartEvents(p, x) == <<[k |-> "load", t |-> x.t]>> \o (IF HasGT(p) THEN <<[k |-> "gt", init |-> 0]>> ELSE <<>>)

\* due work before a step: the mesh, then the grains
Before(s) == [s EXCEPT !.amr = IF s.fA THEN s.n ELSE @, !.gt = IF s.fG THEN s.n ELSE @, !.mode = IF s.fG /\ s.bad THEN "error" ELSE @]
BeforeEvents(s) == (IF s.fA THEN <<[k |-> "amr"]>> ELSE <<>>) \o (IF s.fG THEN <<[k |-> "gt", init |-> 0]>> ELSE <<>>)

\* the number of old states the scheme uses now
Order(p, s) == Mn(p.order, Len(s.ds))
\* with the linear predictor the solver starts from the last two states, extrapolated in time
Extrapolates(p, s) == p.pred = "Linear" /\ p.order > 1 /\ Len(s.ds) > 1 /\ Len(s.hist) > 1
SolveEvent(p, s) == [k |-> "solve", s |-> s.hist[1], pred |-> Extrapolates(p, s), ds |-> First(s.ds, Order(p, s)), hist |-> First(s.hist, Order(p, s))]

Fail(p, s) ==
  LET d == s.dt \div 2 IN
  [s EXCEPT !.dt = d, !.ds[1] = d, !.fA = FALSE, !.fG = FALSE, !.failed = @ + 1, !.mode = IF d <= p.dmin THEN "error" ELSE "run"]
FailEvents(p, s) == <<[k |-> "fail", dt |-> s.dt \div 2]>>

Good(p, o) == o.it < p.dn
IsLast(p, t) == t = p.end
ExtraC(p, s, o) == Good(p, o) /\ p.extra /\ ~p.quality /\ ~s.red
DueAmr(p, s, o, low) == ExtraC(p, s, o) \/ (IF p.quality THEN low ELSE p.amrf > 0 /\ (s.n + 1 - s.amr) % p.amrf = 0)
DueGt(p, s, a) == \/ a /\ p.quality /\ p.tq
                  \/ a /\ p.reqout
                  \/ p.gtf > 0 /\ (s.n + 1 - s.gt) % p.gtf = 0
Grow(p, o) == Good(p, o) /\ p.gn > p.gd
\* the step after an accepted one
NextDt(p, s, o) ==
  LET t == s.t + s.dt
      g == IF Grow(p, o) THEN Mn((s.dt * p.gn) \div p.gd, p.dmax) ELSE s.dt
  IN IF IsLast(p, t) THEN s.dt ELSE Clamp(p, t, g)
\* the next step is a whole number of units
Exact(p, s, o) == IF o.k = "f" THEN s.dt % 2 = 0 ELSE s.dt % 2 = 0 /\ (Grow(p, o) => (s.dt * p.gn) % p.gd = 0)
\* the tracker runs within the step and refuses the result
Refused(p, s, o) == o.k = "g" /\ p.incons /\ ~IsLast(p, s.t + s.dt)
Refuse(p, s, o) == [Fail(p, s) EXCEPT !.red = @ \/ ExtraC(p, s, o)]
Accept(p, s, o, low) ==
  LET t == s.t + s.dt
      last == IsLast(p, t)
      a == ~last /\ DueAmr(p, s, o, low)
      g == ~last /\ (IF p.incons THEN a /\ ((p.quality /\ p.tq) \/ p.reqout) ELSE DueGt(p, s, a))
      d == NextDt(p, s, o)
      out == p.outint > 0 /\ (t >= p.outint + s.lastOut \/ last)
      fire == ~last /\ PT!Fires(p.rtype, RInt(p), s.ps, t, 0)
  IN [s EXCEPT !.t = t, !.n = @ + 1, !.dt = d, !.fA = a, !.fG = g,
               !.gt = IF p.incons /\ ~last THEN s.n + 1 ELSE @,
               !.red = @ \/ (~last /\ ExtraC(p, s, o)),
               !.hist = First(<<o.s>> \o @, p.order), !.ds = First(<<d>> \o @, p.order),
               !.lastOut = IF out THEN t ELSE @, !.outs = IF out THEN @ + 1 ELSE @,
               !.rc = IF last \/ fire THEN @ + 1 ELSE @,
               !.ps = IF last THEN @ ELSE PT!After(p.rtype, RInt(p), s.ps, t, 0),
               !.nl = @ + o.it, !.mx = Mx(@, s.dt), !.bad = @ \/ o.k = "g",
               !.mode = IF last THEN "done" ELSE "run"]
Slot(p, s) == IF p.rmax > 0 THEN s.rc % p.rmax ELSE s.rc
\* events of an accepted step; y is the state after it
AcceptEvents(p, s, o, y) ==
     (IF ~IsLast(p, y.t) /\ ExtraC(p, s, o) THEN <<[k |-> "coarser"]>> ELSE <<>>)
  \o (IF ~IsLast(p, y.t) /\ p.incons THEN <<[k |-> "gt", init |-> 0]>> ELSE <<>>)
  \o <<[k |-> "step", t |-> y.t, n |-> y.n, dt |-> s.dt, nl |-> o.it]>>
  \o (IF ~IsLast(p, y.t) /\ Grow(p, o) THEN <<[k |-> "grow", dt |-> (s.dt * p.gn) \div p.gd]>> ELSE <<>>)
  \o (IF y.outs > s.outs THEN <<[k |-> "out", t |-> y.t, no |-> s.outs]>> ELSE <<>>)
  \o (IF y.rc > s.rc THEN <<[k |-> "save", t |-> y.t, slot |-> Slot(p, s)]>> ELSE <<>>)
RefusedEvents(p, s, o) ==
     (IF ExtraC(p, s, o) THEN <<[k |-> "coarser"]>> ELSE <<>>) \o <<[k |-> "gt", init |-> 0]>> \o FailEvents(p, s)
EndEvents(s) == IF s.mode = "done" THEN <<[k |-> "end", n |-> s.n, nl |-> s.nl, max |-> s.mx, failed |-> s.failed]>> ELSE <<[k |-> "exc"]>>
=============================================================================
