---------------------------- MODULE GrainTracker ----------------------------
(***************************************************************************)
(* The grain tracker as a state machine over a row of nodes 0..N: a field   *)
(* of every order parameter (the set of nodes above the threshold), the     *)
(* registry of grains and the three phases of a tracking step: Track gives  *)
(* identities, Reassign gives new order parameters, Remap moves the fields. *)
(* In between, the physics (Evolve) moves, grows, shrinks, splits, merges,  *)
(* nucleates and dissolves grains.                                          *)
(* The behaviours of this machine (hist) are replayed into the real tracker.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, NOps, MaxOps, MaxSteps, Allow, Buf, Emit
VARIABLES f, reg, phase, steps, hist
vars == <<f, reg, phase, steps, hist>>
Ops == 0..(MaxOps - 1)
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x

\* nodes a, b lie in one region: a cell is in the region when one of its two nodes is
Runs(S) == {R \in SUBSET S : R # {} /\ LET a == Min(R) b == Max(R) IN
              /\ R = S \cap (a..b) /\ \A x \in a..(b - 1) : x \in R \/ x + 1 \in R
              /\ {a - 1, a - 2, b + 1, b + 2} \cap S = {}}
Lo(R) == IF Min(R) = 0 THEN 0 ELSE Min(R) - 1
Hi(R) == IF Max(R) = N THEN N ELSE Max(R) + 1
Ctr2(R) == Lo(R) + Hi(R)                  \* twice the centre
Len2(R) == Hi(R) - Lo(R)                  \* twice the radius
Dist(R, Q) == Abs(Ctr2(R) - Ctr2(Q))
Touch(R, Q) == Dist(R, Q) <= Len2(R) + Len2(Q)
CloseBy(R, Q) == Dist(R, Q) <= Len2(R) + Len2(Q) + 2 * Buf
Seen == UNION {{[op |-> b, n |-> R] : R \in Runs(f[b])} : b \in Ops}

TypeOK == /\ f \in [Ops -> SUBSET (0..N)]
          /\ phase \in {"evolve", "tracked", "assigned", "done", "refused"}

Init == /\ f \in [Ops -> SUBSET (0..N)]
        /\ \A b \in Ops : b >= NOps => f[b] = {}
        /\ reg = {} /\ phase = "evolve" /\ steps = 0 /\ hist = <<>>

(* ------------------------------- identities ----------------------------- *)
Nearest(x, S, key(_)) == {y \in S : \A z \in S : key(y) <= key(z)}
Cand(s) == {g \in reg : g.op = s.op /\ Touch(g.n, s.n)}
\* every way of resolving ties: claims, then one winner per old grain
Matchings ==
  LET claim(s) == LET k(g) == Dist(g.n, s.n) IN Nearest(s, Cand(s), k)
      C == {s \in Seen : Cand(s) # {}}
  IN {m \in [C -> {g.id : g \in reg} \cup {-1}] :
       /\ \A s, t \in C : s # t /\ m[s] # -1 => m[s] # m[t]
       /\ \A s \in C : m[s] # -1 => \E g \in claim(s) : g.id = m[s]
       /\ \A s \in C : m[s] = -1 => \E g \in claim(s) : \E t \in C : t # s /\ m[t] = g.id /\ Dist(g.n, t.n) <= Dist(g.n, s.n)}
NextId == IF reg = {} THEN 0 ELSE Max({g.id : g \in reg}) + 1
Numberings(U) == {p \in [U -> NextId..(NextId + Cardinality(U) - 1)] : \A x, y \in U : x # y => p[x] # p[y]}
SomeNumbering(U) == CHOOSE p \in Numberings(U) : TRUE

Track ==
  /\ phase = "evolve"
  /\ \E m \in (IF steps = 0 THEN {[s \in {} |-> -1]} ELSE Matchings) :
       LET U == {s \in Seen : s \notin DOMAIN m \/ m[s] = -1} IN
       IF steps > 0 /\ ~Allow /\ U # {}
       THEN /\ phase' = "refused" /\ hist' = Append(hist, [a |-> "track", f |-> f, col |-> {}])
            /\ UNCHANGED <<f, reg, steps>>
       ELSE LET p == SomeNumbering(U)
                id(s) == IF s \in U THEN p[s] ELSE m[s]
            IN /\ reg' = {[id |-> id(s), op |-> s.op, old |-> s.op, n |-> s.n] : s \in Seen}
               /\ phase' = "tracked" /\ hist' = Append(hist, [a |-> "track", f |-> f, col |-> {}])
               /\ UNCHANGED <<f, steps>>

(* ------------------------------ reassignment ---------------------------- *)
Collide == {p \in reg \X reg : p[1].id < p[2].id /\ CloseBy(p[1].n, p[2].n)}
Colourings == {c \in [reg -> Ops] :
                 /\ \A p \in Collide : c[p[1]] # c[p[2]]
                 /\ \E k \in 0..MaxOps : {c[g] : g \in reg} = 0..(k - 1)}
Needed == \/ \E p \in Collide : p[1].op = p[2].op
          \/ \A k \in 0..MaxOps : {g.op : g \in reg} # 0..(k - 1)
Reassign ==
  /\ phase = "tracked"
  /\ \E c \in IF Needed THEN Colourings ELSE {[g \in reg |-> g.op]} :
       /\ reg' = {[g EXCEPT !.op = c[g]] : g \in reg}
       /\ hist' = Append(hist, [a |-> "assign", f |-> f, col |-> {<<g.old, Min(g.n), c[g]>> : g \in reg}])
  /\ phase' = "assigned"
  /\ UNCHANGED <<f, steps>>
TooMany == /\ phase = "tracked" /\ Needed /\ Colourings = {} /\ phase' = "refused" /\ UNCHANGED <<f, reg, steps, hist>>

Remap ==
  /\ phase = "assigned"
  /\ f' = [b \in Ops |-> UNION {g.n : g \in {h \in reg : h.op = b}}]
  /\ phase' = IF steps + 1 = MaxSteps THEN "done" ELSE "evolve"
  /\ steps' = steps + 1
  /\ UNCHANGED <<reg, hist>>

Settled == f = [b \in Ops |-> UNION {g.n : g \in {h \in reg : h.op = b}}]

(* -------------------------------- physics ------------------------------- *)
Moves(g) == {{x + 1 : x \in g.n} \cap (0..N), {x - 1 : x \in g.n} \cap (0..N), g.n \ {Min(g.n)}, g.n \ {Max(g.n)},
             g.n \cup ({Max(g.n) + 1} \cap (0..N)), g.n \cup ({Min(g.n) - 1} \cap (0..N))}
            \cup {g.n \ {x} : x \in g.n}
Evolve ==
  /\ phase = "evolve" /\ steps > 0
  /\ \/ \E g \in reg : \E S \in Moves(g) : f' = [f EXCEPT ![g.op] = (@ \ g.n) \cup S]
     \/ \E b \in Ops : \E x \in (0..N) \ f[b] : f' = [f EXCEPT ![b] = @ \cup {x}]
  /\ UNCHANGED <<reg, phase, steps, hist>>
\* at most one change between two steps
Next == Track \/ Reassign \/ TooMany \/ Remap \/ (Settled /\ Evolve)
Spec == Init /\ [][Next]_vars
View == <<f, reg, phase, steps>>

(* ------------------------------- guarantees ----------------------------- *)
UniqueIds == \A g, h \in reg : g.id = h.id => g = h
Faithful == phase \in {"tracked", "assigned"} => {[op |-> g.old, n |-> g.n] : g \in reg} = Seen
AfterRemap == (steps > 0 /\ phase \in {"evolve", "done"}) /\ Settled =>
                /\ {[op |-> g.op, n |-> g.n] : g \in reg} = Seen     \* nothing merged, nothing lost
                /\ \A g, h \in reg : g.id # h.id /\ CloseBy(g.n, h.n) => g.op # h.op
                /\ \E k \in 0..MaxOps : {g.op : g \in reg} = 0..(k - 1)
Conserved == [][phase = "assigned" /\ phase' \in {"evolve", "done"} =>
                  /\ UNION {f'[b] : b \in Ops} = UNION {f[b] : b \in Ops}
                  /\ \A b \in Ops : \A R \in Runs(f[b]) : \E c \in Ops : R \in Runs(f'[c])]_vars
IdsKept == [][phase = "evolve" /\ phase' = "tracked" =>
                \A g \in reg' : \/ \E h \in reg : h.id = g.id /\ h.op = g.op /\ Touch(h.n, g.n)
                                \/ \A h \in reg : g.id > h.id]_vars
\* emit the behaviour when it is over
Done == IF Emit /\ phase \in {"done", "refused"} THEN PrintT(<<"HIST", ToJson(hist)>>) ELSE TRUE
=============================================================================
