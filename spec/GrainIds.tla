------------------------------ MODULE GrainIds ------------------------------
(***************************************************************************)
(* Transfer of grain identities between two tracking snapshots (C01).      *)
(*                                                                         *)
(* A grain is [id, op, segs], a segment [c, r] with an integer centre and  *)
(* radius. The relation Acceptable says which new->old maps are correct;   *)
(* it mentions neither the order in which grains are visited nor how       *)
(* candidates are searched. The state machine (Init/Next) is the           *)
(* sequential algorithm: it visits the new grains in an arbitrary order,   *)
(* picks any nearest old grain and overrides an existing mapping when the  *)
(* new candidate is nearer; Refines says every run ends in Acceptable.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == -1

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE SumSq(_, _, _)
SumSq(a, b, d) == IF d = 0 THEN 0 ELSE (a[d] - b[d]) * (a[d] - b[d]) + SumSq(a, b, d - 1)
Dist2(s, t) == SumSq(s.c, t.c, Len(s.c))
Touch(s, t) == \A d \in 1..Len(s.c) : Abs(s.c[d] - t.c[d]) <= s.r + t.r

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Pairs(g, o) == {p \in (1..Len(g.segs)) \X (1..Len(o.segs)) : Touch(g.segs[p[1]], o.segs[p[2]])}
Cands(g, Old) == {o \in Old : o.op = g.op /\ Pairs(g, o) # {}}
CandDist(g, o) == MinOf({Dist2(g.segs[p[1]], o.segs[p[2]]) : p \in Pairs(g, o)})
Best(g, Old) == LET C == Cands(g, Old) IN
  {o \in C : \A q \in C : CandDist(g, o) <= CandDist(g, q)}
CenterDist(o, g) == MinOf({Dist2(o.segs[p[1]], g.segs[p[2]]) : p \in (1..Len(o.segs)) \X (1..Len(g.segs))})

\* m : new id -> old id or None
Acceptable(m, New, Old) ==
  /\ DOMAIN m = {g.id : g \in New}
  /\ \A g \in New : m[g.id] # None => \E o \in Best(g, Old) : o.id = m[g.id]
  /\ \A g, h \in New : g.id # h.id /\ m[g.id] # None => m[g.id] # m[h.id]
  /\ \A g \in New : m[g.id] = None =>
        \/ Best(g, Old) = {}
        \/ \E o \in Best(g, Old) : \E w \in New :
             w.id # g.id /\ m[w.id] = o.id /\ CenterDist(o, w) <= CenterDist(o, g)

(* ---------------- the sequential algorithm over a small universe ---------------- *)
CONSTANTS Pos, Rad, NOld, NNew, MaxSegs, Ops
VARIABLES new, old, todo, n2o

SmallSeg == {[c |-> <<x>>, r |-> r] : x \in Pos, r \in Rad}
SmallSegs == {<<s>> : s \in SmallSeg}
               \cup (IF MaxSegs >= 2 THEN {p \in SmallSeg \X SmallSeg : p[1].c[1] < p[2].c[1]} ELSE {})
Grains(n, first) == {S \in [1..n -> [op : Ops, segs : SmallSegs]] : TRUE}
Mk(f, first) == {[id |-> first + i, op |-> f[i].op, segs |-> f[i].segs] : i \in DOMAIN f}

Init == /\ \E f \in [1..NOld -> [op : Ops, segs : SmallSegs]] : old = Mk(f, 10)
        /\ \E f \in [1..NNew -> [op : Ops, segs : SmallSegs]] : new = Mk(f, 0)
        /\ todo = {g.id : g \in new}
        /\ n2o = [i \in {g.id : g \in new} |-> None]

Visit(g) ==
  /\ g.id \in todo
  /\ todo' = todo \ {g.id}
  /\ IF Best(g, old) = {} THEN n2o' = n2o
     ELSE \E o \in Best(g, old) :
       LET holders == {h \in new : n2o[h.id] = o.id} IN
       IF holders = {} THEN n2o' = [n2o EXCEPT ![g.id] = o.id]
       ELSE LET h == CHOOSE h \in holders : TRUE IN
            IF CenterDist(o, g) < CenterDist(o, h)
            THEN n2o' = [n2o EXCEPT ![g.id] = o.id, ![h.id] = None]
            ELSE n2o' = n2o
  /\ UNCHANGED <<new, old>>

Next == \E g \in new : Visit(g)
Spec == Init /\ [][Next]_<<new, old, todo, n2o>>

Injective == \A a, b \in DOMAIN n2o : a # b /\ n2o[a] # None => n2o[a] # n2o[b]
SameOp == \A g \in new : n2o[g.id] # None => \E o \in old : o.id = n2o[g.id] /\ o.op = g.op
Refines == todo = {} => Acceptable(n2o, new, old)
\* a grain that is the only one near an old grain, and only near it, keeps its identity
Undisturbed == todo = {} => \A g \in new, o \in old :
   (Cands(g, old) = {o} /\ \A h \in new : h.id # g.id => o \notin Cands(h, old)) => n2o[g.id] = o.id
=============================================================================
