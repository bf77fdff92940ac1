---------------------------- MODULE ParticlesMC ----------------------------
(* Particles are placed one after another anywhere on a small grid and then   *)
(* coloured in any order with the smallest order parameter that is free.      *)
EXTENDS Particles
CONSTANTS L, MaxP, Radii, B2, U
VARIABLES P, ops
Init == P = <<>> /\ ops = <<>>
Coloured == UNION {ops[k] : k \in DOMAIN ops}
Ok(i, j) == Sq(P[i].r - P[j].r) < D2(P[i].c, P[j].c)
Place == /\ Coloured = {} /\ Len(P) < MaxP
         /\ \E x \in 0..L, y \in 0..L, r \in Radii :
              LET q == [c |-> <<x, y, 0>>, r |-> r]
              IN (\A i \in DOMAIN P : Sq(P[i].r - r) < D2(P[i].c, q.c)) /\ P' = Append(P, q)
         /\ UNCHANGED ops
Colour == \E i \in DOMAIN P \ Coloured :
            LET F == {k \in DOMAIN ops : \A j \in ops[k] : ~Close(P, i, j, B2)}
            IN ops' = (IF F = {} THEN Append(ops, {i}) ELSE [ops EXCEPT ![MinS(F)] = @ \cup {i}])
         /\ UNCHANGED P
Next == Place \/ Colour
Spec == Init /\ [][Next]_<<P, ops>>
Apart == Separates(P, ops, B2)
Few == P # <<>> => Frugal(P, ops, B2)
Points == {<<x, y, 0>> : x \in (0 - 2)..(L + 2), y \in (0 - 2)..(L + 2)}
\* the cut between two particles is the same seen from both, and no point belongs to both beyond the interface
Cut == \A i, j \in DOMAIN P : Contact(P, i, j) => \A p \in Points :
         LET a == Value(P, i, p, U, 0)  b == Value(P, j, p, U, 0)
         IN (a >= 0 /\ b >= 0) => (a + b <= One + 1 \/ ~Above(p, P[i].c, P[i].r, U, 0) \/ ~Above(p, P[j].c, P[j].r, U, 0))
\* closest pairs in one order parameter do not overlap anywhere
Disjoint == Coloured = DOMAIN P => \A k \in DOMAIN ops : \A i, j \in ops[k] : i # j => \A p \in Points :
              Value(P, i, p, U, 0) = 0 \/ Value(P, j, p, U, 0) = 0
=============================================================================
