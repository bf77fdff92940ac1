--------------------------- MODULE Serialization ---------------------------
(* C18: vectors on an adaptive mesh are written to slots and read back later. *)
(* Every process writes the values of the unknowns it owns, vector by vector, *)
(* at the position given by the sizes of the processes before it; the order   *)
(* within a process does not depend on how the unknowns are numbered.         *)
(* Unknowns are identified with their places 1..Size(mesh).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Meshes, Procs, NVec, Slots, Vals, MaxLen
VARIABLES mesh, own, num, vec, files, saved, n
vars == <<mesh, own, num, vec, files, saved, n>>
\* number of places of a mesh; cells visit them in this order
Size(m) == m
Places(m) == 1..Size(m)
Numberings(m) == {f \in [Places(m) -> Places(m)] : \A x, y \in Places(m) : x # y => f[x] # f[y]}
\* the partition is a function of the mesh alone (contiguous pieces of the traversal)
PartOf(m) == [x \in Places(m) |-> 1 + ((x - 1) * Procs) \div Size(m)]
Mine(m, o, p) == SelectSeq([i \in Places(m) |-> i], LAMBDA x : o[x] = p)
Owned(m, o, p) == Cardinality({x \in Places(m) : o[x] = p})
RECURSIVE Before(_, _, _)
Before(m, o, p) == IF p = 1 THEN 0 ELSE Owned(m, o, p - 1) + Before(m, o, p - 1)
\* position in the file of vector b at the k-th place of process p
At(m, o, p, b, k) == NVec * Before(m, o, p) + (b - 1) * Owned(m, o, p) + k
Image(m, o, v) ==
  [i \in 1..(NVec * Size(m)) |->
     LET p == CHOOSE p \in 1..Procs : NVec * Before(m, o, p) < i /\ i <= NVec * (Before(m, o, p) + Owned(m, o, p))
         r == i - NVec * Before(m, o, p)
         b == 1 + (r - 1) \div Owned(m, o, p)
         k == 1 + ((r - 1) % Owned(m, o, p))
     IN v[b][num[Mine(m, o, p)[k]]]]
Init == /\ mesh \in Meshes /\ own = PartOf(mesh) /\ num \in Numberings(mesh)
        /\ vec = [b \in 1..NVec |-> [i \in Places(mesh) |-> 0]]
        /\ files = [s \in Slots |-> <<>>] /\ saved = [s \in Slots |-> <<>>] /\ n = 0
ByPlace(m, f, v) == [b \in 1..NVec |-> [x \in Places(m) |-> v[b][f[x]]]]
Set == \E b \in 1..NVec, i \in Places(mesh), c \in Vals : vec' = [vec EXCEPT ![b][i] = c] /\ UNCHANGED <<mesh, own, num, files, saved>>
Adapt == /\ mesh' \in Meshes \ {mesh} /\ own' = PartOf(mesh') /\ num' \in Numberings(mesh')
         /\ vec' = [b \in 1..NVec |-> [i \in Places(mesh') |-> 0]] /\ UNCHANGED <<files, saved>>
Save == \E s \in Slots : /\ files' = [files EXCEPT ![s] = <<mesh, Image(mesh, own, vec)>>]
                         /\ saved' = [saved EXCEPT ![s] = <<mesh, ByPlace(mesh, num, vec)>>]
                         /\ UNCHANGED <<mesh, own, num, vec>>
Load == \E s \in Slots :
          /\ files[s] # <<>> /\ mesh' = files[s][1] /\ own' = PartOf(mesh') /\ num' \in Numberings(mesh')
          /\ vec' = [b \in 1..NVec |-> [i \in Places(mesh') |->
               LET x == CHOOSE x \in Places(mesh') : num'[x] = i
                   p == own'[x]
                   k == Cardinality({y \in 1..x : own'[y] = p})
               IN files[s][2][At(mesh', own', p, b, k)]]]
          /\ ByPlace(mesh', num', vec') = saved[s][2]
          /\ UNCHANGED <<files, saved>>
\* reading must succeed: whatever the numbering, the places get their values back
Readable == \A s \in Slots : files[s] # <<>> =>
  LET m == files[s][1]  o == PartOf(m)
  IN \A b \in 1..NVec, x \in Places(m) :
       files[s][2][At(m, o, o[x], b, Cardinality({y \in 1..x : o[y] = o[x]}))] = saved[s][2][b][x]
OnlyOnce == LET o == own IN \A b, d \in 1..NVec, x, y \in Places(mesh) :
  LET k(z) == Cardinality({w \in 1..z : o[w] = o[z]})
  IN <<b, x>> # <<d, y>> => At(mesh, o, o[x], b, k(x)) # At(mesh, o, o[y], d, k(y))
Next == n < MaxLen /\ n' = n + 1 /\ (Set \/ Adapt \/ Save \/ Load)
Spec == Init /\ [][Next]_vars
=============================================================================
