------------------------------ MODULE AmrMesh ------------------------------
(* Adaptive meshes of cubes (C16).  A cell is <<level, x, y, z>> (unused     *)
(* coordinates are 0); coarse cells have the size 64.  One adaptation round: *)
(* flags are set, families coarsened, cells refined, and the mesh is brought *)
(* back to a ratio of two to one with as few cells as possible.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
P2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64
Lev(c) == c[1]
Size(c) == 64 \div P2(c[1])
Children(c, dim) ==
  LET h == Size(c) \div 2
  IN {<<c[1] + 1, c[2] + h * i, c[3] + h * j, IF dim = 3 THEN c[4] + h * k ELSE 0>> : i \in {0, 1}, j \in {0, 1}, k \in (IF dim = 3 THEN {0, 1} ELSE {0})}
Parent(c) ==
  LET H == 2 * Size(c)
  IN <<c[1] - 1, (c[2] \div H) * H, (c[3] \div H) * H, (c[4] \div H) * H>>
\* closed intervals meet, in a domain of extent E that may be periodic
Meet(a, sa, b, sb, E, per) ==
  \/ (a <= b + sb /\ b <= a + sa)
  \/ (per /\ ((a + sa = E /\ b = 0) \/ (b + sb = E /\ a = 0)))
\* cells have a common vertex (edge, face)
Touch(c, d, ext, dim, per) ==
  LET s == Size(c)  t == Size(d)
  IN /\ Meet(c[2], s, d[2], t, ext[1], per)
     /\ Meet(c[3], s, d[3], t, ext[2], per)
     /\ dim = 2 \/ Meet(c[4], s, d[4], t, ext[3], per)
TooCoarse(T, ext, dim, per) ==
  LET m == CHOOSE x \in {Lev(c) : c \in T} : \A y \in {Lev(c) : c \in T} : y <= x
      Low == {c \in T : Lev(c) <= m - 2}
  IN {n \in Low : \E c \in T : Lev(c) > Lev(n) + 1 /\ Touch(c, n, ext, dim, per)}
Balanced(T, ext, dim, per) == TooCoarse(T, ext, dim, per) = {}
RECURSIVE Balance(_, _, _, _)
Balance(T, ext, dim, per) ==
  LET B == TooCoarse(T, ext, dim, per)
  IN IF B = {} THEN T ELSE Balance(TLCEval((T \ B) \cup UNION {Children(c, dim) : c \in B}), ext, dim, per)
\* Face: interface cells; R, K: cells flagged for other reasons
RefineFlags(M, Face, R, lmax) == {c \in M : (c \in Face \/ c \in R) /\ Lev(c) < lmax}
CoarsenFlags(M, Face, K, lmin, lmax) == {c \in M : (c \in K /\ c \notin Face /\ Lev(c) # lmin) \/ Lev(c) > lmax}
Families(M, F, dim) == {p \in {Parent(c) : c \in {x \in F : Lev(x) > 0}} : Children(p, dim) \subseteq F}
Adapt(M, Face, R, K, lmin, lmax, ext, dim, per) ==
  LET RF == RefineFlags(M, Face, R, lmax)
      CF == CoarsenFlags(M, Face, K, lmin, lmax) \ RF
      P == Families(M, CF, dim)
  IN Balance(TLCEval((((M \ RF) \ UNION {Children(p, dim) : p \in P}) \cup P) \cup UNION {Children(c, dim) : c \in RF}), ext, dim, per)
=============================================================================
