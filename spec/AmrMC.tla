------------------------------- MODULE AmrMC -------------------------------
(* Histories of adaptation rounds on a small mesh: whatever cells are flagged *)
(* by the error estimate, the levels stay in the permitted range, the mesh    *)
(* stays balanced and covers the domain once, and an interface that stays     *)
(* where it is ends up at the finest level.                                   *)
EXTENDS AmrMesh
CONSTANTS Rep, Per, LMin, LMax, L0, MaxRounds
VARIABLES M, field, same, n
vars == <<M, field, same, n>>
ext == <<64 * Rep[1], 64 * Rep[2], 0>>
Grid(s) == {<<i, j>> : i \in {k * s : k \in 0..(Rep[1] * (64 \div s) - 1)}, j \in {k * s : k \in 0..(Rep[2] * (64 \div s) - 1)}}
Coarse == {<<0, g[1], g[2], 0>> : g \in Grid(64)}
RECURSIVE Glob(_, _)
Glob(T, k) == IF k = 0 THEN T ELSE Glob(UNION {Children(c, 2) : c \in T}, k - 1)
\* the interface is a point of the domain; every cell which contains it is an interface cell
Points == {<<16 * i + 8, 16 * j + 8>> : i \in 0..(4 * Rep[1] - 1), j \in 0..(4 * Rep[2] - 1)}
Inside(c, p) == c[2] < p[1] /\ p[1] < c[2] + Size(c) /\ c[3] < p[2] /\ p[2] < c[3] + Size(c)
Interface(T, p) == {c \in T : Inside(c, p)}
Init == M = Glob(Coarse, L0) /\ field \in Points /\ same = 0 /\ n = 0
\* the estimate flags nothing, everything, or the cells of one half, for either purpose
Halves == {{}, M, {c \in M : c[2] < 32}, {c \in M : c[3] >= 32}}
Round == /\ n < MaxRounds
         /\ \E R \in Halves, K \in Halves : M' = Adapt(M, Interface(M, field), R, K \ R, LMin, LMax, ext, 2, Per)
         /\ same' = IF same < 9 THEN same + 1 ELSE same
         /\ n' = n + 1 /\ UNCHANGED field
Move == /\ n > 0 /\ n < MaxRounds
        /\ \E p \in Points : p # field /\ p[1] <= 24 /\ field' = p
        /\ same' = 0 /\ UNCHANGED <<M, n>>
Next == Round \/ Move
Spec == Init /\ [][Next]_vars
Levels == \A c \in M : LMin <= Lev(c) /\ Lev(c) <= LMax
RatioTwo == Balanced(M, ext, 2, Per)
\* every smallest square is covered by exactly one cell
Tiles == LET s == 64 \div P2(LMax) IN \A g \in Grid(s) : Cardinality({c \in M : Inside(c, <<g[1] + s \div 2, g[2] + s \div 2>>)}) = 1
Resolved == same >= LMax - LMin => \A c \in Interface(M, field) : Lev(c) = LMax
=============================================================================
