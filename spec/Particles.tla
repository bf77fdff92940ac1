----------------------------- MODULE Particles -----------------------------
(* C21: initial particle packings. Integer centers c and radii r, interface   *)
(* width w = 4 u. Values are given in 1/100000.                               *)
EXTENDS Integers, Sequences, FiniteSets
One == 100000
Sq(x) == x * x
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
Dot(p, q, o) == (p[1] - o[1]) * (q[1] - o[1]) + (p[2] - o[2]) * (q[2] - o[2]) + (p[3] - o[3]) * (q[3] - o[3])
\* sign of sqrt(n) - x
SgnRoot(n, x) == IF x < 0 THEN 1 ELSE IF n > x * x THEN 1 ELSE IF n = x * x THEN 0 ELSE -1
\* sign of x - a * sqrt(n), a any integer
SgnLin(x, a, n) ==
  LET sx == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
      sa == IF n = 0 \/ a = 0 THEN 0 ELSE IF a < 0 THEN -1 ELSE 1
  IN IF sx # sa THEN (IF sx < sa THEN -1 ELSE 1)
     ELSE LET d == x * x - a * a * n IN IF d = 0 THEN 0 ELSE IF d > 0 THEN sx ELSE -sx
\* twice the mean radius of the interface (dir: -1 inside, 0, 1 outside)
Mean2(r, u, dir) == 2 * r - dir * 4 * u
\* value of a sphere at p: a number, or -1 for something strictly between 0 and 1
Ball(p, c, r, u, dir) ==
  LET n == 4 * D2(p, c)  m == Mean2(r, u, dir)
  IN IF SgnRoot(n, m - 4 * u) <= 0 THEN One
     ELSE IF SgnRoot(n, m + 4 * u) >= 0 THEN 0
     ELSE IF SgnRoot(n, m) = 0 THEN 50000
     ELSE IF SgnRoot(n, m - 2 * u) = 0 THEN 85355
     ELSE IF SgnRoot(n, m + 2 * u) = 0 THEN 14645
     ELSE -1
Above(p, c, r, u, dir) == SgnRoot(4 * D2(p, c), Mean2(r, u, dir)) < 0
\* particles overlap (they touch by more than a thousandth)
Contact(P, i, j) ==
  LET R == P[i].r + P[j].r  d == D2(P[i].c, P[j].c)
  IN i # j /\ d <= R * R /\ (IF R * R - d > 100 THEN TRUE ELSE 1000000 * (R * R - d) >= 1999 * R * R)
\* particles which may not share an order parameter: b2 is twice the buffer
Close(P, i, j, b2) == i # j /\ SgnRoot(4 * D2(P[i].c, P[j].c), 2 * (P[i].r + P[j].r) + b2) <= 0
\* value of particle i at p, cut off where its neighbour begins; -1 between 0 and 1, -2 anything from 0 to 1
Value(P, i, p, u, dir) ==
  LET cm == Ball(p, P[i].c, P[i].r, u, dir)
      Sec == {j \in DOMAIN P : Contact(P, i, j) /\ Ball(p, P[j].c, P[j].r, u, dir) # 0}
  IN IF cm = 0 THEN 0
     ELSE IF Sec = {} THEN cm
     ELSE IF Cardinality(Sec) > 1 THEN -2
     ELSE LET j == CHOOSE j \in Sec : TRUE
              n == D2(P[i].c, P[j].c)
              \* twice the distance times the position along the line of centers, measured from the neck
              X == 2 * Dot(p, P[j].c, P[i].c) - (n + Sq(P[i].r) - Sq(P[j].r))
          IN IF SgnLin(X, 4 * u, n) > 0 THEN 0
             \* right on the end of the cut, outside of the neighbour: a jump
             ELSE IF SgnLin(X, 4 * u, n) = 0 THEN (IF Above(p, P[j].c, P[j].r, u, dir) THEN 0 ELSE -2)
             ELSE IF Above(p, P[j].c, P[j].r, u, dir) /\ SgnLin(X, -4 * u, n) > 0
                  THEN IF X = 0 THEN 50000
                       ELSE IF SgnLin(X, 2 * u, n) = 0 THEN 14645
                       ELSE IF SgnLin(X, -2 * u, n) = 0 THEN 85355
                       ELSE -1
                  ELSE cm
Fits(v, o) == CASE v = -2 -> 0 <= o /\ o <= One [] v = -1 -> 0 <= o /\ o <= One /\ o # -1 [] OTHER -> v - 1 <= o /\ o <= v + 1
Degree(P, i, b2) == Cardinality({j \in DOMAIN P : Close(P, i, j, b2)})
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : y >= x
\* ops: sequence of sets of particles
Covers(ops, n) == /\ UNION {ops[k] : k \in DOMAIN ops} = 1..n
                  /\ \A k, m \in DOMAIN ops : k # m => ops[k] \cap ops[m] = {}
Separates(P, ops, b2) == \A k \in DOMAIN ops : \A i, j \in ops[k] : ~Close(P, i, j, b2)
Frugal(P, ops, b2) == Len(ops) <= 1 + MaxS({Degree(P, i, b2) : i \in DOMAIN P})
=============================================================================
