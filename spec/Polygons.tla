------------------------------ MODULE Polygons ------------------------------
(* C22: a grain given by closed contours of integer points <<x, y>>. Its order *)
(* parameter follows the distance to the contour linearly, over an interface  *)
(* of even width w lying inside, across or outside of it (dir = -1, 0, 1).    *)
EXTENDS Integers, Sequences, FiniteSets
Full == 100000
Pred(i, n) == IF i = 1 THEN n ELSE i - 1
\* even-odd rule: p lies inside of the contour (either answer for a point on it)
Crosses(p, a, b) ==
  /\ (a[2] > p[2]) # (b[2] > p[2])
  /\ LET l == (p[1] - a[1]) * (b[2] - a[2])  r == (b[1] - a[1]) * (p[2] - a[2])
     IN IF b[2] > a[2] THEN l < r ELSE l > r
Inside(g, p) == Cardinality({i \in DOMAIN g : Crosses(p, g[i], g[Pred(i, Len(g))])}) % 2 = 1
\* squared distance to an edge, a fraction
EdgeD2(p, a, b) ==
  LET dx == b[1] - a[1]  dy == b[2] - a[2]  ex == p[1] - a[1]  ey == p[2] - a[2]
      dot == dx * ex + dy * ey
      len == dx * dx + dy * dy
  IN IF dot <= 0 THEN <<ex * ex + ey * ey, 1>>
     ELSE IF dot >= len THEN <<(p[1] - b[1]) * (p[1] - b[1]) + (p[2] - b[2]) * (p[2] - b[2]), 1>>
     ELSE <<(dx * ey - dy * ex) * (dx * ey - dy * ex), len>>
Reach(w, dir) == IF dir = 0 THEN w \div 2 ELSE w
\* the distance f is at most k / 32 of the reach h
Within(f, k, h) == IF f[1] > h * h * f[2] THEN FALSE ELSE 1024 * f[1] <= k * k * h * h * f[2]
AllEdges(grain, p) == UNION {{EdgeD2(p, grain[s][i], grain[s][Pred(i, Len(grain[s]))]) : i \in DOMAIN grain[s]} : s \in DOMAIN grain}
RECURSIVE Search(_, _, _, _)
Search(F, h, a, b) == IF a >= b THEN a ELSE LET m == (a + b) \div 2 IN IF \E f \in F : Within(f, m, h) THEN Search(F, h, a, m) ELSE Search(F, h, m + 1, b)
\* least k with distance at most k / 32 of the reach; 33 beyond
Level(grain, p, h) == Search(AllEdges(grain, p), h, 0, 33)
\* bounds of the order parameter of the grain at p
Val(grain, p, w, dir) ==
  LET in == \E s \in DOMAIN grain : Inside(grain[s], p)
      h == Reach(w, dir)
      k == Level(grain, p, h)
      k0 == IF k = 0 THEN 0 ELSE k - 1
  IN IF w = 0 THEN (IF \E f \in AllEdges(grain, p) : f[1] = 0 THEN <<0, Full>> ELSE IF in THEN <<Full, Full>> ELSE <<0, 0>>)
     ELSE IF in THEN (IF dir = 1 \/ k = 33 THEN <<Full, Full>>
                      ELSE IF dir = 0 THEN <<50000 + (50000 * k0) \div 32, 50000 + (50000 * k) \div 32 + 1>>
                      ELSE <<(Full * k0) \div 32, (Full * k) \div 32 + 1>>)
     ELSE IF dir = -1 \/ k = 33 THEN <<0, 0>>
     ELSE IF dir = 0 THEN <<50000 - (50000 * k) \div 32 - 1, 50000 - (50000 * k0) \div 32>>
     ELSE <<Full - (Full * k) \div 32 - 1, Full - (Full * k0) \div 32>>
=============================================================================
