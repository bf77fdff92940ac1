--------------------------- MODULE PiecewiseCases ---------------------------
(* Piecewise linear tables (C20). Table points are integers, arguments are  *)
(* quarters, values 1/1024.                                                 *)
EXTENDS CaseBase
\* y (1/1024) lies on the line through p and q at x/4
OnLine(p, q, x, y) == AbsV(4 * y * (q[1] - p[1]) - 4096 * p[2] * (q[1] - p[1]) - 1024 * (q[2] - p[2]) * (x - 4 * p[1])) <= 4 * AbsV(q[1] - p[1])
\* points sorted by x, insertion order among equals
Before(c, i, j) == c.pts[i][1] < c.pts[j][1] \/ (c.pts[i][1] = c.pts[j][1] /\ i < j)
Value(c, x, y) ==
  LET I == DOMAIN c.pts
      L == {i \in I : 4 * c.pts[i][1] < x}
      R == {i \in I : 4 * c.pts[i][1] >= x}
      first == CHOOSE i \in I : \A j \in I : j = i \/ Before(c, i, j)
      last == CHOOSE i \in I : \A j \in I : j = i \/ Before(c, j, i)
      second == CHOOSE i \in I \ {first} : \A j \in I \ {first, i} : Before(c, i, j)
      prelast == CHOOSE i \in I \ {last} : \A j \in I \ {last, i} : Before(c, j, i)
      lo == CHOOSE i \in L : \A j \in L : j = i \/ Before(c, j, i)
      hi == CHOOSE i \in R : \A j \in R : j = i \/ Before(c, i, j)
  IN IF I = {} THEN y = 0
     ELSE IF L = {} THEN (IF c.ext /\ Cardinality(I) > 1 THEN OnLine(c.pts[first], c.pts[second], x, y) ELSE y = 1024 * c.pts[first][2])
     ELSE IF R = {} THEN (IF c.ext /\ Cardinality(I) > 1 THEN OnLine(c.pts[prelast], c.pts[last], x, y) ELSE y = 1024 * c.pts[last][2])
     ELSE OnLine(c.pts[lo], c.pts[hi], x, y)
OK(c) == "y" \in DOMAIN c /\ Len(c.y) = Len(c.q) /\ \A k \in DOMAIN c.q : Value(c, c.q[k], c.y[k])
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
