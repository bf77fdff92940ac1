------------------------------ MODULE BBoxCases ------------------------------
(* Position of points and cells relative to a box (C19), half units.        *)
EXTENDS CaseBase
Pos(c, p) == IF \E d \in 1..c.dim : p[d] < 2 * c.lo[d] \/ p[d] > 2 * c.hi[d] THEN -1
             ELSE IF \E d \in 1..c.dim : p[d] = 2 * c.lo[d] \/ p[d] = 2 * c.hi[d] THEN 0 ELSE 1
B(x) == IF x THEN 1 ELSE 0
Corners(c, q) == {[d \in 1..c.dim |-> q[d] + (IF d \in S THEN q[c.dim + 1] ELSE 0)] : S \in SUBSET (1..c.dim)}
Line(c, q, o) ==
  LET e == q.e + 1
      D(d) == q.p1[d] - q.p0[d]
  IN /\ o.has = (D(e) # 0)
     /\ o.has => /\ AbsV(o.x[e] - 1024 * q.o[e]) <= 1
                 /\ \A d \in 1..c.dim : AbsV((o.x[d] - 1024 * q.p0[d]) * D(e) - 1024 * D(d) * (q.o[e] - q.p0[e])) <= AbsV(D(e))
                 \* the factor runs from 0 at p0 to -1 at p1
                 /\ AbsV(o.fac * D(e) + 1024 * (q.o[e] - q.p0[e])) <= AbsV(D(e))
OK(c) ==
  /\ "pos" \in DOMAIN c
  /\ \A k \in DOMAIN c.pts : LET p == Pos(c, c.pts[k]) IN
       /\ c.pos[k] = p
       /\ c.flags[k] = B(p = 1) + 2 * B(p = -1) + 4 * B(p = 0) + 8 * B(p # -1) + 16 * B(p # 1)
       /\ c.filt[k] = B(p = 1)
  /\ \A k \in DOMAIN c.cells : LET P == {Pos(c, x) : x \in Corners(c, c.cells[k])} IN
       c.hit[k] = B(P # {1} /\ P # {-1})
  /\ \A k \in DOMAIN c.lines : Line(c, c.lines[k], c.line[k])
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
