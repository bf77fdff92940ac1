------------------------------ MODULE AmrCases ------------------------------
(* Judges recorded adaptation rounds (C16).                                  *)
EXTENDS CaseBase, AmrMesh
VT(id) == <<id % 1000, (id \div 1000) % 1000, id \div 1000000>>
Key(p) == p[1] + 1000 * p[2] + 1000000 * p[3]
Corner(c, i, j, k) == <<c[2] + Size(c) * i, c[3] + Size(c) * j, c[4] + Size(c) * k>>
Corners(c, dim) == {Key(Corner(c, i, j, k)) : i \in {0, 1}, j \in {0, 1}, k \in (IF dim = 3 THEN {0, 1} ELSE {0})}
PtMap(pts) == [id \in {pts[i][1] : i \in DOMAIN pts} |-> CHOOSE i \in DOMAIN pts : pts[i][1] = id]
Val(pts, pm, id, b) == pts[pm[id]][3 + b]
RECURSIVE SumV(_, _, _, _)
SumV(S, pts, pm, b) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Val(pts, pm, x, b) + SumV(S \ {x}, pts, pm, b)
\* is the cell an interface cell of block b (values are 1600 per unit, the interface is between 0.05 and 0.95)
BlockState(c, pts, pm, b, dim) ==
  LET S == Corners(c, dim)  n == Cardinality(S)
      s == SumV(S, pts, pm, b)
      sure == \E x \in S : LET v == Val(pts, pm, x, b) IN 82 <= v /\ v <= 1518
      near == \E x \in S : LET v == Val(pts, pm, x, b) IN v \in {81, 1519} \/ (v \in {79, 80, 1520, 1521} /\ pts[pm[x]][2] = 1)
      avg == 80 * n + n < s /\ s < 1520 * n - n
      unclear == AbsV(s - 80 * n) <= n \/ AbsV(s - 1520 * n) <= n
  IN IF sure \/ avg THEN "yes" ELSE IF near \/ unclear THEN "?" ELSE "no"
CellState(c, pts, pm, B, dim) ==
  LET Q == {BlockState(c, pts, pm, b, dim) : b \in B}
  IN IF "yes" \in Q THEN "yes" ELSE IF "?" \in Q THEN "?" ELSE "no"
In(c, p, dim) == LET s == Size(c) IN
  /\ c[2] <= p[1] /\ p[1] <= c[2] + s /\ c[3] <= p[2] /\ p[2] <= c[3] + s /\ (dim = 2 \/ (c[4] <= p[3] /\ p[3] <= c[4] + s))
Ends(o, s, x) == IF x = o THEN {0} ELSE IF x = o + s THEN {1} ELSE {0, 1}
Mid(o, s, x) == x = o \/ x = o + s \/ 2 * x = 2 * o + s
Support(c, p, dim) == {Key(Corner(c, i, j, k)) : i \in Ends(c[2], Size(c), p[1]), j \in Ends(c[3], Size(c), p[2]), k \in (IF dim = 3 THEN Ends(c[4], Size(c), p[3]) ELSE {0})}
IsMid(c, p, dim) == Mid(c[2], Size(c), p[1]) /\ Mid(c[3], Size(c), p[2]) /\ (dim = 2 \/ Mid(c[4], Size(c), p[3]))
\* v is the multilinear interpolation in the cell at its corners or the midpoints of its edges, faces or itself
Interp(c, p, pts, pm, b, v, dim) ==
  LET S == Support(c, p, dim)  n == Cardinality(S)
  IN IsMid(c, p, dim) /\ AbsV(n * v - SumV(S, pts, pm, b)) <= 2 * n
Judge(r, p, c, nb) ==
  LET dim == c.dim
      ext == [d \in 1..3 |-> IF d <= dim THEN 64 * c.rep[d] ELSE 0]
      Four(x) == <<x[1], x[2], x[3], x[4]>>
      pre == TLCEval({Four(r.pre.cells[i]) : i \in DOMAIN r.pre.cells})  post == TLCEval({Four(r.post.cells[i]) : i \in DOMAIN r.post.cells})
      owner == TLCEval([x \in pre |-> LET i == CHOOSE i \in DOMAIN r.pre.cells : Four(r.pre.cells[i]) = x IN r.pre.cells[i][5]])
      pts == r.pre.pts  qts == r.post.pts
      pm == TLCEval(PtMap(pts))  qm == TLCEval(PtMap(qts))
      B == IF p.which = 3 THEN 0..(nb - 1) ELSE p.b0..(p.b1 - 1)
      state == TLCEval([x \in pre |-> CellState(x, pts, pm, B, dim)])
      Sure == TLCEval({x \in pre : state[x] = "yes"})
      Amb == TLCEval({x \in pre : state[x] = "?"})
      R == SeqSet(r.R)  R2 == SeqSet(r.R2)  K == SeqSet(r.K)  K2 == SeqSet(r.K2)
      refd == TLCEval({x \in pre : Children(x, dim) \subseteq post})
      coarsened == TLCEval({x \in pre : Lev(x) > 0 /\ Parent(x) \in post})
      \* siblings next to cells of another process, whose flags are not known, may be left alone
      Apart == TLCEval({x \in K \cup K2 : Lev(x) > 0 /\ Parent(x) \notin post /\
                        \E y \in pre : owner[y] # owner[x] /\ Touch(Parent(x), y, ext, dim, c.per)})
      hanging(pt) == {x \in post : In(x, pt, dim) /\ Key(pt) \notin Corners(x, dim)}
  IN /\ r.pre.bad = 0 /\ r.post.bad = 0
     /\ r.pre.nc = Cardinality(pre) /\ r.post.nc = Cardinality(post)
     /\ r.reinits = (IF p.which = 1 THEN 0 ELSE 1)
     \* every cell is kept, split or merged with its siblings
     /\ \A x \in post : x \in pre \/ (Lev(x) > 0 /\ Parent(x) \in pre) \/ Children(x, dim) \subseteq pre
     /\ \A x \in pre : x \in post \/ x \in refd \/ x \in coarsened
     /\ Balanced(post, ext, dim, c.per)
     /\ (\A x \in pre : Lev(x) <= p.lmax) => \A x \in post : Lev(x) <= p.lmax
     /\ \A x \in Sure : IF Lev(x) < p.lmax THEN x \in refd ELSE Lev(x) = p.lmax => x \notin coarsened
     /\ \A x \in pre : Lev(x) = p.lmin /\ p.lmin <= p.lmax => x \notin coarsened
     \* exactly the cells which the interface and the error estimate ask for
     /\ Cardinality(Amb) + Cardinality(R2) + Cardinality(K2) <= 4 =>
          \E A \in SUBSET Amb, S \in SUBSET R2, T \in SUBSET K2 :
             post = Adapt(pre, Sure \cup A, R \cup S, (K \cup T) \ Apart, p.lmin, p.lmax, ext, dim, c.per)
     \* the solution is carried over
     /\ p.which # 1 =>
          \A i \in DOMAIN qts :
            LET pt == VT(qts[i][1])  H == hanging(pt)
            IN /\ (qts[i][2] = 1) <=> (H # {})
               /\ IF H # {} THEN \A x \in H : \A b \in 0..(nb - 1) : Interp(x, pt, qts, qm, b, qts[i][3 + b], dim)
                  ELSE IF qts[i][1] \in DOMAIN pm THEN \A b \in 0..(nb - 1) : AbsV(qts[i][3 + b] - Val(pts, pm, qts[i][1], b)) <= 1
                  ELSE LET x == CHOOSE x \in pre : In(x, pt, dim) IN \A b \in 0..(nb - 1) : Interp(x, pt, pts, pm, b, qts[i][3 + b], dim)
OK(c) ==
  /\ "obs" \in DOMAIN c
  /\ Len(c.obs) = Len(c.rounds)
  /\ \A k \in DOMAIN c.obs :
       /\ Judge(c.obs[k], c.rounds[k], c, c.nb)
       /\ k > 1 => SeqSet(c.obs[k].pre.cells) = SeqSet(c.obs[k - 1].post.cells)
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
