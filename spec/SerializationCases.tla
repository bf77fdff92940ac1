------------------------ MODULE SerializationCases ------------------------
EXTENDS CaseBase
F == <<1, 131, 17>>
RECURSIVE Lin(_, _, _, _)
Lin(e, dim, b, d) == IF d > dim THEN 0 ELSE F[d] * (b + 1) * e[d] + Lin(e, dim, b, d + 1)
Value(e, dim, b, salt) == salt - 1000 * b + Lin(e, dim, b, 1)
Place(e, dim) == SubSeq(e, 1, dim)
Sizes(c, o) == o.s.dofs = Len(o.s.pts)
\* slots: index of the operation that saved last (0: none)
RECURSIVE Run(_, _, _)
Run(c, i, slot) ==
  i > Len(c.ops) \/
  LET o == c.ops[i]  x == c.obs[i]
  IN /\ Sizes(c, x) /\ x.threw = 0
     /\ o[1] = "set" => \A q \in DOMAIN x.s.pts : \A b \in 0..(Len(x.s.pts[q]) - c.dim - 1) : x.s.pts[q][c.dim + 1 + b] = Value(x.s.pts[q], c.dim, b, o[2])
     /\ o[1] = "save" => x.s = c.obs[i - 1].s
     /\ o[1] = "load" /\ slot[o[2]] > 0 => x.s = c.obs[slot[o[2]]].s
     /\ Run(c, i + 1, IF o[1] = "save" THEN [slot EXCEPT ![o[2]] = i] ELSE slot)
OK(c) == "obs" \in DOMAIN c /\ Len(c.obs) = Len(c.ops) /\ Run(c, 1, [s \in 1..3 |-> 0])
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
