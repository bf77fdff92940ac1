--------------------------- MODULE StitchingCases ---------------------------
(* Results of the real stitching and of the periodicity graph (C04, C07).   *)
EXTENDS CaseBase
RECURSIVE Reach(_, _)
Reach(S, E) == LET T == S \cup {e[2] : e \in {x \in E : x[1] \in S}} \cup {e[1] : e \in {x \in E : x[2] \in S}}
               IN IF T = S THEN S ELSE Reach(T, E)
Edges(c) == {<<c.e[i][1], c.e[i][2]>> : i \in DOMAIN c.e}
Numbered(v, n, E) ==
  LET comp == TLCEval([i \in 0..(n - 1) |-> Reach({i}, E)]) IN
  /\ Len(v) = n
  /\ \A i, j \in 0..(n - 1) : (v[i + 1] = v[j + 1]) <=> (j \in comp[i])
  /\ SeqSet(v) = 0..(Cardinality({comp[i] : i \in DOMAIN comp}) - 1)
OK(c) ==
  IF "exc" \in DOMAIN c THEN FALSE
  ELSE IF c.kind = "S"
  THEN LET E == {e \in Edges(c) : c.own[e[1] + 1] # c.own[e[2] + 1]} IN Numbered(c.a, c.n, E) /\ Numbered(c.b, c.n, E)
  ELSE LET E == Edges(c)
           V == {e[1] : e \in E} \cup {e[2] : e \in E}
           comp == TLCEval([i \in V |-> Reach({i}, E)])
           k == Cardinality({comp[i] : i \in V})
       IN /\ c.k = k /\ c.empty = (E = {})
          /\ \A i \in 0..(c.n - 1) : IF i \in V THEN c.g[i + 1] \in 0..(k - 1) ELSE c.g[i + 1] = -1
          /\ \A i, j \in V : (c.g[i + 1] = c.g[j + 1]) <=> (j \in comp[i])
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
