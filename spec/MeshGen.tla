------------------------------- MODULE MeshGen -------------------------------
(***************************************************************************)
(* Mesh generation (C15): prime decomposition of the number of subdivisions *)
(* and the choice of coarse cells and refinements from interface width,     *)
(* particle radius or divisions.                                            *)
(***************************************************************************)
EXTENDS CaseBase
IsPrime(n) == n >= 2 /\ \A k \in 2..(n \div 2) : n % k # 0
Primes(s, e) == {n \in s..e : IsPrime(n)}
\* smallest s with 2^s >= a/b
RECURSIVE CeilLog(_, _)
CeilLog(a, b) == IF a <= b THEN 0 ELSE 1 + CeilLog(a, 2 * b)
Refs(n, p) == IF n < p THEN 0 ELSE CeilLog(n \div p, 1)
Decompose(n, mp) ==
  LET ps == Primes(2, mp)
      delta(p) == AbsV(p * Pow2(Refs(n, p)) - n)
      best == MinOf({delta(p) : p \in ps})
      p == MinOf({q \in ps : delta(q) = best})
  IN <<p, Refs(n, p)>>
Adjust(sub, mp) ==
  IF mp = 0 THEN <<sub, 0>>
  ELSE LET dec == [d \in DOMAIN sub |-> Decompose(sub[d], mp)]
           base == MinOf({dec[d][2] : d \in DOMAIN dec})
       IN <<[d \in DOMAIN sub |-> dec[d][1] * Pow2(dec[d][2] - base)], base>>
PrimesOK(c) ==
  /\ SeqSet(c.p) = Primes(c.s, c.e) /\ \A i \in 1..(Len(c.p) - 1) : c.p[i] < c.p[i + 1]
  /\ c.mp > 1 => \A d \in DOMAIN c.in : <<c.dec[2 * d - 1], c.dec[2 * d]>> = Decompose(c.in[d], c.mp)
  /\ <<c.sub, c.base>> = Adjust(c.in, c.mp)
  \* the product is never coarser than the request by a full base cell
  /\ \A d \in DOMAIN c.in : c.sub[d] * Pow2(c.base) > c.in[d] - (IF c.mp = 0 THEN 1 ELSE c.mp)

(* size (units), w (1/8), dpi (halves), lev0 (halves), dpe, r (1/8) *)
Size(c, d) == c.hi[d] - c.lo[d]
\* wanted number of coarse cells: ceil(num/den), exact integers may be rounded up by one
CeilSet(num, den) == {CeilDiv(num, den)} \cup (IF num % den = 0 THEN {num \div den + 1} ELSE {})
NI(c) == CeilLog(c.dpi, c.lev0)
LogSet(num, den) == LET k == CeilLog(num, den) IN {k} \cup (IF num = den * Pow2(k) THEN {k + 1} ELSE {})
DivsI(c, d) == CeilSet(Size(c, d) * c.dpi * 4, c.dpe * c.w * Pow2(NI(c)))
DivsR(c, d) == {(2 * Size(c, d) * 4 + c.r) \div (2 * c.r)}
RECURSIVE Combos(_, _)
Combos(c, d) == IF d = 0 THEN {<<>>}
                ELSE {Append(s, x) : s \in Combos(c, d - 1), x \in (IF c.kind = "I" THEN DivsI(c, d) ELSE DivsR(c, d))}
MeshOK(c) ==
  /\ c.vol = 1024 /\ c.ids = 1
  /\ \A d \in 1..c.dim : c.olo[d] = 16 * c.lo[d] /\ c.ohi[d] = 16 * c.hi[d]
  /\ c.coarse = ProdSeq(c.n) /\ c.act = c.coarse * Pow2(c.dim * c.lev)
  /\ c.perf = (IF c.per THEN c.nb ELSE 0)
  /\ IF c.kind = "D" THEN c.n = c.sub /\ c.lev = c.ref /\ c.del = 0
     ELSE \E s \in Combos(c, c.dim) :
            \E ni \in (IF c.kind = "I" THEN {NI(c)} ELSE LogSet(c.r * c.dpi, c.dpe * c.w)) :
              LET a == Adjust(s, c.mp) IN
              /\ c.n = a[1]
              /\ <<c.lev, c.del>> = (CASE c.ref = 0 -> <<0, a[2] + ni>> [] c.ref = 1 -> <<a[2], ni>> [] c.ref = 2 -> <<a[2] + ni, 0>>)
OK(c) == IF "exc" \in DOMAIN c THEN FALSE ELSE IF c.what = "R" THEN PrimesOK(c) ELSE MeshOK(c)
CaseSpec == CaseInit /\ [][CaseStep(OK(Cases[l]))]_l
=============================================================================
