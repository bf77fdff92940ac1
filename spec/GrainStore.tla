----------------------------- MODULE GrainStore -----------------------------
(* C17: grains as values. A grain is built from segments, each with a spatial *)
(* representation; grains are copied, modified, compared, written to an       *)
(* archive and read back. Lengths are integers of 1/100 unit.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS NG, Dim, MaxLen, Simulate, Kinds, Pos, Rad
VARIABLES st, log
Big == 99999999
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Bis(_, _, _)
Bis(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Bis(n, m, hi) ELSE Bis(n, lo, m)
Isqrt(n) == Bis(n, 0, 46340)
\* centers in units, result in 1/100
Dist(p, q) == Isqrt(10000 * ((p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])))
\* segments: c center, r radius, m measure, v maximum value, k kind (0 none, 1 sphere, 2 ellipsoid, 3 wavefront), d data
NewGrain(id, op, old) == [id |-> id, op |-> op, old |-> old, dyn |-> 0, segs |-> <<>>, maxr |-> 0, maxv |-> -Big, sum |-> 0, near |-> Big]
AddSeg(g, s) == [g EXCEPT !.segs = Append(@, s), !.maxr = Max2(@, 100 * s.r), !.maxv = Max2(@, s.v), !.sum = @ + 100 * s.m]
MinPairs(g, h, F(_, _)) ==
  LET V == {F(g.segs[i], h.segs[j]) : i \in DOMAIN g.segs, j \in DOMAIN h.segs}
  IN IF V = {} THEN Big ELSE CHOOSE x \in V : \A y \in V : x <= y
Lower(g, h) == MinPairs(g, h, LAMBDA s, t : Dist(s.c, t.c) - 100 * (s.r + t.r))
Centers(g, h) == MinPairs(g, h, LAMBDA s, t : Dist(s.c, t.c))
\* distance of two representations of the same kind; <<>> if the specification leaves it open
Axis(p, q) == {e \in 1..3 : p[e] # q[e]}
Ball(s) == s.d[1] = s.d[2] /\ (Dim = 2 \/ s.d[2] = s.d[3])
RepDist(s, t) ==
  CASE s.k = 1 -> <<Dist(s.c, t.c) - 100 * (s.r + t.r)>>
    [] s.k = 2 -> IF Ball(s) /\ Ball(t) /\ Dist(s.c, t.c) > 100 * (s.d[1] + t.d[1]) THEN <<Dist(s.c, t.c) - 100 * (s.d[1] + t.d[1])>>
                  ELSE IF s.d[4] = 0 /\ t.d[4] = 0 /\ Cardinality(Axis(s.c, t.c)) = 1
                       THEN LET e == CHOOSE e \in Axis(s.c, t.c) : TRUE
                                x == 100 * (Abs(s.c[e] - t.c[e]) - s.d[e] - t.d[e])
                            IN IF x > 0 THEN <<x>> ELSE <<>>
                       ELSE <<>>
    [] s.k = 3 -> LET M == {i \in 0..(((Len(s.d) - 2) \div 3) - 1) : s.d[3 + 3 * i] = t.d[1] /\ s.d[4 + 3 * i] = t.d[2]}
                  IN IF M = {} THEN <<Big>> ELSE <<100 * s.d[5 + 3 * (CHOOSE i \in M : TRUE)]>>
Comparable(g, h) == /\ g.segs # <<>> /\ h.segs # <<>>
                    /\ \E k \in {1, 2, 3} : \A s \in {g.segs[i] : i \in DOMAIN g.segs} \cup {h.segs[i] : i \in DOMAIN h.segs} : s.k = k
                    \* (concentric ellipsoids are refused by the code)
                    /\ \A i \in DOMAIN g.segs, j \in DOMAIN h.segs : g.segs[i].k = 2 => g.segs[i].c # h.segs[j].c
Distance(g, h) ==
  LET V == {RepDist(g.segs[i], h.segs[j]) : i \in DOMAIN g.segs, j \in DOMAIN h.segs}
  IN IF <<>> \in V THEN <<>> ELSE LET X == {v[1] : v \in V} IN <<CHOOSE x \in X : \A y \in X : x <= y>>
Trivial(g) == \A i \in DOMAIN g.segs : g.segs[i].k < 2
Buffers(g, h, ratio, fixed) == (ratio * (g.maxr + h.maxr)) \div 100 + 100 * fixed
\* "T", "F" or "?" (too close to call, or open)
Less(a, b) == IF a < b - 3 THEN "T" ELSE IF a > b + 3 THEN "F" ELSE "?"
Overlap(g, h, ratio, fixed) ==
  LET near == Less(Lower(g, h), Buffers(g, h, ratio, fixed))
      D == IF Trivial(g) /\ Trivial(h) THEN "T" ELSE IF Distance(g, h) = <<>> THEN "?" ELSE Less(Distance(g, h)[1], Buffers(g, h, ratio, fixed))
  IN IF near = "F" \/ D = "F" THEN "F" ELSE IF near = "T" THEN D ELSE "?"
NbOk(g, h) == g.op = h.op \/ g.old = h.old
\* o = <<name, grain, ...>>; st.g grains, st.a archived grains (<<>> before the first save)
Apply(s, o) ==
  LET i == o[2] IN
  CASE o[1] = "new" -> [s EXCEPT !.g[i] = NewGrain(o[3], o[4], o[5])]
    [] o[1] = "seg" -> [s EXCEPT !.g[i] = AddSeg(@, o[3])]
    [] o[1] = "id" -> [s EXCEPT !.g[i].id = o[3]]
    [] o[1] = "op" -> [s EXCEPT !.g[i].op = o[3]]
    [] o[1] = "dyn" -> [s EXCEPT !.g[i].dyn = o[3]]
    [] o[1] = "nb" -> IF NbOk(s.g[i], s.g[o[3]]) THEN [s EXCEPT !.g[i].near = Min2(@, Lower(s.g[i], s.g[o[3]]))] ELSE s
    [] o[1] = "copy" -> [s EXCEPT !.g[i] = s.g[o[3]]]
    [] o[1] = "save" -> [s EXCEPT !.a = s.g]
    [] o[1] = "load" -> IF s.a = <<>> THEN s ELSE [s EXCEPT !.g = s.a]
    [] o[1] \in {"dist", "ovl"} -> s
Start == [g |-> [i \in 1..NG |-> NewGrain(i - 1, 0, 0)], a |-> <<>>]
\* ---- exploration and generation
AnyOf(S) == IF Simulate THEN {RandomElement(S)} ELSE S
Segment(k) ==
  {[c |-> c, r |-> r, m |-> r * r, v |-> 100, k |-> k,
    d |-> CASE k = 2 -> <<r, r, r, 0>> [] k = 3 -> <<0, r, 0, r, 3, 0, r + 1, 7>> [] OTHER -> <<>>] : c \in Pos, r \in Rad}
RandomSeg(k, S) ==
  LET r == RandomElement(Rad)
      c == RandomElement(S)
      rs == [e \in 1..3 |-> RandomElement({1, 2, r})]
      ball == RandomElement(BOOLEAN)
      n == RandomElement(0..3)
      nb == [j \in 1..n |-> <<RandomElement(0..2), 10 * j + RandomElement(0..2), RandomElement(1..40)>>]
      Flat3 == [q \in 1..(3 * n) |-> nb[((q - 1) \div 3) + 1][((q - 1) % 3) + 1]]
  IN TLCEval([c |-> c, r |-> r, m |-> RandomElement(1..50), v |-> RandomElement({40, 95, 100, 101}), k |-> k,
      d |-> CASE k = 2 -> (IF ball THEN <<r, r, r, RandomElement({0, 1, 2})>> ELSE <<rs[1], rs[2], rs[3], RandomElement({0, 0, 1, 2})>>)
              [] k = 3 -> <<RandomElement(0..2), 10 * RandomElement(1..3) + RandomElement(0..2)>> \o Flat3
              [] OTHER -> <<>>])
SegKinds(g) == IF Simulate /\ g.segs # <<>> /\ RandomElement(1..5) # 1 THEN {g.segs[1].k} ELSE Kinds
OpsOf(name, s) ==
  CASE name = "new" -> {<<"new", i, x, y, z>> : i \in AnyOf(1..NG), x \in AnyOf({0, 3, 70000}), y \in AnyOf(0..1), z \in AnyOf(0..1)}
    [] name = "seg" -> UNION {{<<"seg", i, sg>> : sg \in (IF Simulate THEN {RandomSeg(k, Pos)} ELSE Segment(k))} : i \in AnyOf({j \in 1..NG : Len(s.g[j].segs) < 3} \cup {1}), k \in AnyOf(Kinds)}
    [] name = "id" -> {<<"id", i, x>> : i \in AnyOf(1..NG), x \in AnyOf({1, 9})}
    [] name = "op" -> {<<"op", i, x>> : i \in AnyOf(1..NG), x \in AnyOf({0, 1, 2})}
    [] name = "dyn" -> {<<"dyn", i, x>> : i \in AnyOf(1..NG), x \in AnyOf({-1, 0, 1})}
    [] name \in {"nb", "copy"} -> {<<name, i, j>> : i \in AnyOf(1..NG), j \in AnyOf(1..NG)}
    [] name = "save" -> {<<"save", f>> : f \in AnyOf({0, 1})}
    [] name = "load" -> {<<"load", 0>>}
    [] name = "dist" -> {<<"dist", i, j>> : i \in AnyOf(1..NG), j \in AnyOf(1..NG)}
    [] name = "ovl" -> {<<"ovl", i, j, q, f>> : i \in AnyOf(1..NG), j \in AnyOf(1..NG), q \in AnyOf({0, 10, 50}), f \in AnyOf({0, 0, 1, 3})}
Fine(o, s) ==
  CASE o[1] \in {"nb", "copy"} -> o[2] # o[3]
    [] o[1] = "dist" -> o[2] # o[3] /\ Comparable(s.g[o[2]], s.g[o[3]])
    [] o[1] = "ovl" -> o[2] # o[3] /\ ((Trivial(s.g[o[2]]) /\ Trivial(s.g[o[3]])) \/ Comparable(s.g[o[2]], s.g[o[3]]))
    [] o[1] = "seg" -> Len(s.g[o[2]].segs) < 3
    [] o[1] = "load" -> s.a # <<>>
    [] OTHER -> TRUE
Names == {"new", "seg", "id", "op", "dyn", "nb", "copy", "save", "load", "dist", "ovl"}
Weighted == <<"new", "seg", "seg", "seg", "seg", "seg", "id", "op", "dyn", "nb", "nb", "copy", "save", "save", "load", "load", "dist", "dist", "ovl", "ovl">>
Init == st = Start /\ log = <<>>
Do(o) == st' = TLCEval(Apply(st, o)) /\ log' = Append(log, o)
Next == /\ Len(log) < MaxLen
        /\ IF Simulate
           THEN \E q \in {RandomElement(DOMAIN Weighted)} : \E o \in OpsOf(Weighted[q], st) : IF Fine(o, st) THEN Do(o) ELSE Do(<<"save", 1>>)
           ELSE \E name \in Names : \E o \in OpsOf(name, st) : Fine(o, st) /\ Do(o)
Spec == Init /\ [][Next]_<<st, log>>
View == <<st, Len(log)>>
Fold(g) == /\ \A i \in DOMAIN g.segs : g.maxr >= 100 * g.segs[i].r /\ g.maxv >= g.segs[i].v
           /\ g.segs # <<>> => \E i \in DOMAIN g.segs : g.maxr = 100 * g.segs[i].r
Aggregates == \A i \in 1..NG : Fold(st.g[i])
Restored == [][log'[Len(log')][1] = "load" => st'.g = st.a]_<<st, log>>
Undisturbed == [][log'[Len(log')][1] # "save" => st'.a = st.a]_<<st, log>>
\* a neighbour never comes closer than the recorded distance without being registered
Symmetric == \A i, j \in 1..NG : Lower(st.g[i], st.g[j]) = Lower(st.g[j], st.g[i])
LowerBound == \A i, j \in 1..NG : i # j /\ Comparable(st.g[i], st.g[j]) /\ Trivial(st.g[i]) => Distance(st.g[i], st.g[j]) = <<Lower(st.g[i], st.g[j])>>
Done == IF Simulate /\ Len(log) = MaxLen THEN PrintT(<<"HIST", ToJson(log)>>) ELSE TRUE
=============================================================================
