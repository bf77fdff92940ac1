---------------------------- MODULE BlockVector ----------------------------
(* C08: dynamic block vectors. A vector is a list of references to blocks;  *)
(* blocks live in a heap, so that views share them with their origin.       *)
(* Every operation is a tuple <<name, vector, arguments...>>; Apply gives   *)
(* its effect, Obs what a user can observe of the result.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS NV, MaxB, Sizes, Facs5, Bound, MaxLen, Simulate, Kinds
VARIABLES st, log
\* the factors, shifted since configurations know no negative numbers
Facs == {x - 5 : x \in Facs5}

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF s = <<>> THEN 0 ELSE Max(s[1], MaxSeq(Tail(s)))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Refs(s) == {s[i] : i \in DOMAIN s}
Vecs == 1..NV
\* a block: x = its values, g = ghost state: 1 up to date, 0 zeroed, 2 unspecified
Blk(x, g) == [x |-> x, g |-> g]
Zero(n) == Blk([k \in 1..n |-> 0], 0)
Pattern(b, n, s) == [k \in 1..n |-> (((s + 7 * b + 3 * k) % 11) - 5)]
Empty == [h |-> <<>>, v |-> [i \in Vecs |-> <<>>]]
\* forget the blocks nobody refers to, number the others in order of appearance
RECURSIVE Uniq(_, _)
Uniq(q, u) == IF q = <<>> THEN u ELSE Uniq(Tail(q), IF q[1] \in Refs(u) THEN u ELSE Append(u, q[1]))
Compact(s) ==
  LET v == TLCEval([i \in Vecs |-> TLCEval(s.v[i])])
      u == TLCEval(Uniq(Flat(v), <<>>))
      rank == TLCEval([r \in Refs(u) |-> CHOOSE k \in DOMAIN u : u[k] = r])
      blk(q) == [x |-> TLCEval(q.x), g |-> q.g]
  IN [h |-> TLCEval([k \in DOMAIN u |-> blk(s.h[u[k]])]),
      v |-> TLCEval([i \in Vecs |-> TLCEval([b \in DOMAIN v[i] |-> rank[v[i][b]]])])]
B(s, i, b) == s.h[s.v[i][b]]
Fresh(s, n) == [b \in 1..n |-> Len(s.h) + b]
SetV(s, i, r) == [s EXCEPT !.v[i] = r]
\* the blocks of vector i get new contents f[b]
Put(s, i, f) == IF DOMAIN f = {} THEN s ELSE [s EXCEPT !.h = [r \in DOMAIN s.h |->
                    IF r \in Refs(s.v[i]) THEN f[CHOOSE b \in DOMAIN s.v[i] : s.v[i][b] = r] ELSE s.h[r]]]
Map1(s, i, F(_)) == Put(s, i, [b \in DOMAIN s.v[i] |-> Blk([k \in DOMAIN B(s, i, b).x |-> F(B(s, i, b).x[k])], 2)])
Map2(s, i, j, F(_, _)) == Put(s, i, [b \in DOMAIN s.v[i] |->
       Blk([k \in DOMAIN B(s, i, b).x |-> F(B(s, i, b).x[k], B(s, j, b).x[k])], 2)])
Map3(s, i, j, m, F(_, _, _)) == Put(s, i, [b \in DOMAIN s.v[i] |->
       Blk([k \in DOMAIN B(s, i, b).x |-> F(B(s, i, b).x[k], B(s, j, b).x[k], B(s, m, b).x[k])], 2)])
DotProd(s, i, j) == Sum([b \in DOMAIN s.v[i] |-> Sum([k \in DOMAIN B(s, i, b).x |-> B(s, i, b).x[k] * B(s, j, b).x[k]])])
InsertAt(q, to, r) == SubSeq(q, 1, to) \o <<r>> \o SubSeq(q, to + 1, Len(q))
RemoveAt(q, p) == SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q))

\* growing or shrinking to n blocks
Resize(s, i, n) ==
  LET q == s.v[i]
  IN IF n <= Len(q) THEN SetV(s, i, SubSeq(q, 1, n))
     ELSE LET new == n - Len(q)
              z == IF q = <<>> THEN Zero(0) ELSE Blk([k \in DOMAIN B(s, i, 1).x |-> 0], IF B(s, i, 1).g = 2 THEN 2 ELSE B(s, i, 1).g)
          IN SetV([s EXCEPT !.h = @ \o [b \in 1..new |-> z]], i, q \o Fresh(s, new))
\* vector i takes the shape of j; its own blocks are kept as storage
Shape(s, i, j) ==
  LET q == s.v[i]
      n == Len(s.v[j])
      keep == IF n <= Len(q) THEN SubSeq(q, 1, n) ELSE q \o Fresh(s, n - Len(q))
  IN SetV([s EXCEPT !.h = @ \o [b \in 1..Max(0, n - Len(q)) |-> Zero(0)]], i, keep)
AssignFrom(s, i, j) ==
  LET t == Shape(s, i, j)
  IN Put(t, i, [b \in DOMAIN t.v[i] |-> Blk(B(s, j, b).x, IF B(s, j, b).g = 1 /\ t.v[i][b] # s.v[j][b] THEN 1 ELSE 2)])

Apply(s, o) ==
  LET i == o[2] IN
  CASE o[1] = "new" -> Resize(SetV(s, i, <<>>), i, o[3])
    [] o[1] = "fill" -> Put(s, i, [b \in DOMAIN s.v[i] |-> Blk(Pattern(b, o[3], o[4]), 0)])
    [] o[1] = "resize" -> Resize(s, i, o[3])
    [] o[1] = "like" -> LET t == Shape(s, i, o[3]) IN Put(t, i, [b \in DOMAIN t.v[i] |-> Blk([k \in DOMAIN B(s, o[3], b).x |-> 0], 2)])
    [] o[1] = "likeset" -> LET t == Shape(s, i, o[3]) IN Put(t, i, [b \in DOMAIN t.v[i] |-> Blk([k \in DOMAIN B(s, o[3], b).x |-> o[4]], 2)])
    [] o[1] = "assign" -> AssignFrom(s, i, o[3])
    [] o[1] = "copy" -> AssignFrom(SetV(s, i, <<>>), i, o[3])
    [] o[1] = "moveassign" -> SetV(SetV(s, i, s.v[o[3]]), o[3], <<>>)
    [] o[1] = "movector" -> SetV(SetV(s, i, s.v[o[3]]), o[3], <<>>)
    [] o[1] = "iter" -> SetV(s, i, s.v[o[3]])
    [] o[1] = "view" -> SetV(s, i, SubSeq(s.v[o[3]], o[4] + 1, o[5]))
    [] o[1] = "cview" -> SetV(s, i, SubSeq(s.v[o[3]], o[4] + 1, o[5]))
    [] o[1] = "move" -> SetV(s, i, InsertAt(RemoveAt(s.v[i], o[3] + 1), o[4], s.v[i][o[3] + 1]))
    [] o[1] = "insert" -> SetV(s, i, InsertAt(s.v[i], o[5], s.v[o[3]][o[4] + 1]))
    [] o[1] = "remove" -> SetV(s, i, RemoveAt(s.v[i], o[3] + 1))
    [] o[1] = "give" -> LET r == s.v[i][o[3] + 1] IN SetV(SetV(s, i, RemoveAt(s.v[i], o[3] + 1)), o[4], InsertAt(s.v[o[4]], o[5], r))
    [] o[1] = "swap" -> SetV(SetV(s, i, s.v[o[3]]), o[3], s.v[i])
    [] o[1] = "addc" -> Map1(s, i, LAMBDA x : x + o[3])
    [] o[1] = "setc" -> Map1(s, i, LAMBDA x : o[3])
    [] o[1] = "mul" -> Map1(s, i, LAMBDA x : x * o[3])
    [] o[1] = "half" -> Map1(s, i, LAMBDA x : x \div 2)
    [] o[1] = "add" -> Map2(s, i, o[4], LAMBDA x, y : x + o[3] * y)
    [] o[1] = "add2" -> Map3(s, i, o[4], o[6], LAMBDA x, y, z : x + o[3] * y + o[5] * z)
    [] o[1] = "sadd" -> Map2(s, i, o[4], LAMBDA x, y : o[3] * x + y)
    [] o[1] = "sadd2" -> Map2(s, i, o[5], LAMBDA x, y : o[3] * x + o[4] * y)
    [] o[1] = "scale" -> Map2(s, i, o[3], LAMBDA x, y : x * y)
    [] o[1] = "plus" -> Map2(s, i, o[3], LAMBDA x, y : x + y)
    [] o[1] = "minus" -> Map2(s, i, o[3], LAMBDA x, y : x - y)
    [] o[1] = "own" -> Map2(s, i, o[3], LAMBDA x, y : y)
    [] o[1] = "adddot" -> Map2(s, i, o[4], LAMBDA x, y : x + o[3] * y)
    [] o[1] = "equ" -> LET t == AssignFrom(s, i, o[4]) IN Map1(t, i, LAMBDA x : o[3] * x)
    [] o[1] = "write" -> LET f == Flat([b \in DOMAIN s.v[i] |-> [k \in DOMAIN B(s, i, b).x |-> <<b, k>>]])
                             p == f[o[3] + 1]
                         IN [s EXCEPT !.h[s.v[i][p[1]]] = Blk([@.x EXCEPT ![p[2]] = o[4]], 2)]
    [] o[1] = "ghost" -> Put(s, i, [b \in DOMAIN s.v[i] |-> Blk(B(s, i, b).x, 1)])
    [] o[1] = "unghost" -> Put(s, i, [b \in DOMAIN s.v[i] |-> Blk(B(s, i, b).x, 0)])
\* the value returned by an operation, if any
Returns(s, o) == IF o[1] = "adddot" THEN DotProd(Apply(s, o), o[2], o[5]) ELSE 0

(* ------------------------- legal operations ---------------------------- *)
Len_(s, i) == Len(s.v[i])
Sz(s, i) == [b \in DOMAIN s.v[i] |-> Len(B(s, i, b).x)]
NoDup(s, i) == Cardinality(Refs(s.v[i])) = Len(s.v[i])
\* operands of the same shape which share blocks at most at the same position
Compat(s, i, j) == Sz(s, i) = Sz(s, j) /\ \A a \in DOMAIN s.v[i], b \in DOMAIN s.v[j] : s.v[i][a] = s.v[j][b] => a = b
Alone(s, i) == \A j \in Vecs \ {i} : Refs(s.v[i]) \cap Refs(s.v[j]) = {}
\* vector i may take the shape of j: no block seen by another vector changes its size
CanShape(s, i, j) == /\ NoDup(s, i)
                     /\ \A b \in DOMAIN s.v[i] : b <= Len(s.v[j]) =>
                          \/ Len(B(s, i, b).x) = Len(B(s, j, b).x)
                          \/ \A m \in Vecs \ {i} : s.v[i][b] \notin Refs(s.v[m])
                     /\ \A a \in DOMAIN s.v[i], b \in DOMAIN s.v[j] : s.v[i][a] = s.v[j][b] => a = b
OpsOf(k, s) ==
  LET Other(i) == Vecs \ {i}
      Room(i) == Len_(s, i) < MaxB
  IN CASE k \in {"new"} -> {<<k, i, n>> : i \in Vecs, n \in 0..MaxB}
       [] k = "fill" -> {<<k, i, z, x>> : i \in {j \in Vecs : Len_(s, j) > 0 /\ NoDup(s, j) /\ Alone(s, j)}, z \in Sizes, x \in {0, 4, 9}}
       [] k = "resize" -> {<<k, i, n>> : i \in Vecs, n \in 0..MaxB}
       [] k \in {"like"} -> {o \in {<<k, i, j>> : i \in Vecs, j \in Vecs} : o[2] # o[3] /\ Refs(s.v[o[2]]) \cap Refs(s.v[o[3]]) = {} /\ CanShape(s, o[2], o[3])}
       [] k \in {"likeset"} -> {o \in {<<k, i, j, a>> : i \in Vecs, j \in Vecs, a \in Facs} : o[2] # o[3] /\ Refs(s.v[o[2]]) \cap Refs(s.v[o[3]]) = {} /\ CanShape(s, o[2], o[3])}
       [] k = "assign" -> {o \in {<<k, i, j>> : i \in Vecs, j \in Vecs} : CanShape(s, o[2], o[3])}
       [] k = "equ" -> {o \in {<<k, i, a, j>> : i \in Vecs, a \in Facs, j \in Vecs} : CanShape(s, o[2], o[4])}
       [] k \in {"copy", "moveassign", "movector", "iter", "swap"} -> {o \in {<<k, i, j>> : i \in Vecs, j \in Vecs} : o[2] # o[3]}
       [] k \in {"view", "cview"} -> {o \in {<<k, i, j, a, b>> : i \in Vecs, j \in Vecs, a \in 0..MaxB, b \in 0..MaxB} : o[2] # o[3] /\ o[4] <= o[5] /\ o[5] <= Len_(s, o[3])}
       [] k = "move" -> {o \in {<<k, i, a, b>> : i \in Vecs, a \in 0..(MaxB - 1), b \in 0..(MaxB - 1)} : o[3] < Len_(s, o[2]) /\ o[4] < Len_(s, o[2])}
       [] k = "remove" -> {o \in {<<k, i, a>> : i \in Vecs, a \in 0..(MaxB - 1)} : o[3] < Len_(s, o[2])}
       [] k = "insert" -> {o \in {<<k, i, j, a, b>> : i \in Vecs, j \in Vecs, a \in 0..(MaxB - 1), b \in 0..MaxB} :
                              o[4] < Len_(s, o[3]) /\ Room(o[2]) /\ o[5] <= Len_(s, o[2])}
       [] k = "give" -> {o \in {<<k, i, a, j, b>> : i \in Vecs, a \in 0..(MaxB - 1), j \in Vecs, b \in 0..MaxB} :
                              o[2] # o[4] /\ o[3] < Len_(s, o[2]) /\ Room(o[4]) /\ o[5] <= Len_(s, o[4])}
       [] k \in {"addc", "setc", "mul"} -> {<<k, i, a>> : i \in {j \in Vecs : NoDup(s, j)}, a \in Facs}
       [] k = "half" -> {<<k, i>> : i \in {j \in Vecs : NoDup(s, j) /\ \A b \in DOMAIN s.v[j] : \A x \in Refs(B(s, j, b).x) : x % 2 = 0}}
       [] k \in {"add", "sadd"} -> {o \in {<<k, i, a, j>> : i \in Vecs, a \in Facs, j \in Vecs} : NoDup(s, o[2]) /\ Compat(s, o[2], o[4])}
       [] k = "sadd2" -> {o \in {<<k, i, a, c, j>> : i \in Vecs, a \in Facs, c \in Facs, j \in Vecs} : NoDup(s, o[2]) /\ Compat(s, o[2], o[5])}
       [] k = "add2" -> {o \in {<<k, i, a, j, c, m>> : i \in Vecs, a \in Facs, j \in Vecs, c \in Facs, m \in Vecs} :
                              NoDup(s, o[2]) /\ Compat(s, o[2], o[4]) /\ Compat(s, o[2], o[6]) /\ o[2] # o[4] /\ o[2] # o[6]}
       [] k = "adddot" -> {o \in {<<k, i, a, j, m>> : i \in Vecs, a \in Facs, j \in Vecs, m \in Vecs} :
                              /\ NoDup(s, o[2]) /\ Compat(s, o[2], o[4]) /\ Compat(s, o[2], o[5]) /\ Len_(s, o[2]) > 0
                              /\ o[2] # o[4] /\ Refs(s.v[o[2]]) \cap Refs(s.v[o[4]]) = {}}
       [] k \in {"scale", "plus", "minus", "own"} -> {o \in {<<k, i, j>> : i \in Vecs, j \in Vecs} : NoDup(s, o[2]) /\ Compat(s, o[2], o[3])}
       [] k = "write" -> {o \in {<<k, i, p, a>> : i \in Vecs, p \in 0..(MaxB * 6 - 1), a \in Facs} : o[3] < Sum(Sz(s, o[2]))}
       [] k \in {"ghost", "unghost"} -> {<<k, i>> : i \in Vecs}
Small(s) == \A r \in DOMAIN s.h : \A x \in Refs(s.h[r].x) : Abs(x) <= Bound

RECURSIVE ApplyAll(_, _)
ApplyAll(s, q) == IF q = <<>> THEN s ELSE ApplyAll(Compact(Apply(s, q[1])), Tail(q))
\* simulated behaviours start with two filled vectors
Starts == IF ~Simulate THEN {<<>>}
          ELSE {<<<<"new", 1, a>>, <<"fill", 1, z, x>>, <<"new", 2, b>>, <<"fill", 2, y, w>>>> :
                  a \in 1..MaxB, b \in 1..MaxB, z \in Sizes, y \in Sizes, x \in {0, 4}, w \in {4, 9}}
Init == \E q \in Starts : log = q /\ st = ApplyAll(Empty, q)
Do(o) == LET n == TLCEval(Compact(Apply(st, o))) IN Small(n) /\ st' = n /\ log' = Append(log, o)
Step(k) == LET S == OpsOf(k, st) IN S # {} /\ \E o \in (IF Simulate THEN {RandomElement(S)} ELSE S) : Do(o)
Applicable(k) == OpsOf(k, st) # {}
\* in simulation one random operation is tried; if it is not possible vectors are filled or created
Next == /\ Len(log) < MaxLen
        /\ IF Simulate
           THEN \E k \in {RandomElement(Kinds)} :
                  IF Applicable(k) THEN Step(k) ELSE IF Applicable("fill") THEN Step("fill") ELSE Step("new")
           ELSE \E k \in Kinds : Step(k)
Spec == Init /\ [][Next]_<<st, log>>
View == <<st, Len(log)>>
LastOp == IF log = <<>> THEN <<"", 1>> ELSE log[Len(log)]

(* ------------------------------- guarantees ----------------------------- *)
Val(s, i) == [b \in DOMAIN s.v[i] |-> B(s, i, b).x]
WellFormed == /\ \A i \in Vecs : Refs(st.v[i]) \subseteq DOMAIN st.h
              /\ DOMAIN st.h = UNION {Refs(st.v[i]) : i \in Vecs}
Arithmetic == {"fill", "addc", "setc", "mul", "half", "add", "add2", "sadd", "sadd2", "scale", "plus", "minus", "own", "adddot", "write"}
\* only the blocks of the written vector change, and who shares them sees it
Frame == [][LET o == log'[Len(log')] IN
            o[1] \in Arithmetic =>
              /\ st'.v = st.v
              /\ \A m \in Vecs : \A b \in DOMAIN st.v[m] :
                   st.v[m][b] \notin Refs(st.v[o[2]]) => B(st', m, b) = B(st, m, b)]_<<st, log>>
\* rearranging blocks changes no value, and nothing is lost but by removal
Rearrange == [][LET o == log'[Len(log')] IN
            o[1] \in {"move", "swap", "moveassign", "movector", "view", "cview", "iter", "insert", "remove", "give"} =>
              \A m \in Vecs : \A b \in DOMAIN st'.v[m] : \E q \in Vecs : \E a \in DOMAIN st.v[q] : B(st', m, b) = B(st, q, a)]_<<st, log>>
\* a copy is equal and independent
Copies == [][LET o == log'[Len(log')] IN
            o[1] = "copy" => Val(st', o[2]) = Val(st, o[3]) /\ Refs(st'.v[o[2]]) \cap Refs(st'.v[o[3]]) = {} /\ Val(st', o[3]) = Val(st, o[3])]_<<st, log>>
Views == [][LET o == log'[Len(log')] IN
            o[1] = "view" => st'.v[o[2]] = SubSeq(st'.v[o[3]], o[4] + 1, o[5])]_<<st, log>>
Done == IF Simulate /\ Len(log) = MaxLen THEN PrintT(<<"HIST", ToJson(log)>>) ELSE TRUE
=============================================================================
