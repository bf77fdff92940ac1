----------------------------- MODULE TimeScheme -----------------------------
(* C10: step sizes and weights of the multistep schemes. Three objects; an  *)
(* object has order k (0: explicit or stationary, no scheme), a list of     *)
(* max(k, 1) step sizes (newest first, 0 = no such step yet) and a time.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Dts, NObj, MaxLen, Simulate, Kinds
VARIABLES st, log, past
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Obj(k, d, t) == [k |-> k, d |-> d, t |-> t]
Make(k) == Obj(k, [i \in 1..Max(k, 1) |-> 0], 0)
Push(x, d) == [x EXCEPT !.d = [i \in DOMAIN x.d |-> IF i = 1 THEN d ELSE x.d[i - 1]]]
Apply(s, o) ==
  LET i == o[2] IN
  CASE o[1] = "make" -> [s EXCEPT ![i] = IF o[4] = 0 THEN Make(o[3]) ELSE Push(Make(o[3]), o[4])]
    [] o[1] = "update" -> [s EXCEPT ![i] = Push(@, o[3])]
    [] o[1] = "replace" -> [s EXCEPT ![i].d[1] = o[3]]
    [] o[1] \in {"copy", "assign"} -> [s EXCEPT ![i] = s[o[3]]]
    [] o[1] \in {"rescheme", "restore"} -> [s EXCEPT ![i] = Obj(o[4], [m \in 1..Max(o[4], 1) |->
                               IF m = 1 THEN s[o[3]].d[1] ELSE IF m <= Min(o[4], s[o[3]].k) THEN s[o[3]].d[m] ELSE 0], 0)]
    [] o[1] = "copydt" -> [s EXCEPT ![i].d = s[o[3]].d]
    [] o[1] = "load" -> [s EXCEPT ![i] = Obj(s[o[3]].k, s[o[3]].d, @.t)]
    [] o[1] = "time" -> [s EXCEPT ![i].t = o[3]]
    [] o[1] = "advance" -> [s EXCEPT ![i].t = @ + o[3]]
(* The weights: the derivative at the new time of the interpolation         *)
(* polynomial through the new and the last e solutions. Nodes t0 = 0,       *)
(* t1 = -d1, t2 = -(d1 + d2), ...; weight j is num/den.                     *)
Eff(x) == Cardinality({i \in DOMAIN x.d : x.d[i] > 0})
RECURSIVE Node(_, _)
Node(x, j) == IF j = 0 THEN 0 ELSE Node(x, j - 1) - x.d[j]
RECURSIVE Prod(_, _)
Prod(S, f) == IF S = {} THEN 1 ELSE LET m == CHOOSE m \in S : TRUE IN f[m] * Prod(S \ {m}, f)
Num(x, e, j) == Prod((1..e) \ {j}, [m \in 1..e |-> -Node(x, m)])
Den(x, e, j) == Prod((0..e) \ {j}, [m \in 0..e |-> Node(x, j) - Node(x, m)])
RECURSIVE SumTo(_, _)
SumTo(n, f) == IF n = 0 THEN 0 ELSE f[n] + SumTo(n - 1, f)
\* common denominator of the weights
ComD(x, e) == Prod(1..e, [m \in 1..e |-> Den(x, e, m)])
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd(b, a % (IF b < 0 THEN -b ELSE b))
Reduced(p) == LET g == Gcd(p[1], p[2]) IN <<p[1] \div g, p[2] \div g>>
W(x, j) ==   \* <<numerator, denominator>>
  LET e == Eff(x) IN
  IF x.k = 0 \/ e = 0 \/ j > e THEN <<0, 1>>
  ELSE IF j > 0 THEN <<Num(x, e, j), Den(x, e, j)>>
  ELSE Reduced(<<-SumTo(e, [m \in 1..e |-> Num(x, e, m) * (ComD(x, e) \div Den(x, e, m))]), ComD(x, e)>>)
Valid(x) == \A i \in DOMAIN x.d : i > 1 /\ x.d[i] > 0 => x.d[i - 1] > 0

OpsOf(k, s) ==
  LET O == 1..NObj IN
  CASE k = "make" -> {<<k, i, n, d>> : i \in O, n \in 0..3, d \in Dts \cup {0}}
    [] k \in {"update"} -> {<<k, i, d>> : i \in O, d \in Dts}
    [] k = "replace" -> {<<k, i, d>> : i \in O, d \in Dts}
    [] k \in {"copy", "assign"} -> {<<k, i, j>> : i \in O, j \in O}
    [] k \in {"rescheme", "restore"} -> {<<k, i, j, n>> : i \in O, j \in O, n \in 0..3}
    [] k = "copydt" -> {o \in {<<k, i, j>> : i \in O, j \in O} : Len(s[o[2]].d) = Len(s[o[3]].d)}
    [] k = "load" -> {o \in {<<k, i, j>> : i \in O, j \in O} : o[2] # o[3] /\ s[o[2]].k = s[o[3]].k}
    [] k \in {"time", "advance"} -> {<<k, i, d>> : i \in O, d \in {2, 5}}
\* past: accepted step sizes of each object since it was made, newest first
Init == st = [i \in 1..NObj |-> Make(i)] /\ past = [i \in 1..NObj |-> <<>>] /\ log = [i \in 1..NObj |-> <<"make", i, i, 0>>]
Do(o) == /\ st' = TLCEval(Apply(st, o))
         /\ \A i \in 1..NObj : st'[i].t < 1000
         /\ log' = Append(log, o)
         /\ past' = LET i == o[2] IN
              CASE o[1] = "make" -> [past EXCEPT ![i] = IF o[4] = 0 THEN <<>> ELSE <<o[4]>>]
                [] o[1] = "update" -> [past EXCEPT ![i] = <<o[3]>> \o @]
                [] o[1] = "replace" -> [past EXCEPT ![i] = <<o[3]>> \o (IF @ = <<>> THEN <<>> ELSE Tail(@))]
                [] o[1] \in {"copy", "assign", "copydt", "load"} -> [past EXCEPT ![i] = past[o[3]]]
                [] o[1] \in {"rescheme", "restore"} -> [past EXCEPT ![i] = SubSeq(past[o[3]], 1, Min(Len(past[o[3]]), Max(1, Min(o[4], st[o[3]].k))))]
                [] OTHER -> past
Step(k) == \E o \in (IF Simulate THEN {RandomElement(OpsOf(k, st))} ELSE OpsOf(k, st)) : Do(o)
Next == /\ Len(log) < MaxLen
        /\ IF Simulate THEN \E k \in {RandomElement(Kinds)} : IF k \in {"make", "rescheme", "restore", "copy", "assign"} /\ RandomElement(1..3) > 1 THEN Step("update")
                                                              ELSE IF OpsOf(k, st) # {} THEN Step(k) ELSE Step("update")
           ELSE \E k \in Kinds : OpsOf(k, st) # {} /\ Step(k)
Spec == Init /\ [][Next]_<<st, log, past>>
View == <<st, past, Len(log)>>
(* guarantees *)
AllValid == \A i \in 1..NObj : Valid(st[i])
\* the highest order for which enough steps exist
Highest == \A i \in 1..NObj : /\ Eff(st[i]) >= Min(Len(past[i]), Max(1, st[i].k)) \/ Eff(st[i]) = Len(past[i])
                              /\ \A m \in 1..Eff(st[i]) : m <= Len(past[i]) => st[i].d[m] = past[i][m]
\* exactness: 1, t, ..., t^e are differentiated exactly at the new time (t = 0)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Exact == \A i \in 1..NObj : LET x == st[i]
                                e == Eff(x)
                                c == ComD(x, e) IN
           x.k > 0 /\ e > 0 =>
             \A p \in 0..e : SumTo(e, [m \in 1..e |-> W(x, m)[1] * (c \div W(x, m)[2]) * Pow(Node(x, m), p)])
                              + (IF p = 0 THEN W(x, 0)[1] * (c \div W(x, 0)[2]) ELSE 0) = (IF p = 1 THEN c ELSE 0)
Done == IF Simulate /\ Len(log) = MaxLen THEN PrintT(<<"HIST", ToJson(log)>>) ELSE TRUE
=============================================================================
