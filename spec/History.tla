------------------------------ MODULE History ------------------------------
(* C09: the history of solutions of a multistep scheme. Entry 1 is the      *)
(* current solution, entry 2 the last accepted one, entry k+1 the state     *)
(* accepted k steps ago. A selection (filter) shares its vectors with the   *)
(* history, so operations applied to it reach exactly the selected entries. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Ks, MaxB, BS, Bound, MaxLen, Simulate, Kinds
VARIABLES st, log, acc
Abs(x) == IF x < 0 THEN -x ELSE x
\* an entry: b = blocks (sequences of values), g = ghost state 1 up to date, 0 zeroed, 2 unspecified
E(b, g) == [b |-> b, g |-> g]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Sel(s, f) == {i \in DOMAIN s : (i = 1 /\ f[1] = 1) \/ (i = 2 /\ f[2] = 1) \/ (i > 2 /\ f[3] = 1)}
AddB(b, c) == TLCEval([k \in DOMAIN b |-> TLCEval([e \in DOMAIN b[k] |-> b[k][e] + c])])
Touch(s, S, F(_)) == TLCEval([i \in DOMAIN s |-> IF i \in S THEN F(s[i]) ELSE s[i]])
Pick(s, f) == SelectSeq([i \in DOMAIN s |-> <<i, s[i].b>>], LAMBDA p : p[1] \in Sel(s, f))
Picked(s, f) == LET p == Pick(s, f) IN [i \in DOMAIN p |-> p[i][2]]
Pattern(i, n, bs) == [b \in 1..n |-> [e \in 1..bs |-> (((5 * i + 7 * b + 3 * e) % 9) - 4)]]
Start(k, n, bs) == [i \in 1..k |-> E(Pattern(i, n, bs), 0)]
Commit(s) == [i \in DOMAIN s |-> IF i >= 3 THEN E(s[i - 1].b, 1) ELSE IF i = 2 /\ Len(s) > 2 THEN E(s[2].b, 0) ELSE s[i]]
Recent(s) == [s EXCEPT ![2] = E(s[1].b, 1), ![1].g = 0]
Apply(s, o) ==
  LET f == IF Len(o) > 3 THEN <<o[2], o[3], o[4]>> ELSE <<1, 1, 1>> IN
  CASE o[1] = "cur" -> [s EXCEPT ![1] = E(AddB(@.b, o[2]), 2)]
    [] o[1] = "commit" -> Commit(s)
    [] o[1] = "recent" -> Recent(s)
    [] o[1] = "step" -> Recent(Commit(s))
    [] o[1] = "rollback" -> [s EXCEPT ![1] = E(s[2].b, 2), ![2].g = 0]
    [] o[1] \in {"apply", "blockwise", "raw", "ptr"} -> Touch(s, Sel(s, f), LAMBDA x : E(AddB(x.b, o[5]), 2))
    [] o[1] = "resize" -> Touch(s, Sel(s, f), LAMBDA x : E([b \in 1..o[5] |-> IF b <= Len(x.b) THEN x.b[b] ELSE [e \in DOMAIN x.b[1] |-> 0]], x.g))
    [] o[1] = "ghost" -> Touch(s, Sel(s, f), LAMBDA x : E(x.b, IF o[5] = 1 /\ x.g = 2 THEN 2 ELSE 1))
    [] o[1] = "unghost" -> Touch(s, Sel(s, f), LAMBDA x : E(x.b, IF o[5] = 1 /\ x.g = 2 THEN 2 ELSE 0))
    [] o[1] = "old" -> Touch(s, DOMAIN s \ {1}, LAMBDA x : E(AddB(x.b, o[2]), 2))
    [] o[1] = "all" -> Touch(s, DOMAIN s, LAMBDA x : E(AddB(x.b, o[2]), 2))
    [] o[1] = "getrecent" -> [s EXCEPT ![2].g = 0]
    [] o[1] = "extra" -> [s EXCEPT ![1].g = 2, ![2].g = 2]
    [] o[1] \in {"flat", "count"} -> s
\* what the operation returns (blocks)
Returns(s, o) ==
  LET f == IF Len(o) > 3 THEN <<o[2], o[3], o[4]>> ELSE <<1, 1, 1>> IN
  CASE o[1] \in {"flat", "count"} -> Flat(Picked(s, f))
    [] o[1] = "extra" -> [b \in DOMAIN s[1].b |-> [e \in DOMAIN s[1].b[b] |-> s[1].b[b][e] + o[2] * (s[1].b[b][e] - s[2].b[b][e])]]
    [] o[1] = "getrecent" -> s[2].b
    [] OTHER -> <<>>
Flags == {<<a, b, c>> : a \in {0, 1}, b \in {0, 1}, c \in {0, 1}}
OpsOf(k, s) ==
  CASE k \in {"cur", "old", "all"} -> {<<k, c>> : c \in {1, 3}}
    [] k \in {"commit", "step", "recent", "rollback", "getrecent"} -> {<<k>>}
    [] k \in {"apply", "blockwise", "raw", "ptr"} -> {<<k, f[1], f[2], f[3], 2>> : f \in Flags}
    [] k = "resize" -> {<<k, f[1], f[2], f[3], n>> : f \in Flags, n \in 1..MaxB}
    [] k \in {"ghost", "unghost"} -> {<<k, f[1], f[2], f[3], c>> : f \in Flags, c \in {0, 1}}
    [] k \in {"flat", "count"} -> {<<k, f[1], f[2], f[3]>> : f \in Flags}
    [] k = "extra" -> IF Len(s[1].b) = Len(s[2].b) THEN {<<k, c>> : c \in {0, 1, 2}} ELSE {}
Small(s) == \A i \in DOMAIN s : \A b \in DOMAIN s[i].b : \A e \in DOMAIN s[i].b[b] : Abs(s[i].b[b][e]) <= Bound

\* acc: the states accepted so far, newest first (a history variable of the specification)
Init == \E k \in Ks, n \in 1..MaxB : st = Start(k, n, BS) /\ log = <<<<"start", k, n, BS>>>> /\ acc = <<>>
Pure == {"cur", "step", "ghost", "unghost", "flat", "count", "extra", "getrecent", "rollback"}
Do(o) == /\ LET n == Apply(st, o) IN Small(n) /\ st' = TLCEval(n)
         /\ log' = Append(log, o)
         /\ acc' = IF o[1] = "step" THEN <<st[1].b>> \o acc ELSE IF o[1] \in Pure THEN acc ELSE <<>>
Step(k) == \E o \in (IF Simulate THEN {RandomElement(OpsOf(k, st))} ELSE OpsOf(k, st)) : Do(o)
Next == /\ Len(log) < MaxLen
        /\ IF Simulate THEN \E k \in {RandomElement(Kinds)} : IF OpsOf(k, st) # {} THEN Step(k) ELSE Step("step")
           ELSE \E k \in Kinds : OpsOf(k, st) # {} /\ Step(k)
Spec == Init /\ [][Next]_<<st, log, acc>>
View == <<st, Len(log), acc>>
\* after each accepted step entry k+1 is the state accepted k steps ago
Ordered == \A k \in 1..Len(acc) : k + 1 <= Len(st) => st[k + 1].b = acc[k]
LengthKept == [][Len(st') = Len(st)]_<<st, log, acc>>
Exactly == [][LET o == log'[Len(log')] IN
              o[1] \in {"apply", "blockwise", "raw", "ptr", "resize"} =>
                \A i \in DOMAIN st : i \notin Sel(st, <<o[2], o[3], o[4]>>) => st'[i] = st[i]]_<<st, log, acc>>
Done == IF Simulate /\ Len(log) = MaxLen THEN PrintT(<<"HIST", ToJson(log)>>) ELSE TRUE
=============================================================================
