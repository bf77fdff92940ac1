------------------------------ MODULE CaseBase ------------------------------
(* Helpers shared by the modules that judge recorded calls one by one.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
VARIABLE l
Cases == ndJsonDeserialize("cases.ndjson")
Range0(n) == 0..(n - 1)
SeqSet(s) == {s[i] : i \in DOMAIN s}
AbsV(x) == IF x < 0 THEN -x ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdSeq(Tail(s))
\* instantiating modules define OK(c) and use
CaseInit == l = 1
CaseStep(ok) == l <= Len(Cases) /\ (IF ok THEN TRUE ELSE PrintT(<<"REJECTED", l>>)) /\ l' = l + 1
AllSeen == TLCGet("stats").diameter - 1 = Len(Cases)
=============================================================================
