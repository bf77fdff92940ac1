----------------------------- MODULE Stitching -----------------------------
(***************************************************************************)
(* Merging of local fragments into global ones (C04). Fragments 0..N-1 are  *)
(* distributed over processes in order; every process knows only contacts   *)
(* reported by its own fragments, always to fragments of other processes.   *)
(* Rounds of messages spread what is known until nothing changes; then the  *)
(* smallest member of every clique numbers it. The model starts from EVERY  *)
(* distribution and EVERY set of (possibly one-sided) reports.              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, P
VARIABLES own, rep, known, done
F == 0..(N - 1)
Pairs(o) == {p \in F \X F : o[p[1]] # o[p[2]]}
Init == /\ own \in {o \in [F -> 0..(P - 1)] : \A i \in F : i > 0 => o[i - 1] <= o[i]}
        /\ rep \in SUBSET Pairs(own)
        /\ known = [i \in F |-> {p[2] : p \in {q \in rep : q[1] = i}}]
        /\ done = FALSE
\* all messages of a round are composed before any is delivered
Sent(i) == UNION {{j} \cup (known[j] \ {i}) : j \in {k \in F : i \in known[k] /\ own[k] # own[i]}}
Round == /\ ~done
         /\ known' = [i \in F |-> known[i] \cup Sent(i)]
         /\ done' = (known' = known)
         /\ UNCHANGED <<own, rep>>
Spec == Init /\ [][Round]_<<own, rep, known, done>> /\ WF_<<own, rep, known, done>>(Round)
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {p[2] : p \in {q \in rep : q[1] \in S}} \cup {p[1] : p \in {q \in rep : q[2] \in S}}
            IN IF T = S THEN S ELSE Reach(T)
Terminates == <>done
NeverSelf == \A i \in F : i \notin known[i]
Sound == \A i \in F : known[i] \subseteq Reach({i})
Complete == done => \A i \in F : known[i] = Reach({i}) \ {i}
\* the members that number their clique: nobody smaller is known
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Leaders == {i \in F : known[i] = {} \/ i < Min(known[i])}
OneLeader == done => \A i \in F : Cardinality(Leaders \cap Reach({i})) = 1
=============================================================================
