--------------------------- MODULE TimerPredicate ---------------------------
(***************************************************************************)
(* A predicate that triggers periodic actions (C14). Times are sixteenths.  *)
(* Fire(kind, ...) says when it fires; the state machine queries it at any  *)
(* non-decreasing times.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Kinds, Starts, Ivs, MaxT, MaxQ
VARIABLES kind, start, iv, s, now, clock, fired, log

\* s: [calls, last, real] the state of the predicate
Fires(k, v, st, t, c) ==
  CASE k = "never" -> FALSE
    [] k = "n_calls" -> v > 0 /\ st.calls % (v \div 16) = 0
    [] k = "simulation_time" -> v > 0 /\ (t - st.last >= v \/ t = st.last)
    [] k = "real_time" -> v > 0 /\ c - st.real > v
After(k, v, st, t, c) ==
  LET f == Fires(k, v, st, t, c) IN
  [calls |-> st.calls + 1,
   last |-> IF k = "simulation_time" /\ v > 0 /\ t - st.last >= v THEN t ELSE st.last,
   real |-> IF k = "real_time" /\ f THEN c ELSE st.real]
Fresh(k, st) == [calls |-> IF k = "n_calls" THEN st \div 16 ELSE 0, last |-> IF k = "simulation_time" THEN st ELSE 0, real |-> 0]

Init == /\ kind \in Kinds /\ start \in Starts /\ iv \in Ivs
        /\ s = Fresh(kind, start)
        /\ now = start /\ clock = 0 /\ fired = FALSE /\ log = <<>>
Query == /\ Len(log) < MaxQ
         /\ \E t \in {x \in now..MaxT : x % 8 = 0}, c \in {x \in clock..MaxT : x % 8 = 0} :
              /\ now' = t /\ clock' = c
              /\ fired' = Fires(kind, iv, s, t, c)
              /\ s' = After(kind, iv, s, t, c)
              /\ log' = Append(log, <<t, c, fired'>>)
         /\ UNCHANGED <<kind, start, iv>>
Spec == Init /\ [][Query]_<<kind, start, iv, s, now, clock, fired, log>>

Hits == {i \in DOMAIN log : log[i][3]}
\* two firings are an interval apart, unless they are the same instant
Apart == /\ kind = "simulation_time" => \A i, j \in Hits : i < j => log[j][1] = log[i][1] \/ log[j][1] - log[i][1] >= iv
         /\ kind = "real_time" => \A i, j \in Hits : i < j => log[j][2] - log[i][2] > iv
         /\ kind = "n_calls" => \A i, j \in Hits : i < j => (j - i) * 16 >= iv
\* no interval passes silently
NoMiss == /\ kind = "simulation_time" /\ iv > 0 =>
               \A i \in DOMAIN log : ~log[i][3] =>
                  \/ log[i][1] - start < iv
                  \/ \E j \in Hits : j < i /\ log[i][1] - log[j][1] < iv
          /\ kind = "real_time" /\ iv > 0 =>
               \A i \in DOMAIN log : ~log[i][3] => log[i][2] <= iv \/ \E j \in Hits : j < i /\ log[i][2] - log[j][2] <= iv
          /\ kind = "n_calls" /\ iv > 0 =>
               \A i \in 1..(Len(log) - iv \div 16 + 1) : \E j \in Hits : i <= j /\ j < i + iv \div 16
          /\ kind = "never" \/ iv = 0 => Hits = {}
=============================================================================
