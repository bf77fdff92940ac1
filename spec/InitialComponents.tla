------------------------- MODULE InitialComponents -------------------------
(* Components of the initial state: concentration, chemical potential, order parameters. *)
EXTENDS CaseBase, Particles
\* component values: concentration (and chemical potential), then the order parameters
OpsOf(c, v) == SubSeq(v, c.off + 1, Len(v))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Components(c, v, nops) ==
  LET e == OpsOf(c, v)
      conc == IF c.acc THEN (IF SumSeq(e) > One THEN One ELSE SumSeq(e)) ELSE MaxS(SeqSet(e))
  IN /\ Len(v) = c.off + nops
     /\ AbsV(v[1] - (IF c.void THEN One - conc ELSE conc)) <= 1 + Len(e)
     /\ c.off = 2 => v[2] = 0
Sets(o) == [k \in DOMAIN o |-> {x + 1 : x \in SeqSet(o[k])}]
=============================================================================
