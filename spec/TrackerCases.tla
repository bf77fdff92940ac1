---------------------------- MODULE TrackerCases ----------------------------
(* Histories recorded from the tracker, each checked step by step. Which    *)
(* selects the relations that decide one property.                          *)
EXTENDS GrainHistory, TLCExt, Json
CONSTANT Which
VARIABLE l
Cases == ndJsonDeserialize("cases.ndjson")

FirstOf(a) == a \in {"I", "IS"}
Skip(a) == a \in {"IS", "TS"}

StepOK(c, nb, pnb, con, i) ==
  LET o == c.steps[i]
      dim == c.dim
      cells == c.cells
  IN IF o.a = "M" THEN
        \/ "remap" \notin Which
        \/ LET last == c.steps[SetMax({j \in 1..(i - 1) : c.steps[j].a # "M"})] IN RemapOK(c, dim, cells, con, last, o)
     ELSE
     LET cm == TLCEval([b \in 1..o.nops |-> [x \in DOMAIN cells |-> CellMax(dim, cells[x], o.v[b])]])
         det == TLCEval([b \in 1..o.nops |-> DetectField(dim, cells, nb, pnb, cm[b], c.thr)])
         news == TLCEval(NewGrains(dim, cells, cm, det))
         olds == IF i = 1 THEN {} ELSE LET p == c.steps[i - 1] IN {p.grains[j] : j \in DOMAIN p.grains}
     IN /\ o.agree
        /\ "refuse" \in Which => IF FirstOf(o.a) THEN o.exc # 1 ELSE TrackRefusal(c, news, olds, o)
        /\ IF o.exc # 0 THEN
              /\ ("reassign" \in Which /\ o.exc = 2) => (~Skip(o.a) /\ RefusalOK(c, news))
              /\ (c.maxops >= 20) => o.exc # 2
           ELSE
           /\ "detect" \in Which => DetectOK(dim, cells, cm, det, c.repr, o)
           /\ "ids" \in Which => IF FirstOf(o.a) THEN SetupIds(c, news, o) ELSE TrackIds(c, news, olds, o)
           /\ "reassign" \in Which => ReassignOK(c, cells, o, FirstOf(o.a) /\ c.greedy, Skip(o.a))
OK(c) ==
  LET nb == TLCEval(Neighbours(c.dim, c.cells))
      pnb == TLCEval(PNeighbours(c.dim, c.L, c.per, c.cells))
      con == IF "remap" \in Which THEN TLCEval(CellsOfNode(c.dim, c.cells, c.nn)) ELSE <<>>
  IN \A i \in DOMAIN c.steps : IF StepOK(c, nb, pnb, con, i) THEN TRUE ELSE PrintT(<<"BADSTEP", l, i, c.steps[i].a>>) /\ FALSE

CaseInit == l = 1
CaseNext == /\ l <= Len(Cases)
            /\ IF OK(Cases[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l>>)
            /\ l' = l + 1
CaseSpec == CaseInit /\ [][CaseNext]_l
AllSeen == TLCGet("stats").diameter - 1 = Len(Cases)
=============================================================================
