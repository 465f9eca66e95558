---------------------------- MODULE JudgeVisit ----------------------------
(* What a visit saw, what the function of a map was given, and what it gave.    *)
EXTENDS Judge, Visit

VARIABLE l

Verdict(e) ==
  IF e.ended # "ok" THEN {<<"C19", e.ended>>} ELSE IF e.o.st # "ok" THEN {<<"C19", "panic">>}
  ELSE LET m == TLCEval(Mapped(e.doc, 1))
       IN IfNot(e.o.visited = Visited(e.doc), "C19", "other values are visited")
          \cup IfNot(e.o.seen = m.seen, "C19", "the function is given other values")
          \cup IfNot(e.o.result = m.n, "C19", "mapping gives another tree")
          \cup IfNot(e.o.same = e.doc, "C19", "mapping with the identity changes the tree")
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
============================================================================
