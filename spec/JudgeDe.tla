------------------------------ MODULE JudgeDe -----------------------------
(* What was read from a node or a text with each of some types.              *)
EXTENDS Judge, Serde

VARIABLE l

OnRead(e, n, j) ==
  LET who == IF HasAnchors(e.doc) THEN "C18" ELSE "C17"
      got == e.o.got[j]
      want == TLCEval(De(e.schemas[j], n))
  IN CASE got.st = "panic" -> {<<who, "panic">>}
       [] got.st = "ok" /\ ~want.ok -> {<<who, "read as " \o e.schemas[j].t \o ", although it does not fit">>}
       [] got.st = "err" /\ want.ok -> {<<who, "not read as " \o e.schemas[j].t \o ", although it fits">>}
       [] got.st = "ok" -> IfNot(SameValue(want.v, got.v), who, "another value is read as " \o e.schemas[j].t)
       [] OTHER -> IfNot(got.msg, who, "an error without a message")
Verdict(e) == IF e.ended # "ok" THEN {<<"C17", e.ended>>, <<"C18", e.ended>>}
              ELSE LET n == TLCEval(Resolved(e.doc)) IN UNION {OnRead(e, n, j) : j \in 1..Len(e.schemas)}
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
============================================================================
