---------------------------- MODULE JudgeScalar ---------------------------
(* The string of a scalar: to the edits (str), to those who look through an   *)
(* alias (al), and to deserialization (de).                                     *)
EXTENDS Judge

VARIABLE l

One(n, got, who) ==
  CASE got.st = "panic" -> {<<"C12", who \o " panics">>}
    [] ~IsText(n) -> IfNot(got.st = "none", "C12", "something that is no scalar has a string in " \o who)
    [] OTHER -> IfNot(got.st = "ok" /\ got.s = Text(n), "C12", "another string in " \o who)
Verdict(e) == IF e.ended # "ok" THEN {<<"C12", e.ended>>}
              ELSE One(e.doc, e.o.str, "edits") \cup One(e.doc, e.o.de, "deserialization") \cup One(e.doc, e.o.al, "aliased values")
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
============================================================================
