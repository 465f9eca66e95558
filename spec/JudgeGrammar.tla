--------------------------- MODULE JudgeGrammar ---------------------------
(* Texts of any kind: the parser reads those the grammar allows, as the       *)
(* documents the grammar says, and rejects the others with a place in the text; *)
(* what it has read goes through the formatter and back.                          *)
EXTENDS Judge, Layout, RoundTrip, Grammar

VARIABLE l

TextOf(e) == Join(e.lines, IF e.eol = "crlf" THEN "\r\n" ELSE "\n")
(* an error names a place in the text *)
Located(e, p) ==
  LET ls == Split(TextOf(e), "\n")
  IN p.line >= 1 /\ p.line <= Len(ls) /\ p.col >= 1 /\ p.col <= Len(ls[p.line]) + 1
OnText(e) ==
  LET p == e.o.p
      want == TLCEval(DocumentOf(TextOf(e)))
  IN IfNot(p.st \in {"ok", "err"}, "C03", "the parser ends with " \o p.st)
     \cup IfNot(p.st # "err" \/ p.msg, "C03", "an error without a message")
     \cup IfNot(p.st # "err" \/ Located(e, p), "C03", "an error without a place in the text")
     \cup IfNot(p.st # "ok" \/ want.ok, "C03", "reads a text that is none of the subset")
     \cup IfNot(p.st # "err" \/ ~want.ok, "C03", "does not read a text of the subset")
     \cup IfNot(p.st # "ok" \/ ~want.ok \/ p.n = want.doc, "C03", "reads another document")
     \cup IfNot(p.st # "ok" \/ ~want.ok \/ Texts(p.n) = Texts(want.doc), "C12", "the scalars read denote other strings")
     \cup (IF p.st = "ok" THEN RoundTrip(p.n, e.o.rt) \cup Canonical(p.n, e.o.rt) ELSE {})
Verdict(e) == IF e.ended # "ok" THEN {<<"C03", e.ended>>, <<"C01", e.ended>>, <<"C20", e.ended>>} ELSE OnText(e)

Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
============================================================================
