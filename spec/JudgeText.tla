----------------------------- MODULE JudgeText ----------------------------
(* Texts: what the parser made of them, what the formatter made of that, and *)
(* what the parser made of the formatted text. A document as edits may leave it *)
(* (edited) cannot be read again as it is, but keeps its data and comments.      *)
EXTENDS Judge, Layout, RoundTrip

VARIABLE l

OnText(e) ==
  LET p == e.o.p
  IN IfNot(p.st # "panic", "C03", "the parser panics")
     \cup IfNot(p.st = "ok", "C02", "not read: " \o p.st)
     \cup IfNot(p.st = "ok" => p.n = e.want, "C02", "read as another document")
     \cup IfNot(p.st = "ok" => Texts(p.n) = Texts(e.want), "C12", "the scalars read denote other strings")
     \cup (IF p.st = "ok" THEN RoundTrip(p.n, e.o.rt) \cup Canonical(p.n, e.o.rt) ELSE {})
OnFormat(e) == IF e.edited THEN Canonical(e.doc, e.o.rt) \cup WrittenBack(e.doc, e.o.rt) ELSE Canonical(e.doc, e.o.rt) \cup (IF e.doc.t = "doc" THEN RoundTrip(e.doc, e.o.rt) ELSE {})
Verdict(e) == IF e.ended # "ok" THEN {<<p, e.ended>> : p \in {"C01", "C02", "C03", "C11", "C12", "C20"}}
              ELSE CASE e.f = "text" -> OnText(e) [] OTHER -> OnFormat(e)

Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
============================================================================
