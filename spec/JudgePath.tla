----------------------------- MODULE JudgePath ----------------------------
(* What a text was read as, and what appending a path to a path gave.        *)
EXTENDS Judge, Paths

VARIABLE l

Read(text, got) ==
  LET want == TLCEval(PathOf(text))
  IN CASE got.st = "panic" -> {<<"C04", "the parser of paths panics">>}
       [] got.st = "ok" /\ ~want.ok -> {<<"C04", "a text that is no path is read as one">>}
       [] got.st = "err" /\ want.ok -> {<<"C04", "a path is not read">>}
       [] got.st = "ok" -> IfNot(got.path = want.path, "C04", "read as another path")
       [] OTHER -> {}
OnPath(e) ==
  Read(e.text, e.o.got)
  \cup If(e.want # <<>> /\ PathOf(e.text) # [ok |-> TRUE, path |-> e.want], "SPEC", "the specification reads another path than was spelled")
OnAppend(e) ==
  LET want == Append2(e.p, e.q)
  IN IfNot(e.o.got.st = "ok" /\ e.o.got.path = want, "C04", "appended to another path")
     \cup Read(e.joined, e.o.joined)
     \cup If(e.p[1].t # "root" /\ e.q[1].t # "root" /\ PathOf(e.joined) # [ok |-> TRUE, path |-> want], "SPEC", "the specification joins texts to another path")
     \cup If(e.p[1].t # "root" /\ e.q[1].t # "root" /\ e.o.joined # e.o.got, "C04", "appending gives another path than the joined text")
Verdict(e) == IF e.ended # "ok" THEN {<<"C04", e.ended>>} ELSE CASE e.f = "path" -> OnPath(e) [] OTHER -> OnAppend(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
============================================================================
