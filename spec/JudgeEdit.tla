----------------------------- MODULE JudgeEdit ----------------------------
(* Histories: every recorded step is a step of Session.                      *)
EXTENDS Judge, Session, Gen, RoundTrip

VARIABLES l, j                      \* the event, and the step of its history (0: not opened yet)
vars == <<svars, l, j>>

E == Trace[l]
Owner(op) == CASE op = "find" -> "C05" [] op \in {"insert", "insertcall"} -> "C06" [] op = "remove" -> "C07"
               [] op \in {"rename", "toobj"} -> "C08" [] op = "mvsub" -> "C09" [] OTHER -> "C10"

(* ------------------------------- the steps ------------------------------ *)
StepVerdict(op, o) ==
  LET a == TLCEval(Apply(op, doc))
      who == Owner(op.op)
  IN IF o.st # "ok" THEN {<<who, o.st>>, <<"C11", o.st>>}
     ELSE IfNot(o.n = a.n, who, op.op \o ": another document")
          \cup IfNot(o.r = a.r, who, op.op \o ": another number")
          \cup IfNot(o.out = a.out, who, "find: other values")
          \cup (IF op.op = "insertcall"
                THEN IfNot(o.calls >= a.r /\ o.calls <= Reaches(op, doc), who, "insertcall: number of calls") ELSE {})
Skip1(e, bad) == Report(e, bad) /\ l' = l + 1 /\ j' = 0 /\ UNCHANGED svars
Crashed == E.ended # "ok" /\ Skip1(E, {<<p, E.ended>> : p \in {"C05", "C06", "C07", "C08", "C09", "C10", "C11"}})
Unread == E.ended = "ok" /\ j = 0 /\ E.o.p.st # "ok" /\ Skip1(E, {<<"C11", "the document is not read">>})
Opened == /\ E.ended = "ok" /\ j = 0 /\ E.o.p.st = "ok"
          /\ doc' = (IF E.src = "text" THEN E.o.p.n ELSE E.doc) /\ last' = Blank /\ ret' = 0 /\ out' = <<>>
          /\ j' = 1 /\ l' = l
(* the step is judged; the history goes on from what the library made of it *)
Step == /\ E.ended = "ok" /\ j > 0 /\ j <= Len(E.o.obs)
        /\ Report(E, StepVerdict(E.steps[j], E.o.obs[j]))
        /\ IF E.o.obs[j].st = "ok" THEN doc' = E.o.obs[j].n ELSE doc' = doc
        /\ last' = E.steps[j] /\ ret' = E.o.obs[j].r /\ out' = E.o.obs[j].out
        /\ j' = j + 1 /\ l' = l
End == /\ E.ended = "ok" /\ j > Len(E.o.obs)
       /\ Skip1(E, IF E.rt /\ Len(E.o.obs) = Len(E.steps) /\ Writable(doc) THEN WrittenBack(doc, E.o.rt) ELSE {})
Init == l = 1 /\ j = 0 /\ Open(Uq(""))
Next == l <= Len(Trace) /\ (Crashed \/ Unread \/ Opened \/ Step \/ End)
Spec == Init /\ [][Next]_vars
(* all events were consumed *)
Consumed == IF l = Len(Trace) + 1 THEN TLCSet(7, TRUE) ELSE TRUE
Accepted == TLCGet(7)
============================================================================
