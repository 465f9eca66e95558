----------------------------- MODULE JudgeSerde ---------------------------
(* Serialized values: the tree, what is read back from it, and what is read   *)
(* back from its text.                                                           *)
EXTENDS Judge, Serde

VARIABLE l

RECURSIVE Writable(_)
Writable(n) == (n.t = "el" /\ n.k # "" => IsKey(n.k)) /\ \A x \in 1..Len(n.c) : Writable(n.c[x])
RECURSIVE AllNamed(_)
AllNamed(n) == (n.t \in Mapping => \A x \in 1..Len(n.c) : n.c[x].k # "") /\ \A x \in 1..Len(n.c) : AllNamed(n.c[x])

InMemory(e) ==
  LET o == e.o
  IN IfNot(o.tree.st = "ok", "C15", "not serialized: " \o o.tree.st)
     \cup (IF o.tree.st # "ok" THEN {}
           ELSE IfNot(TreeOf(e.schema, e.value, o.tree.n), "C15", "the tree does not mirror the value")
                \cup IfNot(o.back.st = "ok", "C15", "the tree is not read: " \o o.back.st)
                \cup IfNot(o.back.st = "ok" => o.back.v = o.sent, "C15", "another value is read from the tree")
                \cup IfNot(LET d == Dump(o.tree.n) IN d.ok /\ o.any.st = "ok" /\ SameValue(d.v, o.any.v), "C15", "other types are read from the tree"))
Written(e) ==
  LET o == e.o
  IN IF o.tree.st # "ok" THEN {} ELSE IF ~(o.tree.n.t \in Collection /\ Writable(o.tree.n) /\ AllNamed(o.tree.n)) THEN {}
     ELSE IfNot(o.fmt.st = "ok", "C16", "not written: " \o o.fmt.st)
          \cup (IF o.fmt.st # "ok" THEN {}
                ELSE IfNot(o.text.st = "ok", "C16", "the text is not read: " \o o.text.st)
                     \cup IfNot(o.text.st = "ok" => o.text.v = o.sent, "C16", "another value is read from the text")
                     \cup IfNot(o.anytext.st = "ok" /\ Untyped(e.schema, e.value, o.anytext.v), "C16", "other types are read from the text"))
Verdict(e) == IF e.ended # "ok" THEN {<<"C15", e.ended>>, <<"C16", e.ended>>} ELSE InMemory(e) \cup Written(e)
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
============================================================================
