---------------------------- MODULE JudgePretty ---------------------------
(* The pretty form of a document: its content, its text, what that text is    *)
(* read as, and the pretty form of the pretty form.                              *)
EXTENDS Judge, Types, Serde

VARIABLE l

(* what a document holds, whatever the style of its parts *)
RECURSIVE Norm(_)
Norm(n) ==
  CASE IsText(n) -> [t |-> "text", s |-> Text(n), k |-> ScalarKind(n), a |-> "", c |-> <<>>]
    [] n.t \in {"ba", "ia"} -> [t |-> "seq", s |-> "", k |-> "", a |-> "",
                                c |-> IF n.t = "ia" THEN [x \in 1..Len(n.c) |-> [t |-> "el", s |-> "", k |-> "", a |-> "", c |-> <<Norm(n.c[x])>>]]
                                      ELSE [x \in 1..Len(n.c) |-> Norm(n.c[x])]]
    [] n.t \in {"bh", "ih"} -> [t |-> "map", s |-> "", k |-> "", a |-> "", c |-> [x \in 1..Len(n.c) |-> Norm(n.c[x])]]
    [] n.t \in {"cm", "ic"} -> Cm(n.s)
    [] OTHER -> [n EXCEPT !.c = [x \in 1..Len(n.c) |-> Norm(n.c[x])]]
RECURSIVE Writable(_)
Writable(n) == (n.t = "el" /\ n.k # "" => IsKey(n.k)) /\ (n.t \in Mapping => \A x \in 1..Len(n.c) : n.c[x].t = "el" => n.c[x].k # "")
               /\ \A x \in 1..Len(n.c) : Writable(n.c[x])
Root2(d) == Root(d)
Same(x, y) == x.st = y.st /\ (x.st = "ok" => x.v = y.v)

Content(e, want) ==
  LET o == e.o
  IN IfNot(o.p.st = "ok", "C13", "panic")
     \cup (IF o.p.st # "ok" THEN {}
           ELSE IfNot(Norm(o.p.n) = want, "C13", "the pretty form holds something else")
                \cup IfNot(Same(o.any0, o.any1), "C13", "something else is read from the pretty form"))
(* a string that lacks the quotes it needs cannot be read, or is read as something else *)
Quoted(e, want) ==
  LET o == e.o
  IN IF o.p.st # "ok" THEN {}
     ELSE IfNot(o.fmt.st = "ok" /\ o.re.st = "ok", "C13", "what is written of the pretty form is not read")
          \cup (IF o.fmt.st # "ok" THEN {} ELSE IF o.re.st # "ok" THEN {}
                ELSE IfNot(Norm(o.re.n) = want, "C13", "what is written of the pretty form holds something else")
                     \cup IfNot(Same(o.any0, o.any2), "C13", "something else is read from what is written of the pretty form"))
Stable(e, want) ==
  LET o == e.o
  IN IF o.p.st # "ok" THEN {}
     ELSE IfNot(o.fmt.st = "ok", "C14", "not written: " \o o.fmt.st)
          \cup (IF o.fmt.st # "ok" THEN {}
                ELSE IfNot(o.re.st = "ok", "C14", "the pretty text is not read: " \o o.re.st)
                     \cup IfNot(o.fmt2 = o.fmt, "C14", "pretty-printing again gives another text")
                     \cup (IF o.re.st # "ok" THEN {}
                           ELSE IfNot(Norm(o.re.n) = want, "C14", "the pretty text holds something else")
                                \cup IfNot(Same(o.any0, o.any2), "C14", "something else is read from the pretty text")
                                \cup IfNot(o.fmt3 = o.fmt, "C14", "pretty-printing what was read gives another text")))
Verdict(e) ==
  IF e.ended # "ok" THEN {<<"C13", e.ended>>, <<"C14", e.ended>>}
  ELSE LET want == TLCEval(Norm(e.o.doc))
       IN Content(e, want) \cup (IF Writable(e.o.doc) /\ Root2(e.o.doc).t \in Collection THEN Stable(e, want) \cup Quoted(e, want) ELSE {})
Init == l = 1
Next == l <= Len(Trace) /\ Report(Trace[l], Verdict(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
============================================================================
