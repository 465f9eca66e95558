------------------------------- MODULE Visit ------------------------------
(* Visiting and mapping. A visit sees each entry's value (with its alias) of   *)
(* block collections, parents first; a map gives each value to a function,       *)
(* children first, and puts back what the function returns.                       *)
EXTENDS Node

Seen(e) == [t |-> "el", s |-> "", k |-> "", a |-> e.a, c |-> e.c]
RECURSIVE Visited(_)
Visited(n) == Flat([x \in 1..Len(n.c) |->
  CASE n.c[x].t = "el" /\ n.t \in Block -> <<Seen(n.c[x])>> \o Visited(Val(n.c[x]))
    [] n.c[x].t = "el" -> Visited(Val(n.c[x]))
    [] n.t = "ia" -> Visited(n.c[x])
    [] OTHER -> <<>>])

(* The function of the recorder wraps the k-th value it is given: [nk, value].   *)
Wrap(k, n) == Ia(<<Uq("n" \o ToString(k)), n>>)
(* r: [n: the result, seen: what the function was given, in order] *)
RECURSIVE Mapped(_, _)
RECURSIVE MappedAll(_, _, _)
MappedAll(n, x, k) ==
  IF x > Len(n.c) THEN [c |-> <<>>, seen |-> <<>>]
  ELSE LET child == n.c[x]
           one == TLCEval(IF child.t = "el" THEN LET r == Mapped(Val(child), k) IN [n |-> [child EXCEPT !.c = <<r.n>>], seen |-> r.seen]
                          ELSE IF n.t = "ia" THEN Mapped(child, k) ELSE [n |-> child, seen |-> <<>>])
           more == MappedAll(n, x + 1, k + Len(one.seen))
       IN [c |-> <<one.n>> \o more.c, seen |-> one.seen \o more.seen]
Mapped(n, k) ==
  LET r == TLCEval(IF n.t \in Collection THEN MappedAll(n, 1, k) ELSE [c |-> n.c, seen |-> <<>>])
      given == [n EXCEPT !.c = r.c]
  IN [n |-> Wrap(k + Len(r.seen), given), seen |-> Append(r.seen, given)]
============================================================================
