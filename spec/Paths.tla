------------------------------- MODULE Paths ------------------------------
(* Paths: a non-empty sequence of parts                                      *)
(*   [t: "root" | "key" | "idx" | "all", k: key, ns: indexes, cs: conditions] *)
(* with conditions [f: field, v: value]; indexes are decimal numerals, for    *)
(* they may be larger than TLC's integers. Only a path of its own is "root".   *)
EXTENDS Base

Seg(t, k, ns, cs) == [t |-> t, k |-> k, ns |-> ns, cs |-> cs]
RootPath(cs) == <<Seg("root", "", <<>>, cs)>>
KeySeg(k, cs) == Seg("key", k, <<>>, cs)
IdxSeg(n, cs) == Seg("idx", "", <<n>>, cs)
AllSeg(cs) == Seg("all", "", <<>>, cs)
Cond(f, v) == [f |-> f, v |-> v]

(* Appending a path: a root path has nothing in front of what is appended. *)
Append2(p, q) == IF p[1].t = "root" THEN q ELSE p \o q

(* ------------------------ the text of a path ---------------------------- *)
CondText(cs) == Concat([i \in 1..Len(cs) |-> "|" \o cs[i].f \o "=" \o cs[i].v])
SegText(s, first) ==
  CASE s.t = "root" -> CondText(s.cs)
    [] s.t = "key" -> (IF first THEN "" ELSE ".") \o s.k \o CondText(s.cs)
    [] s.t = "idx" -> "[" \o s.ns[1] \o "]" \o CondText(s.cs)
    [] OTHER -> "[*]" \o CondText(s.cs)
PathText(p) == Concat([i \in 1..Len(p) |-> SegText(p[i], i = 1)])

(* ------------------------- reading a path ------------------------------- *)
(* The grammar of paths, on a sequence of characters. Spaces are skipped      *)
(* between the tokens; a key, field or value ends at its stop characters and    *)
(* does not hold the spaces before and after it. Position 0 is failure.           *)
RECURSIVE Skip(_, _)
Skip(cs, p) == IF p <= Len(cs) /\ cs[p] = " " THEN Skip(cs, p + 1) ELSE p
At(cs, p, c) == p <= Len(cs) /\ cs[p] = c
Is(cs, p, stop) == p <= Len(cs) /\ cs[p] \notin stop \cup {" "}
RECURSIVE ItemsFrom(_, _, _)
ItemsFrom(cs, e, stop) == LET q == Skip(cs, e) IN IF Is(cs, q, stop) THEN ItemsFrom(cs, q + 1, stop) ELSE e
Items(cs, p, stop) == IF Is(cs, p, stop) THEN ItemsFrom(cs, p + 1, stop) ELSE 0
Span(cs, p, e) == Concat(SubSeq(cs, p, e - 1))
KeyStop == {"[", "]", ".", "|"}

NoMatch == [p |-> 0, v |-> <<>>]
Condition(cs, p) ==
  LET fe == Items(cs, p, {"="})
      eq == Skip(cs, fe)
      vs == Skip(cs, eq + 1)
      ve == Items(cs, vs, {".", "|"})
  IN IF fe = 0 THEN NoMatch ELSE IF ~At(cs, eq, "=") THEN NoMatch ELSE IF ve = 0 THEN NoMatch
     ELSE [p |-> ve, v |-> <<Cond(Span(cs, p, fe), Span(cs, vs, ve))>>]
RECURSIVE Conditions(_, _)
Conditions(cs, p) ==
  LET c == IF At(cs, p, "|") THEN Condition(cs, Skip(cs, p + 1)) ELSE NoMatch
      q == Skip(cs, c.p)
      rest == Conditions(cs, q)
  IN IF c.p = 0 THEN [p |-> p, v |-> <<>>]
     ELSE IF rest.v = <<>> THEN c ELSE [p |-> rest.p, v |-> c.v \o rest.v]
KeyPart(cs, p) ==
  LET e == Items(cs, p, KeyStop)
      c == Conditions(cs, Skip(cs, e))
  IN IF e = 0 THEN NoMatch ELSE [p |-> c.p, v |-> <<KeySeg(Span(cs, p, e), c.v)>>]
RECURSIVE Digits(_, _)
Digits(cs, p) == IF p <= Len(cs) /\ cs[p] \in Digit THEN LET q == Digits(cs, p + 1) IN IF q = 0 THEN p + 1 ELSE q ELSE 0
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ FirstCh(s) = "0" THEN NoZeros(From(s, 2)) ELSE s
NumLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ StrLess(a, b))
MaxIndex == "18446744073709551615"
BadNumber == "bad"
IndexPart(cs, p) ==
  LET i == Skip(cs, p + 1)
      e == IF At(cs, i, "*") THEN i + 1 ELSE Digits(cs, i)
      close == Skip(cs, e)
      c == Conditions(cs, Skip(cs, close + 1))
      text == Span(cs, i, e)
      num == IF NumLess(MaxIndex, NoZeros(text)) THEN BadNumber ELSE NoZeros(text)
  IN IF ~At(cs, p, "[") THEN NoMatch ELSE IF e = 0 THEN NoMatch ELSE IF ~At(cs, close, "]") THEN NoMatch
     ELSE [p |-> c.p, v |-> <<IF At(cs, i, "*") THEN AllSeg(c.v) ELSE IdxSeg(num, c.v)>>]
RECURSIVE Parts(_, _)
Parts(cs, p) ==
  LET one == IF At(cs, p, ".") THEN KeyPart(cs, Skip(cs, p + 1)) ELSE IndexPart(cs, p)
      rest == Parts(cs, Skip(cs, one.p))
  IN IF one.p = 0 THEN [p |-> p, v |-> <<>>]
     ELSE IF rest.v = <<>> THEN one ELSE [p |-> rest.p, v |-> one.v \o rest.v]
PathError == [ok |-> FALSE, path |-> <<>>]
PathOf(text) ==
  LET cs == Chars(text)
      key == KeyPart(cs, Skip(cs, 1))
      rest == Parts(cs, Skip(cs, key.p))
      path == key.v \o rest.v
      end == IF rest.v = <<>> THEN key.p ELSE rest.p
      root == Conditions(cs, Skip(cs, 1))
  IN IF key.p # 0
     THEN IF Skip(cs, end) > Len(cs) /\ ~\E i \in 1..Len(path) : path[i].ns = <<BadNumber>>
          THEN [ok |-> TRUE, path |-> path] ELSE PathError
     ELSE IF Skip(cs, root.p) > Len(cs) THEN [ok |-> TRUE, path |-> RootPath(root.v)] ELSE PathError
============================================================================
