----------------------------- MODULE GenScalar ----------------------------
(* Scalars in memory. PLAN scalar: drawn; PLAN scalars: every sequence of up  *)
(* to a number of parts or lines over a small set, in every style.              *)
EXTENDS Driver, Gen

VARIABLE i

AnyParts(h, n, set) == [x \in 1..n |-> LET r == Sub(h, x) IN
  CASE W(Sub(r, 1), <<5, 3, 2, 1>>) = 1 -> Str(Pick(Sub(r, 2), Quoted))
    [] W(Sub(r, 1), <<5, 3, 2, 1>>) = 2 -> Esc(Pick(Sub(r, 2), set))
    [] W(Sub(r, 1), <<5, 3, 2, 1>>) = 3 -> Bl(Seldom(Sub(r, 3), 4, 1 + N(Sub(r, 2), 3)))
    [] OTHER -> Rn]
AnyLine(h) == CASE W(Sub(h, 1), <<5, 3, 2, 1>>) = 1 -> Pick(Sub(h, 2), Lines)
                [] W(Sub(h, 1), <<5, 3, 2, 1>>) = 2 -> ""
                [] W(Sub(h, 1), <<5, 3, 2, 1>>) = 3 -> Sp(Seldom(Sub(h, 4), 4, 1 + N(Sub(h, 3), 3))) \o Pick(Sub(h, 2), Lines)
                [] OTHER -> Pick(Sub(h, 2), <<"\ta", " ", "  ", "\t", "é", " \t", "a ">>)
(* many lines are often many blank lines *)
AnyLines(h, n) == [x \in 1..n |-> Ln(IF n > 7 /\ Odds(Sub(h, 90), 1, 2) /\ ~Odds(Sub(h, 100 + x), 1, 6) THEN "" ELSE AnyLine(Sub(h, x)))]
Chomps == <<"clip", "strip", "keep">>
ScalarNode(h) ==
  CASE W(Sub(h, 1), <<2, 5, 5, 6, 8, 2>>) = 1 -> Uq(Pick(Sub(h, 2), Plain))
    [] W(Sub(h, 1), <<2, 5, 5, 6, 8, 2>>) = 2 -> Sq(AnyParts(Sub(h, 2), Seldom(Sub(h, 5), 6, N(Sub(h, 3), 6)), <<"'">>))
    [] W(Sub(h, 1), <<2, 5, 5, 6, 8, 2>>) = 3 -> Dq(AnyParts(Sub(h, 2), Seldom(Sub(h, 5), 6, N(Sub(h, 3), 6)), EscDq))
    [] W(Sub(h, 1), <<2, 5, 5, 6, 8, 2>>) = 4 -> Lit(Pick(Sub(h, 4), Chomps), AnyLines(Sub(h, 2), Seldom(Sub(h, 5), 8, N(Sub(h, 3), 7))))
    [] W(Sub(h, 1), <<2, 5, 5, 6, 8, 2>>) = 5 -> Fold(Pick(Sub(h, 4), Chomps), AnyLines(Sub(h, 2), Seldom(Sub(h, 5), 8, N(Sub(h, 3), 8))))
    [] OTHER -> Pick(Sub(h, 2), <<Anch("x"), Ia(<<>>), Ih(<<>>), Ba(<<El("", "", Uq("a"))>>), Bh(<<El("a", "", Uq("b"))>>)>>)

(* every scalar: kinds by number, then parts by number *)
EachLine == <<"a", "", " b", "c", "\td">>
EachPart == <<Str("a"), Esc("\""), Esc("n"), Bl(1), Rn, Esc("\\")>>
EachPart1 == <<Str("a"), Esc("'"), Bl(1), Bl(2), Rn, Str(" b ")>>
RECURSIVE Numbered(_, _, _)
Numbered(k, len, set) == IF len = 0 THEN <<>> ELSE <<set[1 + (k % Len(set))]>> \o Numbered(k \div Len(set), len - 1, set)
RECURSIVE NthList(_, _, _, _)
NthList(k, len, size, set) == IF k < size THEN Numbered(k, len, set) ELSE NthList(k - size, len + 1, size * Len(set), set)
Nth(k, set) == NthList(k, 0, 1, set)
EveryScalar(k) ==
  LET style == k % 8
      j == k \div 8
      lines == [x \in 1..Len(Nth(j, EachLine)) |-> Ln(Nth(j, EachLine)[x])]
  IN CASE style < 3 -> Fold(Chomps[style + 1], lines)
       [] style < 6 -> Lit(Chomps[style - 2], lines)
       [] style = 6 -> Dq(Nth(j, EachPart))
       [] OTHER -> Sq(Nth(j, EachPart1))
Case(n) == [f |-> "scalar", no |-> n, doc |-> IF Plan = "scalars" THEN EveryScalar(n) ELSE ScalarNode(CaseSeed(n))]
Init == i = Shard /\ Emit(Case(Shard))
Next == i + Shards < Total /\ i' = i + Shards /\ Emit(Case(i + Shards))
Spec == Init /\ [][Next]_i
============================================================================
