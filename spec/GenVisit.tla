----------------------------- MODULE GenVisit -----------------------------
(* Trees to visit and map: any nesting, also block collections within flow      *)
(* collections (which only trees in memory have). PLAN visitdocs: every small     *)
(* document.                                                                        *)
EXTENDS Small

VARIABLE i

RECURSIVE Tree(_, _)
Tree(h, d) ==
  LET kind == IF d = 0 THEN 1 ELSE W(Sub(h, 1), <<3, 3, 2, 2, 3>>)
      wide == Odds(Sub(h, 90), 1, WideOdds)
      n == IF wide THEN Wide(h) ELSE Count(Sub(h, 2), <<1, 4, 4, 2>>)
      alias(x) == IF Odds(Sub(h, 40 + x), 1, 5) THEN Pick(Sub(h, 50 + x), Names) ELSE ""
      sub(x) == Tree(Sub(h, 10 + x), IF wide THEN 0 ELSE d - 1)
      notes(x) == IF Odds(Sub(h, 60 + x), 1, 6) THEN <<IF Odds(Sub(h, 70 + x), 1, 2) THEN Cm(" c") ELSE Ic(" i")>> ELSE <<>>
  IN CASE kind = 1 -> (CASE N(Sub(h, 3), 8) < 5 -> FlowScalar(Sub(h, 4), GText, FALSE)
                         [] N(Sub(h, 3), 8) = 5 -> Anch("x")
                         [] OTHER -> BlockValueScalar(Sub(h, 4), GText))
       [] kind = 2 -> Bh(Flat([x \in 1..n |-> <<El(Pick(Sub(h, 30 + x), KeysFew), alias(x), sub(x))>> \o notes(x)]))
       [] kind = 3 -> Ba(Flat([x \in 1..n |-> <<El("", alias(x), sub(x))>> \o notes(x)]))
       [] kind = 4 -> Ia([x \in 1..n |-> sub(x)])
       [] OTHER -> Ih([x \in 1..n |-> El(Pick(Sub(h, 30 + x), KeysFew), "", sub(x))])
Case(n) == LET h == CaseSeed(n) IN [f |-> "visit", no |-> n, 
                                    doc |-> TLCEval(IF Plan = "visitdocs" THEN (LET t == Fill(Sub(h, 1), NthShape(n), GText, FALSE) IN IF Odds(Sub(h, 5), 1, 3) THEN Inlined(Sub(h, 6), t) ELSE t) ELSE IF Odds(Sub(h, 3), 1, 40) THEN DeepDoc(Sub(h, 4)).c[1] ELSE Tree(Sub(h, 1), 2 + N(Sub(h, 2), 3)))]
Init == i = Shard /\ Emit(Case(Shard))
Next == i + Shards < Total /\ i' = i + Shards /\ Emit(Case(i + Shards))
Spec == Init /\ [][Next]_i
============================================================================
