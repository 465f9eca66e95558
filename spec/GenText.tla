------------------------------ MODULE GenText -----------------------------
(* Texts: documents of the subset, each written in some layout.              *)
EXTENDS Small, Layout

VARIABLE i                      \* the number of the case that was written last

Profile(h) == CASE N(Sub(h, 3), 8) = 0 -> GLong [] N(Sub(h, 3), 8) = 1 -> [GText EXCEPT !.com = 45] [] OTHER -> GText
Drawn(h) == IF Odds(Sub(h, 7), 1, 12) THEN DeepDoc(Sub(h, 8)) ELSE Document(Sub(h, 1), 2 + N(Sub(h, 4), 3), Profile(h))
(* PLAN docs: every small document *)
SmallDoc(n, h) == Fill(Sub(h, 1), AsDoc(NthShape(n)), Profile(h), FALSE)
TextCase(n) ==
  LET h == CaseSeed(n)
      d == TLCEval(IF Plan = "docs" THEN SmallDoc(n, h) ELSE Drawn(h))
      eol == IF ~HasQuotedBreak(d) /\ Odds(Sub(h, 5), 1, 4) THEN "crlf" ELSE "lf"
  IN [f |-> "text", no |-> n, want |-> d, lines |-> DocT(d, Sub(h, 2)), eol |-> eol]
CanonCase(n) ==
  LET h == CaseSeed(n) IN [f |-> "format", no |-> n, edited |-> FALSE, doc |-> Drawn(h)]
(* PLAN ragged: documents as edits may leave them *)
SomeComments(h, n) == [x \in 1..n |-> (IF Odds(Sub(h, x), 1, 3) THEN Ic(CommentText(Sub(h, 20 + x))) ELSE Cm(CommentText(Sub(h, 20 + x))))]
RECURSIVE Ragged(_, _)
Ragged(h, n) ==
  LET kids == TLCEval([x \in 1..Len(n.c) |-> Ragged(Sub(h, 10 + x), n.c[x])])
      kept == IF Odds(Sub(h, 1), 1, 7) THEN SelectSeq(kids, IsComment)
              ELSE IF Odds(Sub(h, 1), 1, 6) THEN SelectSeq(kids, LAMBDA x : ~IsComment(x))
              ELSE kids
      first == IF Odds(Sub(h, 2), 1, 8) THEN SomeComments(Sub(h, 3), 1 + N(Sub(h, 4), 2)) ELSE <<>>
      last == IF Odds(Sub(h, 5), 1, 5) THEN SomeComments(Sub(h, 6), 1 + N(Sub(h, 7), 3)) ELSE <<>>
      all == first \o kept \o last           \* no edit leaves a comment on the line of no entry
  IN IF n.t \in Block THEN [n EXCEPT !.c = IF all # <<>> /\ all[1].t = "ic" THEN <<Cm(all[1].s)>> \o Tail(all) ELSE all] ELSE [n EXCEPT !.c = kids]
RaggedCase(n) ==
  LET h == CaseSeed(n) IN [f |-> "format", no |-> n, edited |-> TRUE, doc |-> Ragged(Sub(h, 9), Drawn(h))]
Case(n) == CASE Plan = "format" -> CanonCase(n) [] Plan = "ragged" -> RaggedCase(n) [] OTHER -> TextCase(n)

Init == i = Shard /\ Emit(Case(Shard))
Next == i + Shards < Total /\ i' = i + Shards /\ Emit(Case(i + Shards))
Spec == Init /\ [][Next]_i
============================================================================
