----------------------------- MODULE GenPretty ----------------------------
(* What is pretty-printed. PLAN pretty: documents as the parser gives them;  *)
(* PLAN prettydocs: every small document; PLAN prettystrings: every short    *)
(* string; PLAN prettychars: strings with every character in every place;    *)
(* PLAN prettyvalue: serialized values.                                      *)
EXTENDS GenSerde

GShort == [keys |-> KeysFew, deep |-> 8, long |-> FALSE, com |-> 0, al |-> 5, names |-> <<"x", "y">>]
Profile(h) == CASE N(Sub(h, 3), 6) < 2 -> GLong [] N(Sub(h, 3), 6) = 2 -> [GText EXCEPT !.com = 45] [] N(Sub(h, 3), 6) < 5 -> GShort [] OTHER -> GText
PrettyDoc(n) ==
  LET h == CaseSeed(n)
  IN [f |-> "pretty", no |-> n, src |-> "doc", doc |-> TLCEval(IF Odds(Sub(h, 7), 1, 40) THEN DeepDoc(Sub(h, 8)) ELSE Document(Sub(h, 1), 2 + N(Sub(h, 4), 3), Profile(h)))]
PrettyValue(n) == LET c == Case(n) IN [f |-> "pretty", no |-> n, src |-> "value", schema |-> c.schema, value |-> c.value]
PrettySmall(n) ==
  LET h == CaseSeed(n)
      d == TLCEval(Fill(Sub(h, 1), AsDoc(NthShape(n)), Profile(h), FALSE))
  IN [f |-> "pretty", no |-> n, src |-> "doc", doc |-> d]
(* the n-th short string in quotes, in the places that a string can have *)
RECURSIVE Parts(_, _, _, _)
Parts(x, dq, j, run) ==
  LET end == IF run = "" THEN <<>> ELSE <<Str(run)>>
      part == IF Ch(x, j) = "\n" THEN Esc("n") ELSE Esc(Ch(x, j))
  IN IF j > Len(x) THEN end
     ELSE IF Ch(x, j) \in ({"\n"} \cup (IF dq THEN {"\"", "\\"} ELSE {"'"}))
          THEN TLCEval(end \o <<part>>) \o Parts(x, dq, j + 1, "")
          ELSE Parts(x, dq, j + 1, TLCEval(run \o Ch(x, j)))
Quotes(x, dq, before, after) ==
  LET p == TLCEval(Parts(x, dq, 1, before))
      all == IF after = "" THEN p
             ELSE IF p # <<>> /\ Last(p).t = "str" THEN Append(Front(p), Str(Last(p).s \o after)) ELSE Append(p, Str(after))
  IN IF dq THEN Dq(all) ELSE Sq(all)
PrettyString(n) ==
  LET x == TLCEval(TextNo(n))
      v == TLCEval(Quotes(x, HasCh(x, {"\n"}) \/ n % 2 = 0, "", ""))
      long == TLCEval(Quotes(x, TRUE, LongText[1] \o (IF n % 3 = 0 THEN "" ELSE " "), LongText[3]))
      g(k) == Odds(Sub(CaseSeed(n), k), 1, 3)
  IN [f |-> "pretty", no |-> n, src |-> "doc",
      doc |-> TLCEval(Doc(<<Bh(<<El("k", IF g(1) THEN "x" ELSE "", v)>> \o (IF g(2) THEN <<Ic(" i")>> ELSE <<>>)
                               \o <<El("s", "", Ba(<<El("", "", v), El("", IF g(3) THEN "y" ELSE "", Uq("v"))>> \o (IF g(4) THEN <<Ic(" i")>> ELSE <<>>))),
                                    El("f", "", Ih(<<El("a", "", v), El("b", "", Ia(<<v>>))>>)), El("l", "", long),
                                    El("t", "", Ba(<<El("", "", Bh(<<El("a", "", v)>>)), El("", "", v)>>))>>)>>))]
PrettyCase(n) == IF Plan \in {"prettystrings", "prettychars"} THEN PrettyString(n) ELSE IF Plan = "prettydocs" THEN PrettySmall(n) ELSE IF Plan = "prettyvalue" THEN PrettyValue(n) ELSE PrettyDoc(n)
PInit == i = Shard /\ Emit(PrettyCase(Shard))
PNext == i + Shards < Total /\ i' = i + Shards /\ Emit(PrettyCase(i + Shards))
PSpec == PInit /\ [][PNext]_i
============================================================================
