---------------------------- MODULE GenGrammar ----------------------------
(* Texts of any kind, for what the grammar makes of them: texts of documents *)
(* with a few mistakes in them, lines and tokens put together at random, and   *)
(* every text of a few short lines.                                              *)
EXTENDS Driver, Gen, Layout, Chars

VARIABLE i                      \* the number of the case that was written last

(* ------------------------------- mistakes ------------------------------- *)
Bits == <<" ", "  ", "\t", ":", ": ", "-", "- ", "#", " #", "'", "\"", "[", "]", "{", "}", ",", "|", ">", "&", "*", "&x ", "*x", "\\", "a", "k: ", "0",
          "---", "|2", ">-", "|+", "&", "é", " ", "　", "=", "\r">>
Put(s, at, bit) == SubSeq(s, 1, at) \o bit \o From(s, at + 1)           \* after the first at characters
RECURSIVE Lead(_, _)
Lead(s, x) == IF x <= Len(s) /\ Ch(s, x) = " " THEN Lead(s, x + 1) ELSE x - 1
Edited(ls, h) ==
  LET n == 1 + N(Sub(h, 1), Len(ls))
      s == ls[n]
      at == N(Sub(h, 2), Len(s) + 1)
      m == 1 + N(Sub(h, 3), Len(ls))
      lead == Lead(s, 1)
  IN CASE W(Sub(h, 4), <<4, 6, 2, 2, 2, 2, 4, 2, 1>>) = 1 -> ReplaceAt(ls, n, SubSeq(s, 1, at) \o From(s, at + 2))
       [] W(Sub(h, 4), <<4, 6, 2, 2, 2, 2, 4, 2, 1>>) = 2 -> ReplaceAt(ls, n, Put(s, at, Pick(Sub(h, 5), Bits)))
       [] W(Sub(h, 4), <<4, 6, 2, 2, 2, 2, 4, 2, 1>>) = 3 -> IF Len(ls) = 1 THEN ls ELSE RemoveAt(ls, n)
       [] W(Sub(h, 4), <<4, 6, 2, 2, 2, 2, 4, 2, 1>>) = 4 -> InsertAt(ls, m, s)
       [] W(Sub(h, 4), <<4, 6, 2, 2, 2, 2, 4, 2, 1>>) = 5 -> [ls EXCEPT ![n] = ls[m], ![m] = s]
       [] W(Sub(h, 4), <<4, 6, 2, 2, 2, 2, 4, 2, 1>>) = 6 -> InsertAt(ReplaceAt(ls, n, From(s, at + 1)), n, SubSeq(s, 1, at))
       [] W(Sub(h, 4), <<4, 6, 2, 2, 2, 2, 4, 2, 1>>) = 7 -> ReplaceAt(ls, n, Sp(N(Sub(h, 5), lead + 3)) \o From(s, lead + 1))
       [] W(Sub(h, 4), <<4, 6, 2, 2, 2, 2, 4, 2, 1>>) = 8 -> IF n = Len(ls) THEN ls ELSE RemoveAt(ReplaceAt(ls, n, s \o Pick(Sub(h, 5), <<"", " ", ", ">>) \o ls[n + 1]), n + 1)
       [] OTHER -> SubSeq(ls, 1, n)
RECURSIVE EditedTimes(_, _, _)
EditedTimes(ls, h, n) == IF n = 0 THEN ls ELSE EditedTimes(TLCEval(Edited(ls, Sub(h, 1))), Sub(h, 2), n - 1)
Mangled(h) ==
  LET d == Document(Sub(h, 1), 1 + N(Sub(h, 4), 3), [GText EXCEPT !.com = Pick(Sub(h, 5), <<0, 20, 45>>)])
  IN EditedTimes(DocT(d, Sub(h, 2)), Sub(h, 3), Pick(Sub(h, 6), <<0, 1, 1, 2, 2, 3>>))
Deep(h) == EditedTimes(DocT((LET v == Chain(Sub(h, 1), 1 + N(Sub(h, 2), 16)) IN Doc(<<[v EXCEPT !.c = DropLeading(v.c)]>>)), Sub(h, 3)), Sub(h, 4), Pick(Sub(h, 5), <<0, 0, 1>>))

(* --------------------------------- lines -------------------------------- *)
Heads == <<"a:", "b:", "k k:", "a: ", "- ", "-", "- - ", "- a: ", "a : ", "- &x ", "a: &x ", "b: ", "c: ", "é: ", "- b:", "- - a:", "a-:", "- - - ", "a: - ", "-  ", "_:\t">>
Tails == <<"", "v", "v w", "'q'", "\"d\"", "[]", "{}", "[a, b]", "{a: b}", "*x", "|", ">", "|-", ">+", "|2", "|1", ">3-", "|12", "a: b", "- a", "'", "\"", "[", "{", "]", "}", "[a,", "b]", "- ", "#", "'a", "b'", "x:y",
           "a: b: c", "it's", "a\"b", "a#b", "[a, [b], {c: d}]", "{a: [b]}", "[a b, c d]", "{a: , b: c}", "[- a]", "{a}", "[a,, b]", "\"\\n\"", "\"\\x\"", "''", "'a''b'", "\"a\\", "&x", "&x v", "*", "* x", "& x", "---", "~", ":", ": ", ",", "-", "-x", "a :b", "é", "?"
           >>
Ends == <<"", "", "", "", "", " ", "  ", " # c", "# c", "#", " #", "\t", " \t">>
OneLine(h) ==
  LET body == CASE W(Sub(h, 1), <<8, 5, 2, 2, 2>>) = 1 -> Pick(Sub(h, 2), Heads) \o Pick(Sub(h, 3), Tails) \o Pick(Sub(h, 4), Ends)
                [] W(Sub(h, 1), <<8, 5, 2, 2, 2>>) = 2 -> Pick(Sub(h, 2), Heads)
                [] W(Sub(h, 1), <<8, 5, 2, 2, 2>>) = 3 -> Pick(Sub(h, 3), Tails)
                [] W(Sub(h, 1), <<8, 5, 2, 2, 2>>) = 4 -> "#" \o CommentText(Sub(h, 2))
                [] OTHER -> ""
  IN Sp(Pick(Sub(h, 5), <<0, 0, 0, 1, 2, 2, 2, 3, 4, 4, 5, 6>>)) \o body
AnyLines(h) ==
  LET n == 1 + N(Sub(h, 1), 6)
      top == Pick(Sub(h, 2), <<<<"---">>, <<"---">>, <<"---">>, <<"---">>, <<"---">>, <<"---">>, <<"# c", "---">>, <<"--- ">>, <<"---", "# c">>, <<>>, <<"", "---">>, <<"--- #c">>>>)
  IN top \o [x \in 1..n |-> OneLine(Sub(h, 10 + x))]
Tokens(h) ==
  LET n == 1 + N(Sub(h, 1), 10)
      piece(x) == LET r == Sub(h, 10 + x) IN IF Odds(Sub(r, 1), 1, 4) THEN Pick(Sub(r, 2), <<"\n", "\n  ", "\n ", "\n\n">>) ELSE Pick(Sub(r, 2), Bits \o Heads \o Tails)
  IN Split((IF Odds(Sub(h, 2), 9, 10) THEN "---\n" ELSE "") \o Concat([x \in 1..n |-> piece(x)]), "\n")

(* ---------------------------------- all --------------------------------- *)
Forms == <<"a:", "b: v", "-", "- v", "- a:", "- b: v", "- - v", "v", "", "# c", "a: |", "- >2", "[v,", "]", "a: 'x", "y'", "&x a: v", "- &x", "a: &x", "b: *x # c", "- &x b: v">>
Cols == <<0, 1, 2, 4>>
Kinds == Len(Forms) * Len(Cols)
RECURSIVE Numbered(_)           \* the lines of the n-th text, n >= 1
Numbered(n) == IF n = 0 THEN <<>>
               ELSE LET m == (n - 1) % Kinds
                    IN Numbered((n - 1) \div Kinds) \o <<Sp(Cols[1 + (m % Len(Cols))]) \o Forms[1 + (m \div Len(Cols))]>>
Every(n) == <<"---">> \o Numbered(n + 1)

(* -------------------------------- characters ---------------------------- *)
(* every character, and every two characters, in every place: the places by number, *)
(* then the characters                                                                *)
Places == <<"k: \"\\@\"", "k: \"a\\@b\"", "k: \"@\"", "k: \"a@ b\"", "k: '@'", "k: 'a@b'", "k: @", "k: v@",
             "k: v @", "k: v@w", "k: @ w", "k:  @v", "@", "@: v", "k@: v", "k@k: v",
             "k @: v", "k:@", "k:@v", "k: [@]", "k: [a@, b]", "k: [@ a]", "k: [a @b]", "k: [a, @]",
             "k: [ \"a\"@ ]", "k: {@: v}", "k: {k@: v}", "k: {k: @}", "k: {k: a@b}", "k: {k@v}", "k: {k:@v}", "- @",
             "-@", "- v@", "-@v", "- @: v", "- k:@", "k: &@ v", "k: &a@ v", "k: &a@v",
             "k: *@", "k: *a@", "k: *a @", "k: |@\n  t", "k: >@\n  t", "k: |2@\n  t", "k: |-@\n  t", "k: |@2\n  t",
             "k: |\n  @", "k: |\n @a\n  b", "k: |\n  a\n@b", "k: |\n  a\n @b", "k: >\n  @a\n  b", "k: v #@", "k: v@# c", "#@\nk: v",
             "k: v\n#@\nj: w", "k:\n@v", "k:\n @v", "k:\n@- v", "k:\n @- v", "k: v\n@", "k: v\n@j: w", "k: 'a'@",
             "k: \"a\"@", "k: [a]@", "k: {}@", "- a\n@- b", "- - a\n @- b", "- a: b\n @c: d", "k: \"a\n@b\"", "k: 'a\n@\nb'">>
Characters(n) == <<"---">> \o Split(Placed(n, Places), "\n")

(* ---------------------------------- cases ------------------------------- *)
AnyText(h) ==
  LET kind == W(Sub(h, 1), <<10, 10, 20, 1>>)
  IN CASE kind = 1 -> Tokens(Sub(h, 2)) [] kind = 2 -> AnyLines(Sub(h, 2)) [] kind = 3 -> Mangled(Sub(h, 2)) [] OTHER -> Deep(Sub(h, 2))
Case(n) ==
  LET h == CaseSeed(n)
  IN [f |-> "text", no |-> n, lines |-> IF Plan = "every" THEN Every(n) ELSE IF Plan = "chars" THEN Characters(n) ELSE AnyText(h),
      eol |-> IF Plan = "any" /\ Odds(Sub(h, 9), 1, 6) THEN "crlf" ELSE "lf", want |-> Nd("none", "", <<>>)]

Init == i = Shard /\ Emit(Case(Shard))
Next == i + Shards < Total /\ i' = i + Shards /\ Emit(Case(i + Shards))
Spec == Init /\ [][Next]_i
============================================================================
