-------------------------------- MODULE Gen -------------------------------
(* Documents of the subset, drawn with the choice points of Base. Every value *)
(* drawn by Value is one that a text can denote (see Layout).                  *)
(* g: [keys, deep: weight of collections, long: long strings too, com: percent  *)
(* of comments, al: percent of aliases, names: alias names].                     *)
EXTENDS Node

KeysFew == <<"a", "b", "c", "k", "type", "x y">>
KeysNear == <<"a", "b", "c", "k", "type", "x y", "a", "b", "k", "A", "aa", "Type", "x">>
KeysMany == <<"a", "b", "key", "k1", "_x", "9", "a b", "a-b", "A", "n 1-2", "été", "日本", "true", "null", "ß_", "x-", "kk  k", "a_key_that_is_longer_than_forty_columns_in_all", "many words in a key and then some more of them", Times("very_", 26) \o "long">>
Plain == <<"v", "w", "value", "a b", "true", "false", "null", "~", "12", "-3", "1.5", "1e3", "x:y", "http://e.f/g?h=i", "it's",
           "-x", "a-b", "a - b", "é ß", "日本 x", "=", "@x", "%p", "`t`", "!t", "\\n", "a\\b", "a\tb", "0x1F", "1_000", "yes", "No",
           "+5", "inf", "NaN", ".5", "5.", ".", "---", "$x", "100000000000000000000", "Null", "TRUE", "a  b", "😀", "x :y", "<<", "? q">>
PlainFlow == <<"-", "- x", "-", "foo -", "*", "&", "* a", "&a", "> a" >>
PlainBlock == <<"a,b", "say \"hi\"", "foo>bar", "a|b", "a]b", "a}", "x{y}", "a[0]", ",", "f(x, y)", "a \"q\" b", "x > 1", "it's \"so\"">>
LongText == <<"Lorem ipsum dolor sit amet consectetur adipiscing elit sed do eiusmod tempor incididunt ut labore et dolore",
              "https://example.org/a/very/long/path/that/has/no/space/in/it/at/all/and/goes/on/and/on/and/on/for/ever",
              "one two  three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen",
              "été été été été été été été été été été été été été été été été été été été été été été été été été été"
            >>
LongBlock == <<"sqrt( {d}^({r*n+m}m+{p}) * x^({r*a+p})  * y^{b*r+q} ), [and, so, on] with \"quotes\" in the \"text\" for long",
               "a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z">>
(* words, and seldom a long one *)
Longish(h) == CASE N(Sub(h, 1), 4) = 0 -> Times("abcdefghij", 6 + N(Sub(h, 2), 40))
                [] N(Sub(h, 1), 4) = 1 -> "short words and " \o Times("long", 10 + N(Sub(h, 2), 60)) \o " and more words"
                [] N(Sub(h, 1), 4) = 2 -> Times("ab cde f  ", 8 + N(Sub(h, 2), 40)) \o "end"
                [] OTHER -> Times("word ", 12 + N(Sub(h, 2), 60)) \o "end"
(* texts of quoted strings: anything *)
Quoted == <<"a", "b c", " ", "x: y", "# no", "- z", "[", "]", "{}", "key:", ", ", "*a", "&b", "true", "12", "null", "~", "é", "\t", "|", ">",
            "a > b", "-", "0.5", " lead", "trail ", "1e9", "q?", "a: b # c", "--- ", "日", "%", "yes", "@", "-1", "+1", "- ", ":", "x:", "NULL", "a\rb", " w", "w ", " ", "　", "\t\t", "::", "a #", "TRUE", "~ ", "0x1", ".inf", "a:", "'", "\"", "nan", "NaN", "inf", "-inf", "+inf", "Infinity", "5.", "-.5", ".5", "1E3", "-0", "+0.0", "100000000000000000000", "1_000", "Null", "nULL", "True", "False", "false", "No", "on", "Off", "=", "<<", "---", "...", "!t", "? q", "@x", "`", "%p">>
Lines == <<"a", "text here", "x: y", "# no", "- z", "key:", "é日", "it's \"q\"", "end.", "{x}", "\\n", "word word word", "&a *b", "|", "---", "x  y", "trail ", " ", "　x", "- b: c", "...", "k: |", "]", "a\tb", "*x", "'", "\"q", "A", "0", Times("word ", 22) \o "end", Times("0123456789", 14), "a  b " \o Times("c: d # ", 12)>>
CommentTexts == <<" c", "", " note: x", "c2", "# x", " é", " - a", " 'q", " \"", " trail ", " k: v", "\tt", "{", "]", " *a",
                  " a comment that does not end before the ninetieth column of its line, for it goes on and on and on", Times(" and on", 33)>>

(* a text that is almost s: another case, one character more or less *)
SmallLetters == "abcdefghijklmnopqrstuvwxyzé"
CapitalLetters == "ABCDEFGHIJKLMNOPQRSTUVWXYZÉ"
FlipCase(c) == IF HasCh(SmallLetters, {c}) THEN Ch(CapitalLetters, CHOOSE j \in 1..Len(SmallLetters) : Ch(SmallLetters, j) = c)
               ELSE IF HasCh(CapitalLetters, {c}) THEN Ch(SmallLetters, CHOOSE j \in 1..Len(CapitalLetters) : Ch(CapitalLetters, j) = c) ELSE c
Near(h, s) ==
  IF s = "" THEN "x"
  ELSE CASE N(Sub(h, 1), 5) = 0 -> FlipCase(Ch(s, 1)) \o From(s, 2)
         [] N(Sub(h, 1), 5) = 1 -> SubSeq(s, 1, Len(s) - 1) \o FlipCase(Ch(s, Len(s)))
         [] N(Sub(h, 1), 5) = 2 -> s \o Pick(Sub(h, 2), <<"x", "a", "1", "_", "-">>)
         [] N(Sub(h, 1), 5) = 3 -> Pick(Sub(h, 2), <<"x", "a", "1", "_">>) \o s
         [] OTHER -> IF Len(s) > 1 THEN SubSeq(s, 1, Len(s) - 1) ELSE s \o s

(* texts of any characters *)
OddFirst == <<"a", "B", "_", "é", "日", "😀", "½", "Ⅷ", "٣", "(", ".", "/", "$", "%", "=", "@", "\\", "^", "~", "!", "<", "?", "+", "`", ";", ")", "0", "﻿", "​", "é">>
OddInner == OddFirst \o <<"*", "&", "'", "-", "\t", "\f", "z", "9", "²">>
OddSpace == <<" ", " ", "　", "  ", "\t">>
OddAny == OddInner \o OddSpace \o <<"#", ":", ",", "[", "]", "{", "}", "|", ">", "#", ": ", "- ">>
Run(h, s) == Times(Pick(Sub(h, 1), s), IF Odds(Sub(h, 2), 1, 6) THEN 2 + N(Sub(h, 3), 2) ELSE 1)
RECURSIVE Runs(_, _, _)
Runs(h, s, n) == IF n = 0 THEN "" ELSE Run(Sub(h, 1), s) \o Runs(Sub(h, 2), s, n - 1)
(* a plain string: blanks are within it *)
OddWord(h) == Run(Sub(h, 1), OddFirst) \o Runs(Sub(h, 2), OddInner, N(Sub(h, 3), 3))
OddPlain(h) == OddWord(Sub(h, 1)) \o (IF Odds(Sub(h, 2), 1, 3) THEN Run(Sub(h, 3), OddSpace) \o OddWord(Sub(h, 4)) ELSE "")
(* any text that needs no escape in quotes *)
OddText(h) == Runs(Sub(h, 1), OddAny, 1 + N(Sub(h, 2), 4))
CommentText(h) == IF Odds(Sub(h, 1), 1, 6) THEN Pick(Sub(h, 2), <<"", " ", "#", "##", " #">>) \o OddText(Sub(h, 3)) ELSE Pick(Sub(h, 4), CommentTexts)

Maybe(h, pct, x) == IF N(h, 100) < pct THEN <<x>> ELSE <<>>
Count(h, ws) == W(h, ws) - 1                    \* 0.. by weights

RECURSIVE Draw(_, _, _)
Draw(h, s, n) == [i \in 1..n |-> Pick(Sub(h, i), s)]

(* --------------------------------- scalars ------------------------------ *)
(* Parts of a quoted string: no two texts next to each other, and no line     *)
(* break after a line break.                                                   *)
EscDq == <<"n", "\\", "r", "t", "\"", "n", "\n">>
RECURSIVE PartsFrom(_, _, _, _)
PartsFrom(h, n, prev, dq) ==
  IF n = 0 THEN <<>>
  ELSE LET kind == W(Sub(h, 1), <<IF prev = "str" THEN 0 ELSE 6, 3, IF prev \in {"bl", "rn"} THEN 0 ELSE 1, IF prev \in {"bl", "rn"} THEN 0 ELSE 1>>)
           part == CASE kind = 1 -> (LET s == IF Odds(Sub(h, 5), 1, 8) THEN OddText(Sub(h, 6)) ELSE Pick(Sub(h, 2), Quoted) IN Str(IF HasCh(s, IF dq THEN {"\"", "\\"} ELSE {"'"}) THEN "q" ELSE s))
                     [] kind = 2 -> IF dq THEN Esc(Pick(Sub(h, 2), EscDq)) ELSE Esc("'")
                     [] kind = 3 -> Bl(Seldom(Sub(h, 4), 4, 1 + Count(Sub(h, 2), <<4, 1, 1>>)))
                     [] OTHER -> Rn
       IN <<part>> \o PartsFrom(Sub(h, 3), n - 1, part.t, dq)
QuotedParts(h, g, dq) ==
  LET n == Seldom(Sub(h, 3), 6, Count(Sub(h, 1), <<1, 6, 4, 4, 2, 1>>))
      long == IF g.long /\ Odds(Sub(h, 4), 1, 4) THEN <<Str(IF Odds(Sub(h, 6), 1, 4) THEN Longish(Sub(h, 7)) ELSE Pick(Sub(h, 5), LongText \o LongBlock))>> ELSE <<>>
      ok(p) == p.t # "str" \/ ~HasCh(p.s, {IF dq THEN "\"" ELSE "'"})
      body == PartsFrom(Sub(h, 2), n, IF long = <<>> THEN "" ELSE "str", dq)
  IN SelectSeq(long, ok) \o body
(* no text next to a text: only where a long text with quotes was dropped *)
BlockLines(h) ==
  LET n == Seldom(Sub(h, 2), 6, 1 + Count(Sub(h, 1), <<4, 6, 4, 2, 1>>))
      ws == IF n > 5 /\ Odds(Sub(h, 3), 1, 2) THEN <<1, 8, 1>> ELSE <<8, 2, 2>>
      line(i) == LET r == Sub(h, 10 + i)
                     words == IF Odds(Sub(r, 5), 1, 10) THEN Pick(Sub(r, 6), OddInner) \o OddText(Sub(r, 7)) ELSE Pick(Sub(r, 2), Lines)
                 IN CASE W(Sub(r, 1), ws) = 1 -> words
                      [] W(Sub(r, 1), ws) = 2 -> ""
                      [] OTHER -> Sp(Seldom(Sub(r, 4), 4, 1 + N(Sub(r, 3), 3))) \o words
  IN TLCEval([i \in 1..n |-> Ln(line(i))])
Chomp(h) == Pick(h, <<"clip", "clip", "strip", "keep">>)
FlowScalar(h, g, flow) ==
  CASE W(Sub(h, 1), <<6, 2, 2>>) = 1 -> Uq(IF g.long /\ Odds(Sub(h, 3), 1, 12) THEN (IF Odds(Sub(h, 8), 1, 4) THEN Longish(Sub(h, 9)) ELSE Pick(Sub(h, 4), LongText))
                                          ELSE IF flow /\ Odds(Sub(h, 7), 1, 12) THEN Pick(Sub(h, 4), PlainFlow)
                                          ELSE IF Odds(Sub(h, 10), 1, 12) THEN OddPlain(Sub(h, 11)) ELSE Pick(Sub(h, 4), Plain))
    [] W(Sub(h, 1), <<6, 2, 2>>) = 2 -> Sq(QuotedParts(Sub(h, 5), g, FALSE))
    [] OTHER -> Dq(QuotedParts(Sub(h, 6), g, TRUE))
BlockValueScalar(h, g) ==
  CASE W(Sub(h, 1), <<7, 2, 1, 1>>) = 1 -> FlowScalar(Sub(h, 2), g, FALSE)
    [] W(Sub(h, 1), <<7, 2, 1, 1>>) = 2 -> Uq(IF g.long /\ Odds(Sub(h, 3), 1, 8) THEN Pick(Sub(h, 4), LongBlock) ELSE Pick(Sub(h, 4), PlainBlock))
    [] W(Sub(h, 1), <<7, 2, 1, 1>>) = 3 -> Lit(Chomp(Sub(h, 5)), BlockLines(Sub(h, 6)))
    [] OTHER -> Fold(Chomp(Sub(h, 5)), BlockLines(Sub(h, 6)))

(* -------------------------------- collections --------------------------- *)
EndOfLine(v) == v.t \in {"uq", "sq", "dq", "anch", "ia", "ih"}    \* a comment can follow on its line
(* once in a while a collection has many entries *)
WideOdds == 50
Wide(h) == 9 + N(Sub(h, 91), 25)
AKey(h, i, g) == IF i > 5 /\ ~Odds(Sub(h, 30 + i), 1, 5) THEN "w" \o ToString(i) ELSE Pick(Sub(h, 30 + i), g.keys)
RECURSIVE Value(_, _, _, _)
(* flow: within a flow collection; d: levels of collections left *)
Entry(h, d, g, key) ==
  LET v == Value(Sub(h, 1), d, g, FALSE)
  IN Flat(<<Maybe(Sub(h, 2), g.com, Cm(CommentText(Sub(h, 3)))),
            Maybe(Sub(h, 4), g.com \div 3, Cm(CommentText(Sub(h, 5)))),
            IF g.com > 0 /\ Odds(Sub(h, 10), 1, 150) THEN [i \in 1..(3 + N(Sub(h, 11), 10)) |-> Cm(CommentText(Sub(h, 11 + i)))] ELSE <<>>,
            <<El(key, IF N(Sub(h, 6), 100) < g.al THEN Pick(Sub(h, 7), g.names) ELSE "", v)>>,
            IF EndOfLine(v) THEN Maybe(Sub(h, 8), g.com, Ic(CommentText(Sub(h, 9)))) ELSE <<>>>>)
Value(h, d, g, flow) ==
  LET kind == IF d = 0 THEN W(Sub(h, 1), <<12, IF g.al > 0 THEN 1 ELSE 0, 0, 0, 0, 0>>)
              ELSE IF flow THEN W(Sub(h, 1), <<12, 1, g.deep, g.deep, 0, 0>>)
              ELSE W(Sub(h, 1), <<12, 1, g.deep \div 3, g.deep \div 3, g.deep, g.deep>>)
      n == IF Odds(Sub(h, 90), 1, WideOdds) THEN Wide(h) ELSE Count(Sub(h, 2), IF kind \in {3, 4} THEN <<1, 3, 3, 1>> ELSE <<0, 4, 5, 3, 1>>)
      below == IF Odds(Sub(h, 90), 1, WideOdds) THEN 0 ELSE d - 1
      sub(i) == Value(Sub(h, 20 + i), below, g, TRUE)
  IN CASE kind = 1 -> IF flow THEN FlowScalar(Sub(h, 3), g, TRUE) ELSE BlockValueScalar(Sub(h, 3), g)
       [] kind = 2 -> Anch(Pick(Sub(h, 4), g.names))
       [] kind = 3 -> Ia([i \in 1..n |-> sub(i)])
       [] kind = 4 -> Ih([i \in 1..n |-> El(AKey(h, i, g), "", sub(i))])
       [] kind = 5 -> Ba(Flat([i \in 1..n |-> Entry(Sub(h, 20 + i), below, g, "")]))
       [] OTHER -> Bh(Flat([i \in 1..n |-> Entry(Sub(h, 20 + i), below, g, AKey(h, i, g))]))

RECURSIVE DropLeading(_)
DropLeading(c) == IF c # <<>> /\ IsComment(c[1]) THEN DropLeading(Tail(c)) ELSE c
RootValue(h, d, g) ==
  LET kind == W(Sub(h, 1), <<12, 5, 1, 1>>)
      wide == Odds(Sub(h, 90), 1, WideOdds)
      below == IF wide THEN 0 ELSE d - 1
      n == IF wide THEN Wide(h) ELSE 1 + Count(Sub(h, 2), <<2, 4, 3, 2>>)
      m == IF wide THEN Wide(h) ELSE Count(Sub(h, 2), <<1, 2, 2>>)
  IN CASE kind = 1 -> Bh(DropLeading(Flat([i \in 1..n |-> Entry(Sub(h, 20 + i), below, g, AKey(h, i, g))])))
       [] kind = 2 -> Ba(DropLeading(Flat([i \in 1..n |-> Entry(Sub(h, 20 + i), below, g, "")])))
       [] kind = 3 -> Ia([i \in 1..m |-> Value(Sub(h, 20 + i), below, g, TRUE)])
       [] OTHER -> Ih([i \in 1..m |-> El(AKey(h, i, g), "", Value(Sub(h, 20 + i), below, g, TRUE))])
Document(h, d, g) ==
  LET some(k, pct, Mk(_)) == IF N(Sub(h, k), 100) < pct
                            THEN [i \in 1..Seldom(Sub(h, k + 2), 3, 1 + N(Sub(h, k + 1), 2)) |-> Mk(CommentText(Sub(h, k + 200 + i)))] ELSE <<>>
  IN TLCEval(Doc(some(100, g.com, Lc) \o some(110, g.com, Cm) \o <<RootValue(Sub(h, 1), d, g)>> \o some(120, g.com, Cm)))

Names == <<"x", "y", "a1", "_q", "é", "x1", "X", "an_alias_of_many_characters">>
GText == [keys |-> KeysMany, deep |-> 4, long |-> FALSE, com |-> 20, al |-> 15, names |-> Names]
GEdit == [keys |-> KeysNear, deep |-> 6, long |-> FALSE, com |-> 15, al |-> 10, names |-> Names]
GLong == [GText EXCEPT !.long = TRUE]

(* collections within each other, deeper than documents usually are, with scalars of  *)
(* every kind and comments at any depth                                                 *)
RECURSIVE Chain(_, _)
Chain(h, n) ==
  IF n = 0 THEN CASE N(h, 4) = 0 -> Uq("v")
                  [] N(h, 4) = 1 -> Ia(<<Uq("v"), Ih(<<El("k", "", Ia(<<>>))>>)>>)
                  [] OTHER -> BlockValueScalar(Sub(h, 1), GText)
  ELSE LET v == Chain(Sub(h, 1), n - 1)
           map == W(Sub(h, 5), <<3, 2>>) = 1
           more(k) == IF Odds(Sub(h, k), 1, 8) THEN Entry(Sub(h, k + 1), 0, GText, IF map THEN Pick(Sub(h, k + 2), <<"a", "b">>) ELSE "") ELSE <<>>
           alias == IF Odds(Sub(h, 4), 1, 8) THEN "x" ELSE ""
           own == more(20) \o <<El(IF map THEN "k" ELSE "", alias, v)>> \o more(30)
       IN IF map THEN Bh(own) ELSE Ba(own)
DeepDoc(h) ==
  LET v == Chain(Sub(h, 1), IF Odds(Sub(h, 3), 1, 5) THEN 16 + N(Sub(h, 2), 20) ELSE 4 + N(Sub(h, 2), 12))
  IN Doc(<<[v EXCEPT !.c = DropLeading(v.c)]>>)

(* trees that only exist in memory: some of the block collections, where nothing is  *)
(* lost, as flow collections that may have block collections in them                   *)
RECURSIVE Inlined(_, _)
Inlined(h, n) ==
  LET kids == TLCEval([x \in 1..Len(n.c) |-> Inlined(Sub(h, 10 + x), n.c[x])])
      plain == \A x \in 1..Len(n.c) : n.c[x].t = "el" /\ n.c[x].a = ""
  IN IF n.t = "ba" /\ plain /\ Odds(Sub(h, 1), 1, 2) THEN Ia([x \in 1..Len(kids) |-> Val(kids[x])])
     ELSE IF n.t = "bh" /\ plain /\ Odds(Sub(h, 1), 1, 6) THEN Ih(kids)
     ELSE [n EXCEPT !.c = kids]

============================================================================
