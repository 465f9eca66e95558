------------------------------ MODULE Layout ------------------------------
(* The texts that denote a document. A text is a non-empty sequence of lines; *)
(* Text(d, h) writes the document d with the layout choices below h: column of  *)
(* every collection, blank lines, spaces at the ends of lines, place of           *)
(* comments, spacing and line breaks in flow collections, headers of block         *)
(* scalars, and so on.                                                               *)
EXTENDS Node

Cat(A, B) == Front(A) \o <<Last(A) \o B[1]>> \o Tail(B)
RECURSIVE CatFrom(_, _)
CatFrom(ts, i) == IF i = Len(ts) THEN ts[i] ELSE Cat(ts[i], CatFrom(ts, i + 1))
Cats(ts) == CatFrom(TLCEval(ts), 1)
T(s) == <<s>>
Break == <<"", "">>
Breaks(n) == [i \in 1..(n + 1) |-> ""]

(* ------------------------------- quoted strings ------------------------- *)
PartT(p, q) == CASE p.t = "str" -> T(p.s)
                 [] p.t = "esc" -> IF p.s = "\n" THEN <<"\\", "">> ELSE T((IF q = "'" THEN "'" ELSE "\\") \o p.s)
                 [] p.t = "bl" -> Breaks(Len(p.s) + 1)
                 [] OTHER -> Break
QuotedT(n, q) == Cats(<<T(q)>> \o [i \in 1..Len(n.c) |-> PartT(n.c[i], q)] \o <<T(q)>>)

(* ---------------------------------- flow -------------------------------- *)
(* spaces and line breaks between the tokens of a flow collection *)
Gap(h, w) == CASE W(h, w) = 1 -> T("") [] W(h, w) = 2 -> T(" ") [] W(h, w) = 3 -> T("  ")
               [] W(h, w) = 4 -> <<"", Sp(N(Sub(h, 1), 5))>>
               [] OTHER -> <<" ", "", Sp(N(Sub(h, 1), 3))>>
Tight == <<6, 3, 1, 1, 0>>
Loose == <<2, 6, 1, 1, 1>>
Least1 == <<0, 6, 1, 1, 0>>
RECURSIVE FlowT(_, _)
FlowItem(x, h) ==
  IF x.t = "el" THEN Cats(<<T(x.k), Gap(Sub(h, 1), <<12, 1, 0, 1, 0>>), T(":"), Gap(Sub(h, 2), Loose), FlowT(Val(x), Sub(h, 3))>>)
  ELSE FlowT(x, h)
FlowT(n, h) ==
  LET sep(i) == IF i = 1 THEN Gap(Sub(h, 5), Loose)
                ELSE Cats(<<Gap(Sub(h, 10 + i), Tight), T(","), Gap(Sub(h, 20 + i), Loose)>>)
      items == IF n.c = <<>> THEN Gap(Sub(h, 6), Tight)
               ELSE Cats(Flat([i \in 1..Len(n.c) |-> <<sep(i), FlowItem(n.c[i], Sub(h, 30 + i))>>]) \o <<Gap(Sub(h, 7), Loose)>>)
  IN CASE n.t = "uq" -> T(n.s)
       [] n.t = "sq" -> QuotedT(n, "'")
       [] n.t = "dq" -> QuotedT(n, "\"")
       [] n.t = "anch" -> T("*" \o n.s)
       [] n.t = "ia" -> Cats(<<T("["), items, T("]")>>)
       [] OTHER -> Cats(<<T("{"), items, T("}")>>)

(* ------------------------------ block scalars --------------------------- *)
(* top: the column of the innermost collection whose column is known, from     *)
(* which an indentation indicator counts; n: the column the text must exceed.    *)
FirstText(n) == Index(n.c, LAMBDA l : l.s # "")
OnlySeparators(s) == \A j \in 1..Len(s) : Ch(s, j) \in {" ", " ", "　", " "}
NeedsIndicator(n) == FirstText(n) = 0 \/ LET l == n.c[FirstText(n)].s IN FirstCh(l) = " " \/ OnlySeparators(l)
ChompMark(c) == CASE c = "keep" -> "+" [] c = "strip" -> "-" [] OTHER -> ""
BlockT(n, top, col, h) ==
  LET ind == NeedsIndicator(n) \/ (top = col /\ Odds(Sub(h, 1), 1, 6))
      most == Max2(col - top, 0)
      given == Min2(9, most + 1 + N(Sub(h, 2), 3))
      c == IF ind THEN top + given ELSE col + Seldom(Sub(h, 4), 5, 1 + N(Sub(h, 2), 4))
      blank(i) == IF ind THEN (IF FirstText(n) = 0 \/ Odds(Sub(h, 10 + i), 1, 2) THEN Sp(c) ELSE "")
                  ELSE IF FirstText(n) > i THEN Sp(N(Sub(h, 10 + i), c + 1))
                  ELSE Sp(Pick(Sub(h, 10 + i), <<0, 0, c, c \div 2>>))
      line(i) == IF n.c[i].s = "" THEN blank(i) ELSE Sp(c) \o n.c[i].s
  IN <<(IF n.t = "lit" THEN "|" ELSE ">") \o ChompMark(n.s) \o (IF ind THEN ToString(given) ELSE "")
        \o Sp(Pick(Sub(h, 3), <<0, 0, 0, 1, 2>>))>>
     \o [i \in 1..Len(n.c) |-> line(i)]
RECURSIVE EndsInBlock(_)
EndsInBlock(n) == CASE n.t \in BlockScalar -> TRUE
                    [] n.t = "el" -> EndsInBlock(Val(n))
                    [] n.t \in Block -> n.c # <<>> /\ EndsInBlock(Last(n.c))
                    [] OTHER -> FALSE

(* ------------------------------- block values --------------------------- *)
Trail(h) == T(Sp(Seldom(h, 3, Pick(h, <<0, 0, 0, 0, 0, 1, 2>>))))
BlankLines(h) == [i \in 1..Seldom(h, 3, Pick(h, <<0, 0, 0, 0, 1, 2>>)) |-> Sp(Pick(Sub(h, i), <<0, 0, 2, 5>>))]
AliasT(a, h) == IF a = "" THEN T("") ELSE T("&" \o a \o Sp(Seldom(h, 3, 1 + N(h, 2))))
CommentT(x, col, h) == Sp(col) \o "#" \o x.s

(* Lines(n, m, h): the lines of the entries of a block collection at column m;   *)
(* EntryT(e, m, top, h): an entry from its first character; After(e, m, top, h): *)
(* what follows its colon or dash.                                                *)
RECURSIVE LinesFrom(_, _, _, _, _)
RECURSIVE EntryT(_, _, _, _)
LinesFrom(c, i, m, after, h) ==
  (* after: the entry before ends in a block scalar, which would take a blank line *)
  IF i > Len(c) THEN <<>>
  ELSE IF c[i].t = "cm"
  THEN LET col == IF after THEN N(Sub(h, 1), m + 1) ELSE Pick(Sub(h, 1), <<m, m, m, 0, m + 2, m \div 2>>)
       IN <<CommentT(c[i], col, h)>> \o BlankLines(Sub(h, 2)) \o LinesFrom(c, i + 1, m, FALSE, Sub(h, 3))
  ELSE LET e == EntryT(c[i], m, m, Sub(h, 4))
           ic == IF i < Len(c) /\ c[i + 1].t = "ic"
                 THEN T(Sp(Seldom(Sub(h, 8), 4, Pick(Sub(h, 5), <<0, 1, 1, 1, 3>>))) \o "#" \o c[i + 1].s) ELSE T("")
           here == Cat(<<Sp(m) \o e[1]>> \o Tail(e), ic)
           ends == EndsInBlock(c[i])
           next == IF i < Len(c) /\ c[i + 1].t = "ic" THEN i + 2 ELSE i + 1
           blank == IF ends \/ next > Len(c) THEN <<>> ELSE BlankLines(Sub(h, 6))
       IN here \o blank \o LinesFrom(c, next, m, ends, Sub(h, 7))
LinesT(n, m, h) == LinesFrom(n.c, 1, m, FALSE, h)

(* a block collection on the lines below its key or dash, at column m *)
Below(v, m, a, key, h) ==
  LET cm == v.c[1].t = "cm"
      spaces == Sp(Pick(Sub(h, 1), <<0, 0, 0, 1, 2>>))
      onLine == cm /\ Odds(Sub(h, 2), 1, 4)
      alias == IF a = "" THEN "" ELSE " &" \o a
      blank == IF cm /\ (~key \/ spaces # "" \/ alias # "") THEN <<>> ELSE BlankLines(Sub(h, 4))
      rest == LinesFrom(v.c, IF onLine THEN 2 ELSE 1, m, FALSE, Sub(h, 5))
  IN IF onLine THEN <<alias \o Sp(1 + N(Sub(h, 6), 2)) \o "#" \o v.c[1].s>> \o BlankLines(Sub(h, 7)) \o rest
     ELSE <<alias \o spaces>> \o blank \o rest
Simple(v, a, h) == Cats(<<T(Sp(1 + Seldom(Sub(h, 5), 3, Pick(Sub(h, 1), <<0, 0, 0, 1, 2>>)))), AliasT(a, Sub(h, 2)), FlowT(v, Sub(h, 3)), Trail(Sub(h, 4))>>)
Header(v, a, top, m, h) == Cats(<<T(Sp(1 + Pick(Sub(h, 1), <<0, 0, 0, 1>>))), AliasT(a, Sub(h, 2)), BlockT(v, top, m, Sub(h, 3))>>)
AfterColon(v, a, m, top, h) ==
  CASE v.t \in BlockScalar -> Header(v, a, top, m, h)
    [] v.t = "bh" -> Below(v, m + 1 + Seldom(Sub(h, 15), 4, Pick(Sub(h, 10), <<1, 1, 1, 0, 2, 3>>)), a, TRUE, h)
    [] v.t = "ba" -> Below(v, m + Seldom(Sub(h, 15), 5, Pick(Sub(h, 10), <<2, 2, 2, 0, 0, 1, 4>>)), a, TRUE, h)
    [] OTHER -> IF Odds(Sub(h, 11), 1, 10)
                THEN <<"">> \o BlankLines(Sub(h, 12)) \o Cats(<<T(Sp(m + 1 + N(Sub(h, 13), 4))), AliasT(a, Sub(h, 14)), FlowT(v, Sub(h, 3))>>)
                ELSE Simple(v, a, h)
OnLine(v) == v.c[1].t = "el" /\ ~(Val(v.c[1]).t \in BlockScalar /\ NeedsIndicator(Val(v.c[1])))
(* a collection that starts on the line of its dash, which is at column m *)
SameLine(v, a, m, top, h) ==
  LET k == 1 + Seldom(Sub(h, 6), 3, Pick(Sub(h, 1), <<0, 0, 0, 1, 2>>))
      alias == AliasT(a, Sub(h, 2))
      col == m + 1 + k
      first == EntryT(v.c[1], col, top, Sub(h, 3))
      ic == Len(v.c) > 1 /\ v.c[2].t = "ic"
      rest == LinesFrom(v.c, IF ic THEN 3 ELSE 2, col, EndsInBlock(v.c[1]), Sub(h, 4))
      blank == IF rest = <<>> \/ EndsInBlock(v.c[1]) THEN <<>> ELSE BlankLines(Sub(h, 5))
  IN Cats(<<T(Sp(k)), alias, first, IF ic THEN T(" #" \o v.c[2].s) ELSE T("")>>) \o blank \o rest
AfterDash(v, a, m, top, h) ==
  CASE v.t \in BlockScalar -> Header(v, a, top, m, h)
    [] v.t = "bh" -> IF OnLine(v) /\ Odds(Sub(h, 10), 2, 3) THEN SameLine(v, a, m, top, h)
                     ELSE Below(v, m + 1 + Pick(Sub(h, 11), <<1, 1, 1, 0, 2, 3>>), a, FALSE, h)
    [] v.t = "ba" -> IF OnLine(v) /\ a = "" /\ Val(v.c[1]).t # "ba" /\ top = m /\ Odds(Sub(h, 10), 1, 2)
                     THEN SameLine(v, a, m, top, h)
                     ELSE Below(v, m + 1 + Pick(Sub(h, 11), <<1, 1, 1, 0, 2, 3>>), a, FALSE, h)
    [] OTHER -> Simple(v, a, h)
EntryT(e, m, top, h) ==
  IF e.k = "" THEN Cat(T("-"), AfterDash(Val(e), e.a, m, top, h))
  ELSE Cat(T(e.k \o Sp(Pick(Sub(h, 20), <<0, 0, 0, 0, 0, 0, 1>>)) \o ":"), AfterColon(Val(e), e.a, m, top, h))

(* -------------------------------- documents ----------------------------- *)
DocT(d, h) ==
  LET at == RootAt(d)
      root == d.c[at]
      lead == SelectSeq(d.c, LAMBDA x : x.t = "lc")
      before == SelectSeq(SubSeq(d.c, 1, at - 1), LAMBDA x : x.t = "cm")
      after == SubSeq(d.c, at + 1, Len(d.c))
      block == root.t \in Block
      ends == EndsInBlock(root)
      col == IF block THEN Seldom(Sub(h, 9), 5, Pick(Sub(h, 1), <<0, 0, 0, 0, 1, 2, 4>>)) ELSE 0
      cms(cs, k, noblank) == Flat([i \in 1..Len(cs) |->
                <<CommentT(cs[i], IF noblank THEN 0 ELSE Pick(Sub(h, k + i), <<0, 0, 0, 2>>), h)>> \o BlankLines(Sub(h, k + 10 + i))])
      top == (IF lead = <<>> THEN <<>> ELSE BlankLines(Sub(h, 2))) \o cms(lead, 30, FALSE)
             \o <<"---" \o Sp(Pick(Sub(h, 3), <<0, 0, 0, 1, 3>>))>> \o BlankLines(Sub(h, 4)) \o cms(before, 50, FALSE)
      body == IF block THEN LinesT(root, col, Sub(h, 5)) ELSE FlowT(root, Sub(h, 5))
      sameline == ~block /\ after # <<>> /\ Odds(Sub(h, 6), 1, 3)
      tail == IF after = <<>> THEN <<>>
              ELSE (IF sameline THEN <<>> ELSE IF ends THEN <<>> ELSE BlankLines(Sub(h, 7))) \o cms(after, 70, ends)
      all == IF sameline THEN top \o Cat(body, <<" " \o tail[1]>>) \o Tail(tail) ELSE top \o body \o tail
      final == IF ends /\ after = <<>> THEN <<"">>
               ELSE Pick(Sub(h, 8), <<<<>>, <<"">>, <<"">>, <<"", "">>, <<"  ">>, <<"", " ">>>>)
  IN TLCEval(all \o final)

(* A document can be written with CR LF line ends unless a quoted string has a line break. *)
RECURSIVE HasQuotedBreak(_)
HasQuotedBreak(n) == n.t \in {"bl", "rn"} \/ (n.t = "esc" /\ n.s = "\n") \/ \E i \in 1..Len(n.c) : HasQuotedBreak(n.c[i])

(* ---------------------------- the canonical text ------------------------ *)
(* What the formatter writes: two columns per level, one entry per line.      *)
RECURSIVE CanonFlow(_)
CanonFlow(n) ==
  LET items == Cats([i \in 1..Len(n.c) |->
                 Cat(T(IF i = 1 THEN "" ELSE ","),
                     IF n.c[i].t = "el" THEN Cat(T(" " \o n.c[i].k \o ":"), CanonFlow(Val(n.c[i]))) ELSE CanonFlow(n.c[i]))])
      close == IF EndsWith(Last(items), ":") THEN "" ELSE " "
  IN CASE n.t = "ia" -> IF n.c = <<>> THEN T(" []") ELSE Cats(<<T(" ["), items, T(close \o "]")>>)
       [] n.t = "ih" -> IF n.c = <<>> THEN T(" {}") ELSE Cats(<<T(" {"), items, T(close \o "}")>>)
       [] OTHER -> Cat(T(" "), FlowT(n, <<1, 1>>))
RECURSIVE FillsLine(_)                  \* a comment after it would not be read as one
FillsLine(n) == CASE n.t \in BlockScalar \/ IsComment(n) -> TRUE
                  [] n.t = "el" -> FillsLine(Val(n))
                  [] n.t \in Block -> n.c # <<>> /\ FillsLine(Last(n.c))
                  [] OTHER -> FALSE
(* a space after it would make a key of the string before the colon *)
RECURSIVE EndsInColon(_)
EndsInColon(n) == CASE n.t = "uq" -> EndsWith(n.s, ":")
                    [] n.t = "el" -> EndsInColon(Val(n))
                    [] n.t \in Block -> n.c # <<>> /\ EndsInColon(Last(n.c))
                    [] OTHER -> FALSE
Indicated(v) == v.t \in BlockScalar /\ NeedsIndicator(v)
(* the text of a value after its key or dash; m: the column of its entries or lines; *)
(* dash: it follows a dash                                                            *)
RECURSIVE CanonVal(_, _, _)
CanonVal(n, m, dash) ==
  LET same(i) == /\ i = 1 /\ dash
                 /\ ~Indicated(Val(n.c[1]))
                 /\ n.t = "ba" => Val(n.c[1]).t # "ba"
      entry(i) == LET e == n.c[i]
                      lead == (IF n.t = "ba" THEN "-" ELSE e.k \o ":") \o (IF e.a = "" THEN "" ELSE " &" \o e.a)
                      first == IF same(i) THEN T(" " \o lead) ELSE <<"", Sp(m) \o lead>>
                  IN Cat(first, CanonVal(Val(e), m + 2, n.t = "ba" /\ e.a = ""))
      child(i) == CASE n.c[i].t = "el" -> entry(i)
                    [] n.c[i].t = "ic" /\ ~(i > 1 /\ FillsLine(n.c[i - 1])) -> T((IF i > 1 /\ EndsInColon(n.c[i - 1]) THEN "#" ELSE " #") \o n.c[i].s)
                    [] OTHER -> <<"", Sp(m) \o "#" \o n.c[i].s>>
      none == \A i \in 1..Len(n.c) : IsComment(n.c[i])
  IN CASE n.t \in Block -> Cats(<<T(IF ~none THEN "" ELSE IF n.t = "bh" THEN " {}" ELSE " []")>> \o [i \in 1..Len(n.c) |-> child(i)])
       [] n.t \in BlockScalar /\ n.c = <<>> -> T("")
       [] n.t \in BlockScalar ->
            <<" " \o (IF n.t = "lit" THEN "|" ELSE ">") \o ChompMark(n.s) \o (IF NeedsIndicator(n) THEN "2" ELSE "")>>
            \o [i \in 1..Len(n.c) |-> Sp(m) \o n.c[i].s]
       [] OTHER -> CanonFlow(n)
Canon(d) ==
  LET at == RootAt(d)
      lead == SelectSeq(d.c, LAMBDA x : x.t = "lc")
      rest == SelectSeq(d.c, LAMBDA x : x.t # "lc")
      rootT == CanonVal(d.c[at], 0, FALSE)
      root == IF StartsWith(rootT[1], " ") THEN <<"", From(rootT[1], 2)>> \o Tail(rootT) ELSE rootT
      item(x) == IF x.t = "cm" THEN <<"", "#" \o x.s>> ELSE root
  IN [i \in 1..Len(lead) |-> "#" \o lead[i].s] \o Cats(<<T("---")>> \o [i \in 1..Len(rest) |-> item(rest[i])])
============================================================================
