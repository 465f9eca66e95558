------------------------------- MODULE GenDe ------------------------------
(* Nodes and types to read them with: PLAN de, PLAN anchors for documents with  *)
(* aliases and anchors, and PLAN anchordocs for every small document.             *)
EXTENDS GenSerde, Layout

NumTexts == <<"0", "1", "-1", "+5", "007", "-0", "+0", "1_000", "0x1F", "1e3", ".5", "5.", "- 5", "127", "128", "-128", "-129", "255", "256", "32767", "-32769",
              "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
              "-9223372036854775809", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105728",
              "340282366920938463463374607431768211456", "1.0", "inf", "-inf", "+inf", ".inf", "nan", "NaN", "-nan", "Infinity", "infinit", "1e", "e1", "1e+2", "1E-3", "--1",
              "+-1", "0b1", "00.10", "1.e2", ".", "+", "-", "-.5", "1.5.2", "12.50", "1e0", "0.000", "-7", "3", "42", "1e5", "12e-1", "0e5", "1f", "1.0f", "5 ">>
WordTexts == <<"true", "false", "True", "TRUE", "yes", "Yes", "on", "ON", "oN", "off", "No", "n", "y", "null", "Null", "NULL", "nULL", "~", "~~", "a", "A", "é", "ab", "One", "k", "x y", "Two x">>
ScalarOf(h) ==
  LET s == IF Odds(Sub(h, 1), 1, 2) THEN Pick(Sub(h, 2), NumTexts) ELSE Pick(Sub(h, 2), WordTexts)
  IN CASE W(Sub(h, 3), <<8, 2, 2, 1, 1, 1>>) = 1 -> Uq(IF s = "-" \/ s = "- 5" \/ s = "5 " THEN "-5" ELSE s)
       [] W(Sub(h, 3), <<8, 2, 2, 1, 1, 1>>) = 2 -> Sq(<<Str(s)>>)
       [] W(Sub(h, 3), <<8, 2, 2, 1, 1, 1>>) = 3 -> Dq(<<Str(s)>>)
       [] W(Sub(h, 3), <<8, 2, 2, 1, 1, 1>>) = 4 -> Lit("strip", <<Ln(s)>>)
       [] W(Sub(h, 3), <<8, 2, 2, 1, 1, 1>>) = 5 -> Fold("clip", <<Ln(s)>>)
       [] OTHER -> IF Odds(Sub(h, 4), 2, 3) THEN Sq(QuotedParts(Sub(h, 5), GText, FALSE)) ELSE Dq(<<>>)
DeKeys == <<"a", "b", "c", "k", "One", "Two x", "12", "true", "~", "x y", "1.5", "-1", "a", "b">>
(* al, an: percent of aliases and of anchors *)
RECURSIVE NodeOf(_, _, _, _)
NodeOf(h, d, al, an) ==
  LET wide == Odds(Sub(h, 8), 1, 60)
      k == IF N(Sub(h, 1), 100) < an THEN 0 ELSE W(Sub(h, 2), IF d = 0 THEN <<1, 0, 0, 0, 0>> ELSE <<5, 3, 3, 2, 2>>)
      n == IF wide THEN 9 + N(Sub(h, 3), 12) ELSE Count(Sub(h, 3), <<1, 4, 5, 4, 2>>)
      twice == Odds(Sub(h, 6), 1, 14)                \* keys may repeat
      key(j) == IF j > 10 THEN "w" \o ToString(j) ELSE IF twice THEN Pick(Sub(h, 30 + j), DeKeys) ELSE DeKeys[1 + ((N(Sub(h, 30), 12) + 5 * j) % 12)]
      small == Odds(Sub(h, 7), 1, 7)
      sub(j) == IF small THEN Uq(Pick(Sub(h, 10 + j), <<"0", "1", "7", "+5", "127", "128", "255", "255", "9", "42", "256">>)) ELSE NodeOf(Sub(h, 10 + j), IF wide THEN 0 ELSE d - 1, al, an)
      alias(j) == IF N(Sub(h, 50 + j), 100) < al THEN Pick(Sub(h, 60 + j), <<"x", "y", "z">>) ELSE ""
      notes(j) == Maybe(Sub(h, 70 + j), 8, Cm(" note"))
      notes2(j) == IF EndOfLine(sub(j)) THEN Maybe(Sub(h, 80 + j), 8, Ic(" note")) ELSE <<>>
  IN CASE k = 0 -> Anch(Pick(Sub(h, 4), <<"x", "y", "z", "x", "y", "z", "u">>))
       [] k = 1 -> ScalarOf(Sub(h, 5))
       [] k = 2 -> Bh(Flat([j \in 1..(n + 1) |-> notes(j) \o <<El(key(j), alias(j), sub(j))>> \o notes2(j)]))
       [] k = 3 -> Ba(Flat([j \in 1..(n + 1) |-> notes(j) \o <<El("", alias(j), sub(j))>> \o notes2(j)]))
       [] k = 4 -> Ih([j \in 1..n |-> El(key(j), "", sub(j))])
       [] OTHER -> Ia([j \in 1..n |-> sub(j)])

(* the same with most of the anchors that stand for nothing put right: names are those known *)
RECURSIVE Mend(_, _, _)
RECURSIVE MendAll(_, _, _)
MendAll(h, c, names) ==
  IF c = <<>> THEN [c |-> <<>>, names |-> names]
  ELSE LET one == TLCEval(Mend(Sub(h, 1), c[1], names))
           more == MendAll(Sub(h, 2), Tail(c), one.names)
       IN [c |-> <<one.n>> \o more.c, names |-> more.names]
Mend(h, n, names) ==
  LET r == TLCEval(MendAll(h, n.c, names))
  IN CASE n.t = "anch" -> [names |-> names, n |-> IF Odds(Sub(h, 1), 1, 25) THEN n ELSE IF names = <<>> THEN Uq(Pick(h, <<"1", "a", "true", "~", "-7", "One">>)) ELSE Anch(Pick(Sub(h, 2), names))]
       [] n.t = "el" -> [n |-> [n EXCEPT !.c = r.c], names |-> IF n.a = "" THEN r.names ELSE Append(r.names, n.a)]
       [] n.t \in Collection -> [n |-> [n EXCEPT !.c = r.c], names |-> r.names]
       [] OTHER -> [n |-> n, names |-> names]

(* a type that fits the node, for the most part *)
RECURSIVE TypeFor(_, _)
TypeFor(h, n) ==
  LET es == TLCEval(IF n.t \in Mapping THEN Elements(n) ELSE <<>>)
      xs == TLCEval(IF n.t \in Sequence THEN ItemsOf(n) ELSE <<>>)
      keys == Distinct(TLCEval([j \in 1..Len(es) |-> es[j].k] \o (IF Odds(Sub(h, 3), 1, 6) THEN <<"c">> ELSE <<>>)))
      used == SelectSeq(keys, LAMBDA k : N(Sub(h, 100 + Len(k) + Ord(FirstCh(k))), 6) # 0)
      opt(j, t) == IF Odds(Sub(h, 40 + j), 1, 5) THEN Nd("opt", "", <<t>>) ELSE t
      of(k) == LET at == Index(es, LAMBDA e : e.k = k) IN IF at = 0 THEN (IF Odds(Sub(h, 9), 1, 2) THEN Leaf("bool", "") ELSE Nd("opt", "", <<Leaf("bool", "")>>)) ELSE TypeFor(Sub(h, 10 + at), Val(es[at]))
      fields == TLCEval([j \in 1..Len(used) |-> Nk("el", used[j], <<opt(j, TLCEval(of(used[j])))>>)])
      some == TLCEval(IF Len(xs) > 0 THEN TypeFor(Sub(h, 5), Pick(Sub(h, 6), xs)) ELSE IF Len(es) > 0 THEN TypeFor(Sub(h, 5), Val(Pick(Sub(h, 6), es))) ELSE Leaf("str", ""))
      each == TLCEval([j \in 1..(IF Odds(Sub(h, 7), 1, 5) THEN N(Sub(h, 8), Len(xs) + 2) ELSE Len(xs)) |-> IF j <= Len(xs) THEN TypeFor(Sub(h, 10 + j), xs[j]) ELSE Leaf("i8", "")])
      variants == <<Nk("uv", "One", <<>>), Nk("nv", "Two x", <<some>>), Nk("nv", "k", <<Nd("opt", "", <<Leaf("i8", "")>>)>>), Nk("uv", "~", <<>>),
                    Nk("tv", "b", IF Len(es) = 1 /\ Val(es[1]).t \in Sequence THEN (LET ys == TLCEval(ItemsOf(Val(es[1]))) IN TLCEval([j \in 1..Len(ys) |-> TypeFor(Sub(h, 10 + j), ys[j])])) ELSE <<Leaf("str", "")>>),
                    Nk("sv", "c", IF Len(es) = 1 THEN (LET inner == TLCEval(TypeFor(Sub(h, 9), Val(es[1]))) IN IF inner.t = "struct" THEN inner.c ELSE <<>>) ELSE <<>>),
                    Nk("nv", "a", <<IF Len(es) = 1 THEN of(es[1].k) ELSE Leaf("str", "")>>)>>
      enum == Nk("enum", "E", variants)
      (* one of the types, the first of five drawn that the text fits *)
      drawn(ts) == TLCEval(Draw(Sub(h, 2), ts, 5))
      fits(ts) == LET five == drawn(ts)
                      at == IF Odds(Sub(h, 10), 1, 20) THEN 1 ELSE Index(five, LAMBDA t : De(Leaf(t, ""), n).ok)
                  IN Leaf(five[IF at = 0 THEN 1 ELSE at], "")
  IN CASE N(Sub(h, 1), 60) = 0 -> Type(Sub(h, 2), 1)
       [] N(Sub(h, 1), 20) = 1 -> Leaf(Pick(Sub(h, 2), <<"any", "ign", "unit", "any">>), "")
       [] N(Sub(h, 1), 20) = 2 -> Nd("opt", "", <<TypeFor(Sub(h, 2), n)>>)
       [] N(Sub(h, 1), 28) = 3 -> Nk("nstruct", "W", <<TypeFor(Sub(h, 2), n)>>)
       [] IsText(n) -> (CASE Kind(Text(n)) \in {"int", "float"} -> fits(Ints \o <<"f64", "f32", "str", "i64", "u8", "f64">>)
                          [] N(Sub(h, 4), IF Text(n) \in {"One", "k", "~", "Two x"} THEN 2 ELSE 12) = 0 -> enum
                          [] Text(n) \in Trues \cup Falses -> fits(<<"bool", "bool", "str">>)
                          [] Text(n) \in Nulls -> Pick(Sub(h, 2), <<Nd("opt", "", <<Leaf("str", "")>>), Leaf("unit", ""), Leaf("str", ""), Nk("ustruct", "U", <<>>)>>)
                          [] OTHER -> fits(<<"str", "str", "char", "f64", "i16", "bool">>))
       [] n.t \in Sequence -> (CASE N(Sub(h, 4), 6) = 0 -> Nd("seq", "", <<some>>)
                                 [] N(Sub(h, 4), 6) = 1 -> Nd("seq", "", <<Leaf(Pick(Sub(h, 5), <<"str", "any", "ign", "f64", "u8">>), "")>>)
                                 [] N(Sub(h, 4), IF De(Leaf("bytes", ""), n).ok THEN 6 ELSE 40) = 2 -> Leaf("bytes", "")
                                 [] N(Sub(h, 4), 6) = 3 -> Nk("tstruct", "T", each)
                                 [] OTHER -> Nd("tuple", "", each))
       [] n.t \in Mapping -> (CASE Len(es) = 1 /\ N(Sub(h, 4), 2) = 0 -> enum
                                [] N(Sub(h, 4), 5) = 0 -> Nd("map", "", <<IF Odds(Sub(h, 9), 1, 2) THEN Leaf("str", "") ELSE KeyType(Sub(h, 6)), some>>)
                                [] N(Sub(h, 4), 5) = 1 -> Nd("map", "", <<Leaf("str", ""), Leaf(Pick(Sub(h, 5), <<"str", "any", "ign">>), "")>>)
                                [] OTHER -> Nk("struct", "S", fields))
       [] OTHER -> Leaf(Pick(Sub(h, 2), <<"any", "str", "ign">>), "")

RECURSIVE InText(_, _)         \* can a text denote the tree? (no block collections within flow collections)
InText(n, flow) == /\ n.t \in Block => (~flow /\ n.c # <<>>)
                   /\ n.t \in BlockScalar => ~flow
                   /\ n.t = "el" /\ n.k # "" => IsKey(n.k)
                   /\ \A j \in 1..Len(n.c) : InText(n.c[j], flow \/ n.t \in Flow)
RootOf(h, al, an) == LET n == NodeOf(Sub(h, 1), 3, al, an) IN IF n.t \in Block THEN n ELSE Bh(<<El("a", IF Odds(Sub(h, 2), al, 100) THEN "x" ELSE "", n), El("b", "", NodeOf(Sub(h, 3), 2, al, an))>>)
(* the same with one thing altered somewhere: an entry or element twice, left out,  *)
(* moved or put in another's place, another key, another scalar                       *)
RECURSIVE Alter(_, _)
Alter(h, n) ==
  LET x == 1 + N(Sub(h, 2), Max2(Len(n.c), 1))
      y == 1 + N(Sub(h, 3), Max2(Len(n.c), 1))
      without == SubSeq(n.c, 1, x - 1) \o SubSeq(n.c, x + 1, Len(n.c))
      with(e) == SubSeq(n.c, 1, y - 1) \o <<e>> \o SubSeq(n.c, y, Len(n.c))
      kind == IF n.t = "el" THEN 1 ELSE W(Sub(h, 1), <<9, 2, 2, 1, 1, 1>>)
      below == TLCEval(IF n.c = <<>> THEN n ELSE Alter(Sub(h, 4), n.c[x]))
      keyed == n.c # <<>> /\ n.c[x].t = "el" /\ n.c[x].k # ""
  IN IF n.t \notin Collection \cup {"el"} THEN ScalarOf(Sub(h, 5))
     ELSE IF n.c = <<>> THEN (IF n.t = "el" THEN n ELSE NodeOf(Sub(h, 5), 1, 0, 0))
     ELSE CASE kind = 1 -> (IF IsComment(n.c[x]) THEN n ELSE [n EXCEPT !.c[x] = below])
            [] kind = 2 -> [n EXCEPT !.c = with(n.c[x])]
            [] kind = 3 -> (IF Len(n.c) > 1 THEN [n EXCEPT !.c = without] ELSE n)
            [] kind = 4 -> (IF IsComment(n.c[x]) THEN n ELSE [n EXCEPT !.c = SubSeq(without, 1, y - 1) \o <<n.c[x]>> \o SubSeq(without, y, Len(without))])
            [] kind = 5 -> (IF keyed THEN [n EXCEPT !.c[x].k = Pick(Sub(h, 6), DeKeys)] ELSE n)
            [] OTHER -> (IF keyed THEN [n EXCEPT !.c = with([n.c[x] EXCEPT !.c = <<NodeOf(Sub(h, 7), 1, 0, 0)>>])] ELSE n)
DeCase(n) ==
  LET h == CaseSeed(n)
      anchors == Plan = "anchors"
      text == Odds(Sub(h, 1), 1, 2)
      smallname == [GText EXCEPT !.names = <<"x", "y">>, !.keys = DeKeys]
      own == TLCEval(IF Plan = "anchordocs" THEN (LET f == Fill(Sub(h, 3), NthShape(n), smallname, FALSE) IN IF Odds(Sub(h, 4), 1, 2) THEN f ELSE Mend(Sub(h, 9), f, <<>>).n) ELSE IF Odds(Sub(h, 11), 1, 40) THEN Chain(Sub(h, 2), 3 + N(Sub(h, 3), 6)) ELSE IF anchors THEN Mend(Sub(h, 9), TLCEval(RootOf(Sub(h, 2), 45, 25)), <<>>).n ELSE IF text THEN RootOf(Sub(h, 2), 0, 0) ELSE NodeOf(Sub(h, 2), 3, 0, 0))
      written == text /\ InText(own, FALSE) /\ own.t \in Block
      clean == TLCEval(IF written THEN [own EXCEPT !.c = DropLeading(own.c)] ELSE own)
      r == TLCEval(Resolved(clean))
      other == TLCEval(IF Plan = "altered" THEN Alter(Sub(h, 20), clean) ELSE clean)
  IN [f |-> "de", no |-> n, src |-> IF written /\ Plan # "altered" THEN "text" ELSE "tree", doc |-> other,
      lines |-> IF written /\ Plan # "altered" THEN DocT(Doc(<<other>>), Sub(h, 5)) ELSE <<>>,
      schemas |-> <<TypeFor(Sub(h, 6), r), TypeFor(Sub(h, 7), r), TypeFor(Sub(h, 8), r), Leaf("any", "")>>]
(* every short scalar of the characters of numbers, every scalar of the list with    *)
(* something before or after it, and every word in every mixture of cases, read as    *)
(* every type of scalars                                                                *)
NumMarks == <<"0", "1", "9", "-", "+", ".", "e", "E", "_", "x", "n", "a", "i", "f", "~", "2", "5">>
RECURSIVE NumText(_, _)
NumText(len, k) == IF len = 0 THEN "" ELSE NumMarks[1 + (k % Len(NumMarks))] \o NumText(len - 1, k \div Len(NumMarks))
RECURSIVE NthNum(_, _, _)
NthNum(len, many, k) == IF k < many THEN NumText(len, k) ELSE NthNum(len + 1, many * Len(NumMarks), k - many)
RECURSIVE NumsTo(_)
NumsTo(len) == IF len = 0 THEN 1 ELSE 1 + Len(NumMarks) * NumsTo(len - 1)
CaseWords == <<"true", "false", "yes", "no", "on", "off", "null", "nan", "inf", "infinity", "none", "nil", "y", "n", "t", "f", "truee", "one", "two x">>
RECURSIVE Cased(_, _)
Cased(s, mask) == IF s = "" THEN "" ELSE (IF mask % 2 = 1 THEN FlipCase(FirstCh(s)) ELSE FirstCh(s)) \o Cased(From(s, 2), mask \div 2)
Decor == <<<<"", "">>, <<"+", "">>, <<"-", "">>, <<"0", "">>, <<"00", "">>, <<"", "0">>, <<"", ".0">>, <<"", "e0">>, <<"", ".">>, <<".", "">>, <<"", " ">>, <<" ", "">>, <<"", "_">>, <<"'", "">>, <<"+0", "">>, <<"-0", "">>, <<"0x", "">>, <<"", "\n">>>>
WordForms == Len(CaseWords) * 256
NumForms == (Len(NumTexts) + Len(WordTexts)) * Len(Decor)
PlainNo(n) ==
  LET k == n - WordForms
      m == k - NumForms
      d == Decor[1 + (k % Len(Decor))]
      all == NumsTo(Size0)
      stride == IF all > Total - WordForms - NumForms THEN all \div (Total - WordForms - NumForms) ELSE 1
  IN IF n < WordForms THEN Cased(CaseWords[1 + (n % Len(CaseWords))], n \div Len(CaseWords))
     ELSE IF k < NumForms THEN d[1] \o (NumTexts \o WordTexts)[1 + (k \div Len(Decor))] \o d[2]
     ELSE NthNum(0, 1, ((m * stride) + N(CaseSeed(n), stride)) % all)
ScalarTypes == [j \in 1..Len(Ints) |-> Leaf(Ints[j], "")] \o [j \in 1..9 |-> Leaf(<<"f32", "f64", "bool", "char", "str", "unit", "any", "ign", "bytes">>[j], "")]
               \o <<Nd("opt", "", <<Leaf("i8", "")>>), Nd("opt", "", <<Leaf("str", "")>>), Nk("nstruct", "W", <<Leaf("u8", "")>>), Nk("ustruct", "U", <<>>), Nd("seq", "", <<Leaf("u8", "")>>),
                    Nk("enum", "E", <<Nk("uv", "One", <<>>), Nk("uv", "two x", <<>>), Nk("uv", "1", <<>>), Nk("nv", "null", <<Leaf("unit", "")>>), Nk("uv", "true", <<>>)>>)>>
PlainCase(n) ==
  LET h == CaseSeed(n)
      s == TLCEval(PlainNo(n))
      v == CASE W(Sub(h, 1), <<6, 1, 1, 1, 1>>) = 1 -> Uq(s)
             [] W(Sub(h, 1), <<6, 1, 1, 1, 1>>) = 2 -> Sq(<<Str(s)>>)
             [] W(Sub(h, 1), <<6, 1, 1, 1, 1>>) = 3 -> Dq(<<Str(s)>>)
             [] W(Sub(h, 1), <<6, 1, 1, 1, 1>>) = 4 -> Lit("strip", <<Ln(s)>>)
             [] OTHER -> Fold("clip", <<Ln(s)>>)
  IN [f |-> "de", no |-> n, src |-> "tree", doc |-> v, lines |-> <<>>, schemas |-> ScalarTypes]
(* PLAN styles: each of those texts of numbers and words in each other style *)
StyledAs == <<"sq", "dq", "lit strip", "lit clip", "lit keep", "fold strip", "fold clip", "fold keep">>
StylesCase(n) ==
  LET k == n \div Len(StyledAs)
      style == Split(StyledAs[1 + (n % Len(StyledAs))], " ")
      d == Decor[1 + (k % Len(Decor))]
      s == d[1] \o (NumTexts \o WordTexts)[1 + ((k \div Len(Decor)) % (Len(NumTexts) + Len(WordTexts)))] \o d[2]
      v == CASE style[1] = "sq" -> Sq(IF HasCh(s, {"'"}) THEN <<Esc("'"), Str(From(s, 2))>> ELSE <<Str(s)>>)
             [] style[1] = "dq" -> Dq(<<Str(s)>>)
             [] style[1] = "lit" -> Lit(style[2], <<Ln(s)>>)
             [] OTHER -> Fold(style[2], <<Ln(s)>>)
  IN [f |-> "de", no |-> n, src |-> "tree", doc |-> v, lines |-> <<>>, schemas |-> ScalarTypes]
Case2(n) == IF Plan = "plain" THEN PlainCase(n) ELSE IF Plan = "styles" THEN StylesCase(n) ELSE DeCase(n)
DInit == i = Shard /\ Emit(Case2(Shard))
DNext == i + Shards < Total /\ i' = i + Shards /\ Emit(Case2(i + Shards))
DSpec == DInit /\ [][DNext]_i
============================================================================
