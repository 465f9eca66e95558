------------------------------ MODULE GenSerde ----------------------------
(* Types and values of them, for serialization (PLAN serde); every short string in *)
(* the places that a string can have (PLAN strings); strings with every character *)
(* in every place (PLAN charstrings); and numbers of any number of digits (numbers).    *)
EXTENDS Small, Serde, Chars

VARIABLE i

(* ------------------------------- strings -------------------------------- *)
Glyphs == <<" ", "a", "b", ":", "#", "-", "'", "\"", "\\", "\n", "\r", "\t", "[", "]", "{", "}", ",", "&", "*", "!", "|", ">", "%",
            "@", "`", "~", "1", "0", ".", "é", "?", "=", "<", "日", "e", "\n", " ", "\n", "😀", "_", "+", "x", "n">>
Spaces == <<" ", "a", "\n", "b", "\n", " a", "a ", "\n", "\t", "a b", "\r", "word ", "\n\n">>
Words == <<"lorem", "ipsum", "a", "it's", "x:y", "\"quoted\"", "https://example.org/a/path?with=query&more=1", "(f(x),", "[1]", "-", "#", "été", "é,", "",
           "C:\\dir", "{a}", "end.", "|", ":", "consectetur", "adipiscing", Times("unbroken", 16)>>
(* strings that read as something else where they are not quoted *)
Tricky == <<"nan", "NaN", "inf", "-inf", "+inf", "infinity", "-Infinity", "1e999", "+1", "-0", "007", ".5", "5.", "1e5", "1E-3", "-.5e+3", "0x1f", "1_000",
            "18446744073709551615", "18446744073709551616", "-9223372036854775809", "true", "false", "True", "TRUE", "yes", "on", "null", "Null", "NULL",
            "~", "", "-", "- a", "-a", "a:", "a: b", ":", ": a", "a:\tb", "a :b", "#", "a#", "a #b", "'", "''", "\"", "'a'", "\"a\"", "it's \"b\"", "[", "[]", "{}", "a]", "a, b", "|", ">", "> a", "a > b",
            "a|b", "*", "*a", "&a", "a & b", " ", " a", "a ", "\n", "a\n", "\na", "a\n\n", "\n\n", "a\nb", "a\n b", " a\nb", "a \nb", "\t", "a\tb", "\ta", "a\t", "\r", "a\r\nb", "a\rb", "\\", "a\\n", "\\\"", "---", "...", "%", "@", "`", "!", "?", "? a", "é", "= a">>
StringOf(h) ==
  IF Odds(Sub(h, 9), 1, 4) THEN Pick(Sub(h, 2), Tricky) ELSE
  CASE W(Sub(h, 1), <<4, 3, 4, 2, 3, 2>>) = 1 -> Pick(Sub(h, 2), Plain \o PlainBlock \o Quoted \o Lines)
    [] W(Sub(h, 1), <<4, 3, 4, 2, 3, 2>>) = 2 -> Pick(Sub(h, 2), Plain \o KeysMany)
    [] W(Sub(h, 1), <<4, 3, 4, 2, 3, 2>>) = 3 -> Concat(Draw(Sub(h, 2), Glyphs, Seldom(Sub(h, 5), 7, N(Sub(h, 3), 7))))
    [] W(Sub(h, 1), <<4, 3, 4, 2, 3, 2>>) = 4 -> Concat(Draw(Sub(h, 2), Spaces, 1 + N(Sub(h, 3), 6)))
    [] W(Sub(h, 1), <<4, 3, 4, 2, 3, 2>>) = 5 ->
         Join(Draw(Sub(h, 2), Words, Seldom(Sub(h, 6), 40, 5 + N(Sub(h, 3), 25))), " ") \o Pick(Sub(h, 4), <<"", "", "\n", " ", "\n\n">>)
    [] OTHER -> Join([j \in 1..Seldom(Sub(h, 7), 6, 2 + N(Sub(h, 3), 3)) |-> Join(Draw(Sub(h, 10 + j), Words, N(Sub(h, 30 + j), 22)), " ")], "\n")
                \o Pick(Sub(h, 4), <<"", "", "\n", "\n\n">>)
NameOf(h) == IF Odds(Sub(h, 1), 1, 6) THEN Pick(Sub(h, 2), <<"a.b", "x: y", "", " a", "a ", "#", "- x", "é-", "'q'", "[", "a,b", "*a", "~", "x\ny">>)
             ELSE Pick(Sub(h, 2), KeysMany)

(* -------------------------------- types --------------------------------- *)
Ints == <<"i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128">>
RECURSIVE Nullable(_)
Nullable(sc) == sc.t \in {"opt", "unit", "ustruct"} \/ (sc.t = "nstruct" /\ Nullable(sc.c[1]))
KeyType(h) ==
  CASE W(Sub(h, 1), <<8, 2, 1, 1, 1, 1>>) = 1 -> Leaf("str", "")
    [] W(Sub(h, 1), <<8, 2, 1, 1, 1, 1>>) = 2 -> Leaf(Pick(Sub(h, 2), Ints), "")
    [] W(Sub(h, 1), <<8, 2, 1, 1, 1, 1>>) = 3 -> Leaf("char", "")
    [] W(Sub(h, 1), <<8, 2, 1, 1, 1, 1>>) = 4 -> Leaf("bool", "")
    [] W(Sub(h, 1), <<8, 2, 1, 1, 1, 1>>) = 5 -> Nk("nstruct", "Key", <<Leaf("str", "")>>)
    [] OTHER -> Nk("enum", "E", <<Nk("uv", "One", <<>>), Nk("uv", "Two x", <<>>), Nk("uv", "null", <<>>)>>)
RECURSIVE Type(_, _)
RECURSIVE NotNullable(_, _)
NotNullable(h, d) == LET t == Type(Sub(h, 1), d) IN IF Nullable(t) THEN (IF t.t = "opt" THEN t.c[1] ELSE Leaf("str", "")) ELSE t
(* distinct names: the first of each *)
Distinct(s) == LET first == SelectSeq([j \in 1..Len(s) |-> <<j, s[j]>>], LAMBDA x : ~\E y \in 1..(x[1] - 1) : s[y] = x[2]) IN TLCEval([j \in 1..Len(first) |-> first[j][2]])
Names1(h, n) == Distinct(TLCEval([j \in 1..n |-> NameOf(Sub(h, j))]))
FieldsOf(h, d, n) == LET names == Names1(Sub(h, 1), n) IN [j \in 1..Len(names) |-> Nk("el", names[j], <<Type(Sub(h, 10 + j), d)>>)]
Type(h, d) ==
  LET k == W(Sub(h, 1), IF d = 0 THEN <<2, 4, 2, 1, 8, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>> ELSE <<1, 2, 1, 1, 5, 1, 1, 2, 3, 2, 2, 3, 1, 1, 1, 4>>)
      n == Count(Sub(h, 2), <<1, 3, 4, 2>>)
      types(m) == [j \in 1..m |-> Type(Sub(h, 10 + j), d - 1)]
      variant(name, j) == LET v == Sub(h, 50 + j)
                          IN CASE N(Sub(v, 1), 4) = 0 -> Nk("uv", name, <<>>)
                               [] N(Sub(v, 1), 4) = 1 -> Nk("nv", name, <<Type(Sub(v, 2), d - 1)>>)
                               [] N(Sub(v, 1), 4) = 2 -> Nk("tv", name, [x \in 1..Count(Sub(v, 3), <<1, 1, 4, 2>>) |-> Type(Sub(v, 10 + x), d - 1)])
                               [] OTHER -> Nk("sv", name, FieldsOf(Sub(v, 4), d - 1, Count(Sub(v, 5), <<1, 3, 3>>)))
      variants == LET names == Names1(Sub(h, 3), 1 + N(Sub(h, 4), 4)) IN [j \in 1..Len(names) |-> variant(names[j], j)]
  IN CASE k = 1 -> Leaf("bool", "")
       [] k = 2 -> Leaf(Pick(Sub(h, 5), Ints), "")
       [] k = 3 -> Leaf(Pick(Sub(h, 5), <<"f32", "f64">>), "")
       [] k = 4 -> Leaf("char", "")
       [] k = 5 -> Leaf("str", "")
       [] k = 6 -> Leaf("unit", "")
       [] k = 7 -> Leaf("bytes", "")
       [] k = 8 -> Nd("opt", "", <<NotNullable(Sub(h, 6), d - 1)>>)
       [] k = 9 -> Nd("seq", "", <<Type(Sub(h, 6), d - 1)>>)
       [] k = 10 -> Nd("tuple", "", types(n))
       [] k = 11 -> Nd("map", "", <<KeyType(Sub(h, 7)), Type(Sub(h, 6), d - 1)>>)
       [] k = 12 -> Nk("struct", "S", FieldsOf(Sub(h, 8), d - 1, n + 1))
       [] k = 13 -> Nk("ustruct", "U", <<>>)
       [] k = 14 -> Nk("nstruct", "W", <<Type(Sub(h, 6), d - 1)>>)
       [] k = 15 -> Nk("tstruct", "T", types(n))
       [] OTHER -> Nk("enum", "E", variants)

(* types within types *)
RECURSIVE ChainType(_, _)
ChainType(h, n) ==
  IF n = 0 THEN Type(Sub(h, 1), 0)
  ELSE LET t == ChainType(Sub(h, 1), n - 1)
           full == IF Nullable(t) THEN (IF t.t = "opt" THEN t.c[1] ELSE Leaf("str", "")) ELSE t
       IN CASE N(Sub(h, 2), 9) = 0 -> Nd("opt", "", <<full>>)
            [] N(Sub(h, 2), 9) \in {1, 2} -> Nd("seq", "", <<t>>)
            [] N(Sub(h, 2), 9) = 3 -> Nd("map", "", <<Leaf("str", ""), t>>)
            [] N(Sub(h, 2), 9) = 4 -> Nk("struct", "S", <<Nk("el", "a", <<t>>)>>)
            [] N(Sub(h, 2), 9) = 5 -> Nd("tuple", "", <<t, Leaf("i8", "")>>)
            [] N(Sub(h, 2), 9) = 6 -> Nk("enum", "E", <<Nk("nv", "One", <<t>>)>>)
            [] N(Sub(h, 2), 9) = 7 -> Nk("enum", "E", <<Nk("tv", "One", <<t, t>>), Nk("uv", "Two", <<>>)>>)
            [] OTHER -> Nk("enum", "E", <<Nk("sv", "One", <<Nk("el", "a", <<t>>), Nk("el", "b c", <<Leaf("str", "")>>)>>)>>)

(* -------------------------------- values -------------------------------- *)
Floats64 == <<"0", "-0", "1.5", "1e300", "inf", "NaN", "-inf", "0.1", "5e-324", "123456789.125", "1e21", "1.7976931348623157e308", "-2.5", "100", "1e16", "1e-7">>
Floats32 == <<"0", "-0", "0.1", "3.4028235e38", "1e-45", "inf", "NaN", "-inf", "16777216", "1e10", "-1.25", "3">>
IntValue(h, t) ==
  LET pool == <<"0", "1", High(t), "7", "12", "100">> \o (IF Signed(t) THEN <<"-1", "-" \o Low(t), "-12">> ELSE <<>>)
  IN Pick(h, pool)
RECURSIVE ValueOf(_, _)
ValueOf(h, sc) ==
  LET t == sc.t
      n == IF t \in {"seq", "map"} /\ Odds(Sub(h, 5), 1, 30) /\ sc.c[Len(sc.c)].c = <<>> THEN 10 + N(Sub(h, 1), 20) ELSE Count(Sub(h, 1), <<2, 3, 4, 3, 1>>)
      all(ts, tag, k) == Nk(tag, k, [j \in 1..Len(ts) |-> ValueOf(Sub(h, 10 + j), ts[j])])
      fields(fs, tag, k) == Nk(tag, k, [j \in 1..Len(fs) |-> Nk("el", fs[j].k, <<ValueOf(Sub(h, 10 + j), fs[j].c[1])>>)])
      var == Pick(Sub(h, 2), sc.c)
  IN CASE t = "bool" -> Leaf("bool", Pick(Sub(h, 3), <<"true", "false">>))
       [] t \in IntTypes -> Leaf(t, IntValue(Sub(h, 3), t))
       [] t = "f32" -> Leaf(t, Pick(Sub(h, 3), Floats32))
       [] t = "f64" -> Leaf(t, Pick(Sub(h, 3), Floats64))
       [] t = "char" -> Leaf(t, Pick(Sub(h, 3), Glyphs))
       [] t = "str" -> Leaf(t, StringOf(Sub(h, 3)))
       [] t = "unit" -> Leaf(t, "")
       [] t = "ustruct" -> Nk(t, sc.k, <<>>)
       [] t = "bytes" -> Nd(t, "", [j \in 1..n |-> Leaf("u8", Pick(Sub(h, 10 + j), <<"0", "1", "128", "255", "10">>))])
       [] t = "opt" -> IF Odds(Sub(h, 3), 1, 3) THEN Leaf("none", "") ELSE Nd("some", "", <<ValueOf(Sub(h, 4), sc.c[1])>>)
       [] t = "seq" -> Nd(t, "", [j \in 1..n |-> ValueOf(Sub(h, 10 + j), sc.c[1])])
       [] t = "tuple" -> all(sc.c, t, "")
       [] t = "tstruct" -> all(sc.c, t, sc.k)
       [] t = "nstruct" -> all(sc.c, t, sc.k)
       [] t = "map" -> Nd(t, "", [j \in 1..n |-> Nd("kv", "", <<IF sc.c[1].t = "str" THEN Leaf("str", IF j > 5 THEN "w" \o ToString(j) ELSE NameOf(Sub(h, 30 + j)))
                                                                ELSE IF sc.c[1].t = "nstruct" THEN Nk("nstruct", sc.c[1].k, <<Leaf("str", NameOf(Sub(h, 30 + j)))>>)
                                                                ELSE ValueOf(Sub(h, 30 + j), sc.c[1]), ValueOf(Sub(h, 10 + j), sc.c[2])>>)])
       [] t = "struct" -> fields(sc.c, t, sc.k)
       [] OTHER -> (CASE var.t = "uv" -> Nk("uv", var.k, <<>>)
                      [] var.t = "nv" -> Nk("nv", var.k, <<ValueOf(Sub(h, 3), var.c[1])>>)
                      [] var.t = "tv" -> all(var.c, "tv", var.k)
                      [] OTHER -> fields(var.c, "sv", var.k))
(* ------------------------- every short string --------------------------- *)
(* strings of up to SIZE of these characters, by number *)
Marks == <<"a", " ", ":", "#", "-", "'", "\"", "\n", "1", ",", "]", "{", "&", "*", ".", "~", "\\", "\t", ">", "e", "\r", " ", "%", "?">>
RECURSIVE MarksOf(_, _)
MarksOf(len, k) == IF len = 0 THEN "" ELSE Marks[1 + (k % Len(Marks))] \o MarksOf(len - 1, k \div Len(Marks))
RECURSIVE NthText(_, _, _)
NthText(len, many, k) == IF k < many THEN MarksOf(len, k) ELSE NthText(len + 1, many * Len(Marks), k - many)
RECURSIVE TextsTo(_)
TextsTo(len) == IF len = 0 THEN 1 ELSE 1 + Len(Marks) * TextsTo(len - 1)
TextStride == LET all == TextsTo(Size0) IN IF all > Total THEN all \div Total ELSE 1
StringPlaces == <<"@", "a@", "@a", "a@b", "a @", "@ a", "a@ b", "a @b", "a\n@", "@\na", "a\n@ b\nc", "-@", "- @", ":@", "@:", "@: a", "1@", "@1", "1@1", "\"@", "'@", "#@", "a #@",
                  " @", "@ ", "[@", "{a@", "a@]", "&@", "*@", "a, @", ".@", "@.", "\\@", "a\n\n@\n", "@\n", "\n@", "|@", ">@", "null@", "tru@">>
TextNo(n) == IF Plan \in {"charstrings", "prettychars"} THEN Placed(n, StringPlaces) ELSE NthText(0, 1, (n * TextStride + N(CaseSeed(n), TextStride)) % TextsTo(Size0))
StringsType == Nk("struct", "S", <<Nk("el", "f", <<Leaf("str", "")>>), Nk("el", "g h", <<Nd("seq", "", <<Leaf("str", "")>>)>>), Nk("el", "o", <<Nd("opt", "", <<Leaf("str", "")>>)>>),
                 Nk("el", "e", <<Nk("enum", "E", <<Nk("nv", "k", <<Nd("tuple", "", <<Leaf("str", ""), Leaf("i8", "")>>)>>)>>)>>), Nk("el", "l", <<Leaf("str", "")>>), Nk("el", "c", <<Leaf("char", "")>>)>>)
StringsCase(n) ==
  LET x == TLCEval(TextNo(n))
      long == IF n % 3 = 0 THEN x \o LongText[1] \o x ELSE IF n % 3 = 1 THEN LongText[1] \o " " \o x \o " " \o LongText[2] ELSE "a\n" \o x \o LongText[1]
      str(y) == Leaf("str", y)
      vals == <<str(x), Nd("seq", "", <<str(x), str("v")>>), Nd("some", "", <<str(x)>>), Nk("nv", "k", <<Nd("tuple", "", <<str(x), Leaf("i8", "1")>>)>>), str(long), Leaf("char", IF IsOneChar(x) THEN x ELSE "a")>>
  IN [f |-> "serde", no |-> n, schema |-> StringsType, value |-> Nk("struct", "S", [j \in 1..6 |-> Nk("el", StringsType.c[j].k, <<vals[j]>>)])]
(* ------------------------------- numbers -------------------------------- *)
Digits9 == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digits10 == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "9">>
SomeDigits(h, n) == Pick(Sub(h, 1), Digits9) \o Concat(Draw(Sub(h, 2), Digits10, n - 1))
AnyInt(h, t) ==
  LET d == SomeDigits(Sub(h, 1), 1 + N(Sub(h, 2), Len(High(t)) - 1))
  IN IF Odds(Sub(h, 3), 1, 3) THEN IntValue(Sub(h, 4), t) ELSE IF Len(d) = Len(High(t)) THEN High(t) ELSE IF Signed(t) /\ Odds(Sub(h, 5), 1, 2) THEN "-" \o d ELSE d
AnyFloat(h) ==
  LET d == SomeDigits(Sub(h, 1), 1 + N(Sub(h, 2), 18))
      at == N(Sub(h, 3), Len(d) + 1)
      m == IF at = 0 THEN "0." \o Times("0", N(Sub(h, 4), 7)) \o d ELSE IF at = Len(d) THEN d ELSE SubSeq(d, 1, at) \o "." \o From(d, at + 1)
      e == CASE N(Sub(h, 5), 3) = 0 -> "" [] N(Sub(h, 5), 3) = 1 -> "e" \o ToString(N(Sub(h, 6), 25)) [] OTHER -> "e" \o ToString(N(Sub(h, 6), 640) - 335)
  IN IF Odds(Sub(h, 7), 1, 8) THEN Pick(Sub(h, 8), Floats64 \o Floats32) ELSE (IF Odds(Sub(h, 9), 1, 3) THEN "-" ELSE "") \o m \o e
AnyNum(h, t) == Leaf(t, IF t \in IntTypes THEN AnyInt(h, t) ELSE IF t = "char" THEN (LET c == Pick(h, AnyChar) IN IF IsOneChar(c) THEN c ELSE "é") ELSE IF t = "bool" THEN Pick(h, <<"true", "false">>) ELSE AnyFloat(h))
NumTypes == Ints \o <<"f32", "f64", "char", "bool">>
NumbersCase(n) ==
  LET h == CaseSeed(n)
      t(j) == NumTypes[1 + (j % Len(NumTypes))]
      a == 2 + N(Sub(h, 1), 10)
      fields == [j \in 1..14 |-> Nk("el", "n" \o ToString(j), <<Leaf(t(j), "")>>)]
      key == KeyType(Sub(h, 3))
      nested == <<Nk("el", "s", <<Nd("seq", "", <<Leaf(t(n), "")>>)>>), Nk("el", "o", <<Nd("opt", "", <<Leaf(t(n + 1), "")>>)>>),
                  Nk("el", "m", <<Nd("map", "", <<key, Leaf(t(n + 2), "")>>)>>), Nk("el", "t", <<Nd("tuple", "", <<Leaf("f64", ""), Leaf("f32", ""), Leaf(t(n + 3), "")>>)>>),
                  Nk("el", "e", <<Nk("enum", "E", <<Nk("nv", "One", <<Leaf(t(n + 4), "")>>)>>)>>), Nk("el", "y", <<Leaf("bytes", "")>>)>>
      keys == IF key.t \in IntTypes THEN TLCEval(LET x == AnyInt(Sub(h, 60), key.t) y == AnyInt(Sub(h, 61), key.t) IN IF x = y THEN <<Leaf(key.t, x)>> ELSE <<Leaf(key.t, x), Leaf(key.t, y)>>)
              ELSE <<ValueOf(Sub(h, 60), key)>>
      vals == <<Nd("seq", "", [j \in 1..a |-> AnyNum(Sub(h, 20 + j), t(n))]), Nd("some", "", <<AnyNum(Sub(h, 5), t(n + 1))>>),
                Nd("map", "", [j \in 1..Len(keys) |-> Nd("kv", "", <<keys[j], AnyNum(Sub(h, 30 + j), t(n + 2))>>)]),
                Nd("tuple", "", <<AnyNum(Sub(h, 6), "f64"), AnyNum(Sub(h, 7), "f32"), AnyNum(Sub(h, 8), t(n + 3))>>),
                Nk("nv", "One", <<AnyNum(Sub(h, 9), t(n + 4))>>), Nd("bytes", "", [j \in 1..a |-> Leaf("u8", ToString(N(Sub(h, 80 + j), 256)))])>>
  IN [f |-> "serde", no |-> n, schema |-> Nk("struct", "S", TLCEval(fields \o nested)),
      value |-> Nk("struct", "S", TLCEval([j \in 1..14 |-> Nk("el", "n" \o ToString(j), <<AnyNum(Sub(h, 40 + j), t(j))>>)] \o [j \in 1..6 |-> Nk("el", nested[j].k, <<vals[j]>>)]))]
Drawn(n) == LET h == CaseSeed(n)
               own == TLCEval(IF Odds(Sub(h, 5), 1, 30) THEN ChainType(Sub(h, 1), 4 + N(Sub(h, 3), 4)) ELSE Type(Sub(h, 1), N(Sub(h, 3), 4)))
               sc == IF Odds(Sub(h, 4), 1, 2) THEN own ELSE Nk("struct", "S", <<Nk("el", "f", <<own>>), Nk("el", "g h", <<own>>)>>)
           IN [f |-> "serde", no |-> n, schema |-> sc, value |-> TLCEval(ValueOf(Sub(h, 2), sc))]
Case(n) == IF Plan \in {"strings", "charstrings"} THEN StringsCase(n) ELSE IF Plan = "numbers" THEN NumbersCase(n) ELSE Drawn(n)
Init == i = Shard /\ Emit(Case(Shard))
Next == i + Shards < Total /\ i' = i + Shards /\ Emit(Case(i + Shards))
Spec == Init /\ [][Next]_i
============================================================================
