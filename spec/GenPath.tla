------------------------------ MODULE GenPath -----------------------------
(* Texts of paths and pairs of paths. PLAN path: paths spelled with spaces    *)
(* where they do not matter, the same with one character changed, arbitrary    *)
(* tokens, and pairs to append. PLAN paths: every text of up to a number of      *)
(* characters over a small alphabet; PLAN pathchars: every character and every   *)
(* two in every place of a path.                                                   *)
EXTENDS Chars, Paths

VARIABLE i

PathKeys == <<"a", "b", "key", "a b", "=", "*", "a=b", "-x", "é", "日本", "0", "a\tb", "x:y", "#", "\"q\"", "x  y", "\n", "😀", "'", "(", "a*", Times("long ", 30) \o "key">>
PathFields == <<"f", "type", "f.g", "f[0]", "a|b", "é", "x y", "f]", "*", ".", "0", "f\tg">>
PathValues == <<"v", "gap fill", "v[0]", "a=b", "=", "*", "é", "0", "x]", "[*]", "\t", "日本", "~", "true">>
Indexes == <<"0", "1", "2", "7", "00", "010", "0010", "008", "00000000000000000000000000012", "64", "65", "255", "256", "65536", "4294967295", "18446744073709551615", "4294967296", "999">>
TooLarge == <<"18446744073709551616", "99999999999999999999", "018446744073709551616">>
Gap(h) == IF Odds(h, 1, 8) THEN Sp(1 + N(Sub(h, 1), 2)) ELSE ""

(* conditions as [v: what is spelled, s: how] *)
RECURSIVE CondsOf(_, _)
CondsOf(h, n) ==
  IF n = 0 THEN [v |-> <<>>, s |-> ""]
  ELSE LET f == Pick(Sub(h, 1), PathFields)
           v == Pick(Sub(h, 2), PathValues)
           more == CondsOf(Sub(h, 3), n - 1)
       IN [v |-> <<Cond(f, v)>> \o more.v,
           s |-> Gap(Sub(h, 4)) \o "|" \o Gap(Sub(h, 5)) \o f \o Gap(Sub(h, 6)) \o "=" \o Gap(Sub(h, 7)) \o v \o more.s]
Plain(n) == NoZeros(n)
(* n parts; after conditions only a key can follow *)
RECURSIVE PartsOf(_, _, _, _)
PartsOf(h, n, first, afterConds) ==
  IF n = 0 THEN [v |-> <<>>, s |-> ""]
  ELSE LET cs == TLCEval(CondsOf(Sub(h, 1), Seldom(Sub(h, 10), 3, W(Sub(h, 2), <<10, 4, 2>>) - 1)))
           kind == IF first \/ afterConds THEN 1 ELSE W(Sub(h, 3), <<5, 3, 3>>)
           k == Pick(Sub(h, 4), PathKeys)
           x == Pick(Sub(h, 5), Indexes)
           one == CASE kind = 1 -> [v |-> KeySeg(k, cs.v), s |-> (IF first THEN "" ELSE Gap(Sub(h, 6)) \o "." \o Gap(Sub(h, 7))) \o k]
                    [] kind = 2 -> [v |-> IdxSeg(Plain(x), cs.v), s |-> Gap(Sub(h, 6)) \o "[" \o Gap(Sub(h, 7)) \o x \o Gap(Sub(h, 8)) \o "]"]
                    [] OTHER -> [v |-> AllSeg(cs.v), s |-> Gap(Sub(h, 6)) \o "[" \o Gap(Sub(h, 7)) \o "*" \o Gap(Sub(h, 8)) \o "]"]
           more == PartsOf(Sub(h, 9), n - 1, FALSE, cs.v # <<>>)
       IN [v |-> <<one.v>> \o more.v, s |-> one.s \o cs.s \o more.s]
RootOf(h) == LET cs == TLCEval(CondsOf(Sub(h, 1), N(Sub(h, 2), 3))) IN [v |-> RootPath(cs.v), s |-> cs.s]
Spelled(h) == IF Odds(Sub(h, 1), 1, 9) THEN RootOf(Sub(h, 2)) ELSE PartsOf(Sub(h, 2), Seldom(Sub(h, 4), 5, 1 + N(Sub(h, 3), 4)), TRUE, FALSE)

Tokens == <<"a", "b", ".", "[", "]", "[*]", "[0]", "*", "|", "=", " ", "1", "|f=v", ".k", "\t", "\n", "é", "|f", "[", "]", "  ", "99999999999999999999", "[1 2]", "\"", "-">>
RECURSIVE Tokens2(_, _)
Tokens2(h, n) == IF n = 0 THEN "" ELSE Pick(Sub(h, 1), Tokens) \o Tokens2(Sub(h, 2), n - 1)
Mangled(h, s) ==
  LET p == 1 + N(Sub(h, 1), Len(s) + 1)
      before == SubSeq(s, 1, p - 1)
  IN CASE W(Sub(h, 2), <<1, 1, 1>>) = 1 -> before \o From(s, p + 1)
       [] W(Sub(h, 2), <<1, 1, 1>>) = 2 -> before \o Pick(Sub(h, 3), Tokens) \o From(s, p)
       [] OTHER -> before \o Pick(Sub(h, 3), Tokens) \o From(s, p + 1)
NoPath == <<>>
PathCase(n) ==
  LET h == CaseSeed(n)
      sp == TLCEval(Spelled(Sub(h, 2)))
      q == TLCEval(Spelled(Sub(h, 3)))
      text(t, want) == [f |-> "path", no |-> n, text |-> t, want |-> want]
      mangled == Mangled(Sub(h, 3), sp.s)
  IN CASE W(Sub(h, 1), <<6, 3, 3, 3, 1>>) = 1 -> text(sp.s \o Gap(Sub(h, 4)), sp.v)
       [] W(Sub(h, 1), <<6, 3, 3, 3, 1>>) = 2 -> text(IF HasSub(sp.s, "😀") THEN sp.s ELSE mangled, NoPath)
       [] W(Sub(h, 1), <<6, 3, 3, 3, 1>>) = 3 -> text(Tokens2(Sub(h, 2), N(Sub(h, 3), 9)), NoPath)
       [] W(Sub(h, 1), <<6, 3, 3, 3, 1>>) = 4 -> [f |-> "append", no |-> n, p |-> sp.v, q |-> q.v, joined |-> sp.s \o Gap(Sub(h, 4)) \o (IF q.v[1].t = "root" THEN "" ELSE "." \o Gap(Sub(h, 5))) \o q.s]
       [] OTHER -> text(sp.s \o ".k[" \o Pick(Sub(h, 3), TooLarge) \o "]", NoPath)

(* every text: those of length 0, of length 1, ... *)
Alphabet == <<"a", ".", "[", "]", "0", "*", "|", "=", " ">>
Letters9 == 9
RECURSIVE TextNo(_, _)
TextNo(k, len) == IF len = 0 THEN "" ELSE Alphabet[1 + (k % Letters9)] \o TextNo(k \div Letters9, len - 1)
RECURSIVE EveryText(_, _, _)
EveryText(n, len, size) == IF n < size THEN TextNo(n, len) ELSE EveryText(n - size, len + 1, size * Letters9)
Every(n) == [f |-> "path", no |-> n, text |-> EveryText(n, 0, 1), want |-> NoPath]

PathPlaces == <<"@", "a@", "@a", "a@b", "a @ b", "a.@", "a.b@", "a.@b", "a@.b", "a[@]", "a[0@]", "a[@0]", "a[*@]", "a[*]@", "a[0]@", "a@[0]", "@[0]", "a[0].@",
                "|@=v", "|f=@", "|f@=v", "|f=v@", "a|@=v", "a|f=@", "a|f@=v", "a|@f=v", "a|f=v@", "a|f=@v", "a|f=v@w.b", "a|f@v", "a@f=v", "a|f=v|@=w", "a|f=v|g=@",
                "a[0]|@=v", "a[0]|f=@", "a[*]|f=v@.b", "[@]", "@.a", "a|f=v.@", "a|f=v@[0]">>
Case(n) == IF Plan = "pathchars" THEN [f |-> "path", no |-> n, text |-> Placed(n, PathPlaces), want |-> NoPath] ELSE IF Plan = "paths" THEN Every(n) ELSE PathCase(n)
Init == i = Shard /\ Emit(Case(Shard))
Next == i + Shards < Total /\ i' = i + Shards /\ Emit(Case(i + Shards))
Spec == Init /\ [][Next]_i
============================================================================
