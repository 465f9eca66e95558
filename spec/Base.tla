------------------------------- MODULE Base -------------------------------
(* Sequences, strings and the deterministic source of choices that every     *)
(* other module of the specification uses.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE FlatFrom(_, _)
FlatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatFrom(ss, i + 1)
Flat(ss) == FlatFrom(TLCEval(ss), 1)                     \* concatenation of a sequence of sequences

MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
Keep(s, Test(_)) == SelectSeq(s, Test)
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
ReplaceAt(s, i, x) == [s EXCEPT ![i] = x]
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Index(s, Test(_)) ==                            \* the first position that meets Test, or 0
  IF \E i \in 1..Len(s) : Test(s[i])
  THEN CHOOSE i \in 1..Len(s) : Test(s[i]) /\ \A j \in 1..(i - 1) : ~Test(s[j])
  ELSE 0
RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
Sum(s) == SumFrom(TLCEval(s), 1)
Repeat(x, n) == [i \in 1..n |-> x]

(* ------------------------------ strings ------------------------------- *)
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
FirstCh(s) == IF s = "" THEN "" ELSE SubSeq(s, 1, 1)
LastCh(s) == IF s = "" THEN "" ELSE SubSeq(s, Len(s), Len(s))
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(TLCEval(ss), sep, 1)
Concat(ss) == Join(ss, "")
RECURSIVE Times(_, _)
Times(s, n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN s ELSE Times(s, n \div 2) \o Times(s, n - n \div 2)
Sp(n) == Times(" ", n)
HasCh(s, set) == \E i \in 1..Len(s) : SubSeq(s, i, i) \in set
OnlyCh(s, set) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in set
HasSub(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
RECURSIVE TrimEndOf(_, _)
TrimEndOf(s, c) == IF s # "" /\ LastCh(s) = c THEN TrimEndOf(SubSeq(s, 1, Len(s) - 1), c) ELSE s
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, c, start, i) ==
  IF i > Len(s) THEN <<SubSeq(s, start, Len(s))>>
  ELSE IF Ch(s, i) = c THEN <<SubSeq(s, start, i - 1)>> \o SplitFrom(s, c, i + 1, i + 1)
  ELSE SplitFrom(s, c, start, i + 1)
Split(s, c) == SplitFrom(s, c, 1, 1)

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9

(* The order of characters, for the names that regrouping sorts (a prefix of the
   order of code points: every character used in a name is listed).              *)
CharTable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~ ²½ßé́λж٣​ Ⅷ　日本ﬁ﻿😀"
Ord(c) == IF c = "\t" THEN -3 ELSE IF c = "\n" THEN -2 ELSE IF c = "\f" THEN -1 ELSE IF c = "\r" THEN 0
          ELSE IF \E i \in 1..Len(CharTable) : Ch(CharTable, i) = c THEN CHOOSE i \in 1..Len(CharTable) : Ch(CharTable, i) = c ELSE 1000
RECURSIVE StrLessFrom(_, _, _)
StrLessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN StrLessFrom(a, b, i + 1) ELSE Ord(Ch(a, i)) < Ord(Ch(b, i))
StrLess(a, b) == StrLessFrom(a, b, 1)

(* ------------------------------- choices ------------------------------ *)
(* A choice point is a pair of small residues; Sub(h, k) derives the k-th     *)
(* independent choice point below h, and N(h, n) is a number in 0..n-1.       *)
MP == 30269
MQ == 30323
Cube(x, m) == (((x * x) % m) * x) % m
Sub(h, k) ==
  LET a == Cube((h[1] + 3 * h[2] + 101 * k + 11) % MP, MP)
      b == Cube((h[2] + 5 * a + 211 * k + 29) % MQ, MQ)
  IN <<(a + 7 * b) % MP, b>>
N(h, n) == ((h[1] * 30323 + h[2]) \div 7) % n
Seed(x, y) == Sub(Sub(Sub(<<(x * 7919 + 17) % MP, (y * 613 + 5) % MQ>>, 1), x % 1000), y % 1000)
Pick(h, s) == s[1 + N(h, Len(s))]
Odds(h, n, d) == N(h, d) < n                    \* true in n of d cases
(* a number as usual, and seldom a big one *)
Seldom(h, big, usual) == IF Odds(Sub(h, 77), 1, 40) THEN big + N(Sub(h, 78), 16) ELSE usual
(* W(h, <<w1, .., wk>>): an index in 1..k with those weights *)
RECURSIVE WFrom(_, _, _)
WFrom(x, ws, i) == IF x < ws[i] \/ i = Len(ws) THEN i ELSE WFrom(x - ws[i], ws, i + 1)
W(h, ws) == WFrom(N(h, Sum(ws)), ws, 1)
============================================================================
