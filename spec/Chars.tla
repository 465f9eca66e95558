-------------------------------- MODULE Chars -----------------------------
(* Every character of ASCII and some of others, and every two of them, in each  *)
(* place of a list (marked by @ in it): all of the characters in every place,      *)
(* then all of the pairs or, if there are k times more than COUNT, one of every k.  *)
EXTENDS Driver

AnyChar == <<"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2",
             "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D",
             "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V",
             "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h",
             "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
             "{", "|", "}", "~", " ", "\t", "\r", "\f", "é", " ", "　", "日", "😀", "²", "½", "Ⅷ", "٣", "é",
             " ", "﻿", "​">>
(* the n-th text of at most total ones *)
PairStride(many, total) == IF many > total THEN many \div total ELSE 1
PlacedIn(n, places, total) ==
  LET singles == Len(places) * Len(AnyChar)
      stride == PairStride(singles * Len(AnyChar), total)
      m == IF n < singles THEN n ELSE singles + ((n - singles) * stride) + N(CaseSeed(n), stride)
      c == m \div Len(places)
      d == c - Len(AnyChar)
      x == IF n < singles THEN AnyChar[c + 1] ELSE AnyChar[1 + (d % Len(AnyChar))] \o AnyChar[1 + ((d \div Len(AnyChar)) % Len(AnyChar))]
  IN Join(Split(places[1 + (m % Len(places))], "@"), x)
Placed(n, places) == PlacedIn(n, places, Total)
============================================================================
