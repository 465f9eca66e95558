------------------------------- MODULE Types ------------------------------
(* What a plain scalar stands for when nobody asks for a type, and how numbers *)
(* are spelled.                                                                   *)
EXTENDS Node

Nulls == {"~", "null", "Null", "NULL"}
Trues == {"true", "True", "TRUE", "yes", "Yes", "YES", "on", "On", "ON"}
Falses == {"false", "False", "FALSE", "no", "No", "NO", "off", "Off", "OFF"}

RECURSIVE Zeros(_)
Zeros(s) == IF Len(s) > 1 /\ FirstCh(s) = "0" THEN Zeros(From(s, 2)) ELSE s
AllDigits(s) == s # "" /\ OnlyCh(s, Digit)
Smaller(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ StrLess(a, b)))      \* a <= b
NoSign(s) == IF s # "" /\ FirstCh(s) \in {"+", "-"} THEN From(s, 2) ELSE s
Minus(s) == s # "" /\ FirstCh(s) = "-"
(* the numeral without sign and leading zeros: "" if s is not an integer in -low..high *)
NotInt == "no"
IntOf(s, low, high, signed) ==
  IF Minus(s) /\ ~signed THEN NotInt
  ELSE IF ~AllDigits(NoSign(s)) THEN NotInt
  ELSE LET d == Zeros(NoSign(s))
       IN IF Minus(s) THEN (IF ~Smaller(d, low) THEN NotInt ELSE IF d = "0" THEN "0" ELSE "-" \o d)
          ELSE IF Smaller(d, high) THEN d ELSE NotInt
IntTypes == {"i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"}
High(t) == CASE t = "i8" -> "127" [] t = "i16" -> "32767" [] t = "i32" -> "2147483647" [] t = "i64" -> "9223372036854775807"
             [] t = "i128" -> "170141183460469231731687303715884105727"
             [] t = "u8" -> "255" [] t = "u16" -> "65535" [] t = "u32" -> "4294967295" [] t = "u64" -> "18446744073709551615"
             [] OTHER -> "340282366920938463463374607431768211455"
Low(t) == CASE t = "i8" -> "128" [] t = "i16" -> "32768" [] t = "i32" -> "2147483648" [] t = "i64" -> "9223372036854775808"
            [] t = "i128" -> "170141183460469231731687303715884105728" [] OTHER -> "0"
Signed(t) == FirstCh(t) = "i"
IntIn(s, t) == IntOf(s, Low(t), High(t), Signed(t))

(* floats: sign, inf, infinity, nan in any case, or digits with a point somewhere and an exponent *)
LowerTable == [c \in {"I", "N", "F", "T", "Y", "A"} |-> CASE c = "I" -> "i" [] c = "N" -> "n" [] c = "F" -> "f" [] c = "T" -> "t" [] c = "Y" -> "y" [] OTHER -> "a"]
Lower(s) == Concat([i \in 1..Len(s) |-> IF Ch(s, i) \in DOMAIN LowerTable THEN LowerTable[Ch(s, i)] ELSE Ch(s, i)])
ExpAt(s) == IF \E i \in 1..Len(s) : Ch(s, i) \in {"e", "E"} THEN CHOOSE i \in 1..Len(s) : Ch(s, i) \in {"e", "E"} /\ \A j \in 1..(i - 1) : Ch(s, j) \notin {"e", "E"} ELSE 0
Mantissa(s) == IF ExpAt(s) = 0 THEN s ELSE SubSeq(s, 1, ExpAt(s) - 1)
Exponent(s) == IF ExpAt(s) = 0 THEN "0" ELSE From(s, ExpAt(s) + 1)
PointAt(s) == IF HasCh(s, {"."}) THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = "." /\ \A j \in 1..(i - 1) : Ch(s, j) # "." ELSE 0
Whole0(m) == IF PointAt(m) = 0 THEN m ELSE SubSeq(m, 1, PointAt(m) - 1)
Fract0(m) == IF PointAt(m) = 0 THEN "" ELSE From(m, PointAt(m) + 1)
IsDecimal(m) == OnlyCh(Whole0(m), Digit) /\ OnlyCh(Fract0(m), Digit) /\ Whole0(m) \o Fract0(m) # ""
IsNumberText(s) == IsDecimal(Mantissa(s)) /\ AllDigits(NoSign(Exponent(s)))
IsFloat(s) == LET u == NoSign(s) IN Lower(u) \in {"inf", "infinity", "nan"} \/ IsNumberText(u)
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s # "" /\ LastCh(s) = "0" THEN TrimZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE NumVal(_, _)
NumVal(s, acc) == IF s = "" THEN acc ELSE NumVal(From(s, 2), 10 * acc + DigitVal(FirstCh(s)))
(* how the number is shown, in positional notation with no needless digit; "?" if   *)
(* it has more than digits significant digits or a large exponent                     *)
Shown(s, digits) ==
  LET u == NoSign(s)
      m == Mantissa(u)
      x == Zeros(NoSign(Exponent(u)))
      e == IF Len(x) > 3 THEN 10000 ELSE IF Minus(Exponent(u)) THEN 0 - NumVal(x, 0) ELSE NumVal(x, 0)
      all == Whole0(m) \o Fract0(m)
      lead == Zeros(all)
      sig == TrimZeros(IF lead = "0" THEN "" ELSE lead)            \* significant digits
      point == Len(Whole0(m)) + e - (Len(all) - Len(lead))            \* position of the point, from the start of lead
      sign == IF Minus(s) THEN "-" ELSE ""
  IN CASE Lower(u) = "nan" -> "NaN"
       [] Lower(u) \in {"inf", "infinity"} -> sign \o "inf"
       [] sig = "" -> sign \o "0"
       [] Len(sig) > digits \/ point > 30 \/ point < -30 -> "?"
       [] point <= 0 -> sign \o "0." \o Times("0", 0 - point) \o sig
       [] point >= Len(sig) -> sign \o sig \o Times("0", point - Len(sig))
       [] OTHER -> sign \o SubSeq(sig, 1, point) \o "." \o From(sig, point + 1)

Kind(s) == CASE s \in Nulls -> "null"
             [] s = "true" \/ s = "false" -> "bool"
             [] IntIn(s, "i64") # NotInt \/ IntIn(s, "u64") # NotInt -> "int"
             [] IsFloat(s) -> "float"
             [] OTHER -> "str"
IntText(s) == IF IntIn(s, "i64") # NotInt THEN IntIn(s, "i64") ELSE IntIn(s, "u64")
(* the type of a scalar that nobody asked for *)
ScalarKind(n) == IF n.t = "uq" THEN Kind(n.s) ELSE "str"
============================================================================
