------------------------------- MODULE Node -------------------------------
(* The abstract document. Every part of a document is one record            *)
(*    [t: tag, s: text, k: key, a: alias ("" for none), c: children]         *)
(* Values:  uq, sq, dq (children: str, esc, bl, rn), lit, fold (s: chomping,  *)
(*          children: ln), anch, ia (flow sequence), ih (flow mapping, of el), *)
(*          ba (block sequence) and bh (block mapping): el, cm (comment on its *)
(*          own line), ic (comment on the line of the entry before it).         *)
(* An entry is [t |-> "el", k |-> key, a |-> alias, c |-> <<value>>].           *)
(* doc: children lc (comments before the marker), cm and the root value.         *)
EXTENDS Base

Nd(t, s, c) == [t |-> t, s |-> s, k |-> "", a |-> "", c |-> c]
Uq(s) == Nd("uq", s, <<>>)
Anch(s) == Nd("anch", s, <<>>)
Cm(s) == Nd("cm", s, <<>>)
Ic(s) == Nd("ic", s, <<>>)
Lc(s) == Nd("lc", s, <<>>)
Bh(c) == Nd("bh", "", c)
Ba(c) == Nd("ba", "", c)
Ih(c) == Nd("ih", "", c)
Ia(c) == Nd("ia", "", c)
Doc(c) == Nd("doc", "", c)
El(k, a, v) == [t |-> "el", s |-> "", k |-> k, a |-> a, c |-> <<v>>]
Str(s) == Nd("str", s, <<>>)
Esc(s) == Nd("esc", s, <<>>)
Bl(n) == Nd("bl", Times("\n", n), <<>>)
Rn == Nd("rn", "", <<>>)
Ln(s) == Nd("ln", s, <<>>)
Sq(parts) == Nd("sq", "", parts)
Dq(parts) == Nd("dq", "", parts)
Lit(chomp, lines) == Nd("lit", chomp, lines)
Fold(chomp, lines) == Nd("fold", chomp, lines)

Val(e) == e.c[1]
IsEl(x) == x.t = "el"
IsComment(x) == x.t \in {"cm", "ic", "lc"}
Elements(n) == Keep(n.c, IsEl)
BlockScalar == {"lit", "fold"}
Scalar == {"uq", "sq", "dq", "lit", "fold"}
Block == {"bh", "ba"}
Flow == {"ih", "ia"}
Collection == Block \cup Flow
Root(doc) == doc.c[Index(doc.c, LAMBDA x : ~IsComment(x))]
RootAt(doc) == Index(doc.c, LAMBDA x : ~IsComment(x))

(* ------------------ names that a text can have as a key ------------------ *)
Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_éÉßλжﬁ日本²½Ⅷ٣"
KeyFirst == {Ch(Letters, x) : x \in 1..Len(Letters)}
KeyChars == KeyFirst \cup {"-", " "}
IsKey(k) == k # "" /\ FirstCh(k) \in KeyFirst /\ OnlyCh(k, KeyChars) /\ LastCh(k) # " "

(* ----------------------- the string a scalar denotes -------------------- *)
PartText(p) == CASE p.t = "str" -> p.s
                 [] p.t = "esc" -> (CASE p.s = "n" -> "\n" [] p.s = "t" -> "\t" [] p.s = "r" -> "\r"
                                      [] OTHER -> p.s)     \* backslash, quotes, a real line break
                 [] p.t = "bl" -> p.s
                 [] OTHER -> ""
LineTexts(n) == [i \in 1..Len(n.c) |-> n.c[i].s]
Chomped(chomp, s) ==
  LET trimmed == TrimEndOf(s, "\n")
  IN CASE chomp = "keep" -> s \o "\n"
       [] chomp = "strip" -> trimmed
       [] OTHER -> IF trimmed = "" THEN "" ELSE trimmed \o "\n"
Indented(line) == FirstCh(line) \in {" ", "\t"}
(* lines i.. of a folded scalar, after the line prev (0: none), with b blank lines since *)
RECURSIVE FoldFrom(_, _, _, _)
FoldFrom(ls, i, prev, b) ==
  IF i > Len(ls) THEN Times("\n", IF prev = 0 THEN b - 1 ELSE b)
  ELSE IF ls[i] = "" THEN FoldFrom(ls, i + 1, prev, b + 1)
  ELSE LET sep == IF prev = 0 THEN Times("\n", b)
                  ELSE IF Indented(ls[prev]) \/ Indented(ls[i]) THEN Times("\n", b + 1)
                  ELSE IF b = 0 THEN " " ELSE Times("\n", b)
       IN sep \o ls[i] \o FoldFrom(ls, i + 1, i, 0)
Folded(ls) == IF ls = <<>> THEN "" ELSE FoldFrom(ls, 1, 0, 0)
Text(n) == CASE n.t = "uq" -> n.s
             [] n.t \in {"sq", "dq"} -> Concat([i \in 1..Len(n.c) |-> PartText(n.c[i])])
             [] n.t = "lit" -> Chomped(n.s, Join(LineTexts(n), "\n"))
             [] n.t = "fold" -> IF n.c = <<>> THEN "" ELSE Chomped(n.s, Folded(LineTexts(n)))
             [] OTHER -> ""
IsText(n) == n.t \in Scalar

(* ------------------------------ projections ----------------------------- *)
(* comments of a node, in document order *)
RECURSIVE Comments(_)
Comments(n) == IF IsComment(n) THEN <<n.s>> ELSE Flat([i \in 1..Len(n.c) |-> Comments(n.c[i])])
(* the strings of the scalars of a node, in document order *)
RECURSIVE Texts(_)
Texts(n) == IF IsText(n) THEN <<Text(n)>> ELSE Flat([i \in 1..Len(n.c) |-> Texts(n.c[i])])
RECURSIVE Size(_)
Size(n) == 1 + Sum([i \in 1..Len(n.c) |-> Size(n.c[i])])
============================================================================
