------------------------------ MODULE Grammar -----------------------------
(* What a text denotes: the grammar of the subset as a parser with ordered    *)
(* choice, from characters to the document. Every rule takes the characters,    *)
(* a position and the columns of the blocks around it (sequences of characters,  *)
(* innermost last), and gives the position after what it matched (0: no match)     *)
(* and the value.                                                                     *)
EXTENDS Node

No == [p |-> 0, v |-> <<>>]
At1(cs, p, c) == p <= Len(cs) /\ cs[p] = c
Spaces == {" ", " ", "　"}                      \* separators (of those used in texts)
(* the position after a line break, 0 if there is none at p *)
Nl(cs, p) == IF p > Len(cs) THEN 0
             ELSE IF cs[p] = "\n" THEN p + 1
             ELSE IF cs[p] = "\r" THEN (IF At1(cs, p + 1, "\n") THEN p + 2 ELSE p + 1) ELSE 0
IsNl(cs, p) == p <= Len(cs) /\ cs[p] \in {"\n", "\r"}
RECURSIVE Sep(_, _)                             \* past separators
Sep(cs, p) == IF p <= Len(cs) /\ cs[p] \in Spaces THEN Sep(cs, p + 1) ELSE p
RECURSIVE Blank(_, _)                           \* past blank lines
Blank(cs, p) == LET q == Nl(cs, Sep(cs, p)) IN IF q = 0 THEN p ELSE Blank(cs, q)
BlankNl(cs, p) == LET q == Blank(cs, p) IN IF q = p THEN 0 ELSE q
RECURSIVE Gaps(_, _)                            \* past spaces and line breaks
Gaps(cs, p) == IF At1(cs, p, " ") THEN Gaps(cs, p + 1) ELSE IF IsNl(cs, p) THEN Gaps(cs, Nl(cs, p)) ELSE p
RECURSIVE LineEnd(_, _)
LineEnd(cs, p) == IF p > Len(cs) \/ IsNl(cs, p) THEN p ELSE LineEnd(cs, p + 1)
Piece(cs, p, e) == Concat(SubSeq(cs, p, e - 1))
Match(cs, p, s) == IF p + Len(s) - 1 <= Len(cs) /\ \A x \in 1..Len(s) : cs[p + x - 1] = s[x] THEN p + Len(s) ELSE 0
Peek(cs, p, st) == Match(cs, p, Last(st))
BreakCount(cs, p, e) == Cardinality({x \in p..(e - 1) : cs[x] = "\n"})
EmptyLines(n) == [x \in 1..n |-> ""]

(* -------------------------------- comments ------------------------------ *)
Comment(cs, p) ==
  LET q == Sep(cs, p)
      e == LineEnd(cs, q + 1)
  IN IF At1(cs, q, "#") THEN [p |-> e, v |-> <<Piece(cs, q + 1, e)>>] ELSE No
RECURSIVE CommentNls(_, _)
CommentNls(cs, p) ==
  LET c == Comment(cs, p)
      more == CommentNls(cs, Blank(cs, c.p))
  IN IF c.p = 0 THEN [p |-> p, v |-> <<>>] ELSE [p |-> more.p, v |-> c.v \o more.v]
CmsOf(c) == [x \in 1..Len(c.v) |-> Cm(c.v[x])]
OptComment(cs, p) == LET c == Comment(cs, p) IN IF c.p = 0 THEN [p |-> p, v |-> <<>>] ELSE [p |-> c.p, v |-> <<Ic(c.v[1])>>]

(* --------------------------------- names -------------------------------- *)
RECURSIVE KeyEnd(_, _)
KeyEnd(cs, p) == IF p <= Len(cs) /\ cs[p] \in KeyChars THEN KeyEnd(cs, p + 1) ELSE p
Key(cs, p) ==
  IF p > Len(cs) \/ cs[p] \notin KeyFirst THEN No
  ELSE LET e == KeyEnd(cs, p + 1) IN [p |-> e, v |-> <<TrimEndOf(Piece(cs, p, e), " ")>>]
RECURSIVE NameEnd(_, _)
NameEnd(cs, p) == IF p <= Len(cs) /\ cs[p] \in KeyFirst THEN NameEnd(cs, p + 1) ELSE p
Name(cs, p, sign) ==
  IF ~At1(cs, p, sign) THEN No
  ELSE LET e == NameEnd(cs, p + 1) IN IF e = p + 1 THEN No ELSE [p |-> e, v |-> <<Piece(cs, p + 1, e)>>]
(* an alias before a value, or none: [p, v: <<name>>] *)
OptAlias(cs, p) == LET n == Name(cs, Sep(cs, p), "&") IN IF n.p = 0 THEN [p |-> p, v |-> <<"">>] ELSE [p |-> Sep(cs, n.p), v |-> n.v]
Anchor(cs, p) == LET n == Name(cs, p, "*") IN IF n.p = 0 THEN No ELSE [p |-> n.p, v |-> <<Anch(n.v[1])>>]

(* -------------------------------- strings ------------------------------- *)
ColonSpace(cs, p) == At1(cs, p, ":") /\ At1(cs, p + 1, " ")
RECURSIVE PlainEnd(_, _, _)
PlainEnd(cs, p, stop) == IF p > Len(cs) \/ cs[p] \in stop \/ ColonSpace(cs, p) THEN p ELSE PlainEnd(cs, p + 1, stop)
PlainString(cs, p, start, stop) ==
  IF p > Len(cs) \/ cs[p] \in start \/ ColonSpace(cs, p) THEN No
  ELSE LET e == PlainEnd(cs, p + 1, stop) IN [p |-> e, v |-> <<Uq(TrimEndOf(Piece(cs, p, e), " "))>>]
LineBreaks == {"\n", "\r"}
DashEnd(cs, p) == At1(cs, p, "-") /\ (p = Len(cs) \/ cs[p + 1] \in Spaces \cup LineBreaks \cup {"#"})
BlockPlain(cs, p) == IF DashEnd(cs, p) THEN No
                     ELSE PlainString(cs, p, {"[", "]", "{", "}", "\"", "'", "#", ">", "|"} \cup LineBreaks, {"#"} \cup LineBreaks)
FlowPlain(cs, p) == PlainString(cs, p, {",", "[", "]", "{", "}", "\"", "'", "#"} \cup LineBreaks,
                                       {",", "[", "]", "{", "}", "\"", "#", ">", "|"} \cup LineBreaks)
RECURSIVE TextEnd(_, _, _)
TextEnd(cs, p, stop) == IF p > Len(cs) \/ cs[p] \in stop THEN p ELSE TextEnd(cs, p + 1, stop)
RECURSIVE BreaksEnd(_, _)
BreaksEnd(cs, p) == IF At1(cs, p, "\n") THEN BreaksEnd(cs, p + 1) ELSE p
(* the parts of a quoted string; they end where none matches *)
RECURSIVE QuoteParts(_, _, _)
QuoteParts(cs, p, q) ==
  LET be == BreaksEnd(cs, p)
      te == TextEnd(cs, p, {q, "\n"} \cup (IF q = "\"" THEN {"\\"} ELSE {}))
      part == CASE q = "\"" /\ At1(cs, p, "\\") -> IF p < Len(cs) /\ cs[p + 1] \in {"n", "\\", "r", "t", "\"", "\n"} THEN [p |-> p + 2, v |-> <<Esc(cs[p + 1])>>] ELSE No
                [] q = "'" /\ At1(cs, p, "'") -> IF At1(cs, p + 1, "'") THEN [p |-> p + 2, v |-> <<Esc("'")>>] ELSE No
                [] be > p + 1 -> [p |-> be, v |-> <<Bl(be - p - 1)>>]
                [] be = p + 1 -> [p |-> be, v |-> <<Rn>>]
                [] te > p -> [p |-> te, v |-> <<Str(Piece(cs, p, te))>>]
                [] OTHER -> No
      more == QuoteParts(cs, part.p, q)
  IN IF part.p = 0 THEN [p |-> p, v |-> <<>>] ELSE [p |-> more.p, v |-> part.v \o more.v]
Quoted(cs, p) ==
  IF p > Len(cs) \/ cs[p] \notin {"\"", "'"} THEN No
  ELSE LET parts == TLCEval(QuoteParts(cs, p + 1, cs[p]))
       IN IF ~At1(cs, parts.p, cs[p]) THEN No
          ELSE [p |-> Sep(cs, parts.p + 1), v |-> <<IF cs[p] = "'" THEN Sq(parts.v) ELSE Dq(parts.v)>>]

(* ---------------------------- flow collections -------------------------- *)
RECURSIVE FlowValue(_, _)
RECURSIVE FlowSeq(_, _)
RECURSIVE FlowMap(_, _)
RECURSIVE FlowMore(_, _, _)
First2(a, b) == IF a.p # 0 THEN a ELSE b
FlowElement(cs, p) ==
  LET k == Key(cs, p)
      c == Gaps(cs, k.p)
      v == FlowValue(cs, Gaps(cs, c + 1))
  IN IF k.p = 0 THEN No ELSE IF ~At1(cs, c, ":") THEN No ELSE IF v.p = 0 THEN No ELSE [p |-> v.p, v |-> <<El(k.v[1], "", v.v[1])>>]
FlowPart(cs, p, map) == IF map THEN FlowElement(cs, p) ELSE FlowValue(cs, p)
FlowMore(cs, p, map) ==
  LET c == Gaps(cs, p)
      one == IF At1(cs, c, ",") THEN TLCEval(FlowPart(cs, Gaps(cs, c + 1), map)) ELSE No
      more == FlowMore(cs, one.p, map)
  IN IF one.p = 0 THEN [p |-> p, v |-> <<>>] ELSE [p |-> more.p, v |-> one.v \o more.v]
FlowAll(cs, p, open, close, map) ==
  LET one == TLCEval(FlowPart(cs, Gaps(cs, p + 1), map))
      more == TLCEval(IF one.p = 0 THEN [p |-> p + 1, v |-> <<>>] ELSE FlowMore(cs, one.p, map))
      e == Gaps(cs, more.p)
  IN IF ~At1(cs, p, open) THEN No ELSE IF ~At1(cs, e, close) THEN No
     ELSE [p |-> e + 1, v |-> (IF one.p = 0 THEN <<>> ELSE one.v) \o more.v]
FlowSeq(cs, p) == LET r == FlowAll(cs, p, "[", "]", FALSE) IN IF r.p = 0 THEN No ELSE [p |-> r.p, v |-> <<Ia(r.v)>>]
FlowMap(cs, p) == LET r == FlowAll(cs, p, "{", "}", TRUE) IN IF r.p = 0 THEN No ELSE [p |-> r.p, v |-> <<Ih(r.v)>>]
OnOneLine(cs, p, string) ==
  CASE At1(cs, p, "*") /\ Anchor(cs, p).p # 0 -> Anchor(cs, p)
    [] At1(cs, p, "[") -> FlowSeq(cs, p)
    [] At1(cs, p, "{") -> FlowMap(cs, p)
    [] p <= Len(cs) /\ cs[p] \in {"\"", "'"} -> Quoted(cs, p)
    [] OTHER -> string
FlowValue(cs, p) == OnOneLine(cs, p, FlowPlain(cs, p))
InlineValue(cs, p) == OnOneLine(cs, p, BlockPlain(cs, p))

(* ----------------------------- block scalars ---------------------------- *)
RECURSIVE SpaceEnd(_, _)
SpaceEnd(cs, p) == IF At1(cs, p, " ") THEN SpaceEnd(cs, p + 1) ELSE p
RECURSIVE NlsEnd(_, _)
NlsEnd(cs, p) == IF IsNl(cs, p) THEN NlsEnd(cs, Nl(cs, p)) ELSE p
RECURSIVE TooShort(_, _, _)                     \* past blank lines that do not reach the column
TooShort(cs, p, col) ==
  LET q == Nl(cs, Sep(cs, p)) IN IF Match(cs, p, col) # 0 \/ q = 0 THEN p ELSE TooShort(cs, q, col)
RECURSIVE TrailingEnd(_, _)
TrailingEnd(cs, p) == LET q == Sep(cs, Nl(cs, p)) IN IF IsNl(cs, p) /\ IsNl(cs, q) THEN TrailingEnd(cs, q) ELSE p
(* the lines after the first: anyBlank tells how far blank lines reach *)
RECURSIVE TextLines(_, _, _, _)
TextLines(cs, p, col, indented) ==
  LET a == Nl(cs, p)
      b == IF indented THEN NlsEnd(cs, a) ELSE TooShort(cs, a, col)
      m == Match(cs, b, col)
      e == LineEnd(cs, m)
      more == TextLines(cs, e, col, indented)
      t == TrailingEnd(cs, p)
      none == [p |-> t, v |-> EmptyLines(BreakCount(cs, p, t))]
  IN IF a = 0 THEN none ELSE IF m = 0 THEN none
     ELSE [p |-> more.p, v |-> EmptyLines(BreakCount(cs, a, b)) \o <<Piece(cs, m, e)>> \o more.v]
Content(cs, p, st) ==
  LET a == Nl(cs, Sep(cs, p))
      b == Blank(cs, a)
      m == Peek(cs, b, st)
      s == SpaceEnd(cs, b)
      col == SubSeq(cs, b, s - 1)
      e == LineEnd(cs, s)
      more == TLCEval(TextLines(cs, e, col, FALSE))
  IN IF a = 0 THEN No ELSE IF m = 0 THEN No ELSE IF ~At1(cs, m, " ") THEN No
     ELSE IF s = b THEN No
     ELSE [p |-> more.p, v |-> EmptyLines(BreakCount(cs, a, b)) \o <<Piece(cs, s, e)>> \o more.v]
IndentedContent(cs, p, st) ==
  LET a == Nl(cs, Sep(cs, p))
      b == NlsEnd(cs, a)
      m == Peek(cs, b, st)
      e == LineEnd(cs, m + 1)
      more == TLCEval(TextLines(cs, e, Last(st) \o <<" ">>, TRUE))
  IN IF a = 0 THEN No ELSE IF m = 0 THEN No ELSE IF ~At1(cs, m, " ") THEN No
     ELSE [p |-> more.p, v |-> EmptyLines(BreakCount(cs, a, b)) \o <<Piece(cs, m + 1, e)>> \o more.v]
RECURSIVE DigitsEnd(_, _)
DigitsEnd(cs, p) == IF p <= Len(cs) /\ cs[p] \in Digit THEN DigitsEnd(cs, p + 1) ELSE p
RECURSIVE Num(_, _)
Num(s, acc) == IF s = "" THEN acc ELSE Num(From(s, 2), IF acc > 1000000 THEN acc ELSE 10 * acc + DigitVal(FirstCh(s)))
RECURSIVE WithoutSpaces(_, _)
WithoutSpaces(s, n) == IF n > 0 /\ FirstCh(s) = " " THEN WithoutSpaces(From(s, 2), n - 1) ELSE s
BadIndent == "a number that is too large"
MaxIndent == "18446744073709551615"
IsTooLarge(t) == Len(t) > Len(MaxIndent) \/ (Len(t) = Len(MaxIndent) /\ StrLess(MaxIndent, t))
BlockText(cs, p, st) ==
  LET tag == IF At1(cs, p, "|") THEN "lit" ELSE "fold"
      q == IF p < Len(cs) /\ cs[p + 1] \in {"-", "+"} THEN p + 2 ELSE p + 1
      chomp == IF q = p + 1 THEN "clip" ELSE IF cs[p + 1] = "-" THEN "strip" ELSE "keep"
      d == IF q <= Len(cs) /\ cs[q] \in Digit \ {"0"} THEN DigitsEnd(cs, q) ELSE q
      r == TLCEval(IF d > q THEN IndentedContent(cs, d, st) ELSE Content(cs, q, st))
      digits == Piece(cs, q, d)
      cut == IF d > q THEN Num(digits, 0) - 1 ELSE 0
  IN IF p > Len(cs) \/ cs[p] \notin {"|", ">"} THEN No ELSE IF r.p = 0 THEN No
     ELSE [p |-> r.p, v |-> <<IF d > q /\ IsTooLarge(digits) THEN Nd("bad", BadIndent, <<>>)
                              ELSE Nd(tag, chomp, [x \in 1..Len(r.v) |-> Ln(WithoutSpaces(r.v[x], cut))])>>]

(* --------------------------- block collections -------------------------- *)
RECURSIVE HashElement(_, _, _)
RECURSIVE ArrayElement(_, _, _)
RECURSIVE NestedValue(_, _, _)
RECURSIVE Hash(_, _, _)
RECURSIVE BlockArray(_, _, _)
RECURSIVE HashMore(_, _, _)
RECURSIVE ArrayMore(_, _, _, _)
Commented(cs, r) == IF r.p = 0 THEN No ELSE LET c == TLCEval(OptComment(cs, r.p)) IN [p |-> c.p, v |-> r.v \o c.v]
FirstHash(cs, p, st) == Commented(cs, HashElement(cs, p, st))
FirstArray(cs, p, st) == Commented(cs, ArrayElement(cs, p, st))
(* entries on their own lines, at the innermost column *)
HashMore(cs, p, st) ==
  LET a == BlankNl(cs, p)
      c == TLCEval(CommentNls(cs, a))
      q == Peek(cs, c.p, st)
      one == TLCEval(FirstHash(cs, q, st))
      more == TLCEval(HashMore(cs, one.p, st))
      none == [p |-> p, v |-> <<>>]
  IN IF a = 0 THEN none ELSE IF q = 0 THEN none ELSE IF one.p = 0 THEN none
     ELSE [p |-> more.p, v |-> CmsOf(c) \o one.v \o more.v]
ArrayMore(cs, p, st, needed) ==                 \* needed: at least one line break before the next
  LET a == IF needed THEN BlankNl(cs, p) ELSE Blank(cs, p)
      c == TLCEval(CommentNls(cs, a))
      q == Peek(cs, c.p, st)
      one == TLCEval(FirstArray(cs, q, st))
      more == TLCEval(ArrayMore(cs, one.p, st, needed))
      none == [p |-> p, v |-> <<>>]
  IN IF a = 0 THEN none ELSE IF q = 0 THEN none ELSE IF one.p = 0 THEN none
     ELSE [p |-> more.p, v |-> CmsOf(c) \o one.v \o more.v]
(* the entries after the first, which stands on the line of its key or dash: on     *)
(* their own lines at a deeper column; nothing if there are none                       *)
Continuation(cs, p, st, map) ==
  LET a == BlankNl(cs, p)
      c == TLCEval(CommentNls(cs, a))
      m == Peek(cs, c.p, st)
      s == Sep(cs, c.p)
      in == Append(st, SubSeq(cs, c.p, s - 1))
      one == TLCEval(IF map THEN FirstHash(cs, s, in) ELSE FirstArray(cs, s, in))
      more == TLCEval(IF map THEN HashMore(cs, one.p, in) ELSE ArrayMore(cs, Sep(cs, one.p), in, TRUE))
  IN IF a = 0 THEN No ELSE IF m = 0 THEN No ELSE IF Sep(cs, m) = m THEN No ELSE IF one.p = 0 THEN No
     ELSE [p |-> more.p, v |-> CmsOf(c) \o one.v \o more.v]
OptContinuation(cs, p, st, map) == LET r == TLCEval(Continuation(cs, p, st, map)) IN IF r.p = 0 THEN [p |-> p, v |-> <<>>] ELSE r
Trailed(cs, p, content, mk(_)) == LET c == TLCEval(CommentNls(cs, p)) IN [p |-> c.p, v |-> <<mk(content \o CmsOf(c))>>]
AltHash(cs, p, st) ==
  LET one == TLCEval(FirstHash(cs, p, st))
      more == TLCEval(OptContinuation(cs, one.p, st, TRUE))
  IN IF one.p = 0 THEN No ELSE Trailed(cs, more.p, one.v \o more.v, Bh)
AltArray(cs, p, st) ==
  LET one == TLCEval(FirstArray(cs, p, st))
      more == TLCEval(Continuation(cs, one.p, st, FALSE))
  IN IF one.p = 0 THEN No ELSE IF more.p = 0 THEN No ELSE Trailed(cs, more.p, one.v \o more.v, Ba)
NestedArray(cs, p, st) ==
  LET one == TLCEval(FirstArray(cs, p, st))
      more == TLCEval(OptContinuation(cs, one.p, st, FALSE))
  IN IF one.p = 0 THEN No ELSE Trailed(cs, more.p, one.v \o more.v, Ba)
BlockColl(cs, p, st, map) ==
  LET a == IF IsNl(cs, p) THEN Nl(cs, p) ELSE p
      c == TLCEval(CommentNls(cs, a))
      b == Blank(cs, c.p)
      s == Sep(cs, b)
      in == Append(st, SubSeq(cs, b, s - 1))
      one == TLCEval(IF map THEN FirstHash(cs, s, in) ELSE FirstArray(cs, s, in))
      more == TLCEval(IF map THEN HashMore(cs, one.p, in) ELSE ArrayMore(cs, Sep(cs, one.p), in, FALSE))
      content == CmsOf(c) \o one.v \o more.v
  IN IF one.p = 0 THEN No ELSE IF map THEN Trailed(cs, more.p, content, Bh) ELSE Trailed(cs, more.p, content, Ba)
Hash(cs, p, st) == BlockColl(cs, p, st, TRUE)
BlockArray(cs, p, st) == BlockColl(cs, p, st, FALSE)
YamlValue(cs, p, st) ==
  LET h == TLCEval(Hash(cs, p, st))
      f == TLCEval(IF At1(cs, p, "[") THEN FlowSeq(cs, p) ELSE No)
      a == TLCEval(BlockArray(cs, p, st))
      q == Sep(cs, p)
  IN IF h.p # 0 THEN h ELSE IF f.p # 0 THEN f ELSE IF a.p # 0 THEN a
     ELSE IF q <= Len(cs) /\ cs[q] \in {"|", ">"} /\ BlockText(cs, q, st).p # 0 THEN BlockText(cs, q, st)
     ELSE InlineValue(cs, q)
AltValue(cs, p, st) == LET h == TLCEval(AltHash(cs, p, st)) IN IF h.p # 0 THEN h ELSE AltArray(cs, p, st)
(* the value of an entry: [p, v: <<alias, value>>] *)
NestedValue(cs, p, st) ==
  LET al == TLCEval(OptAlias(cs, p))
      alt == TLCEval(AltValue(cs, al.p, st))
      own == TLCEval(YamlValue(cs, al.p, st))
  IN IF alt.p # 0 THEN [p |-> alt.p, v |-> <<al.v[1], alt.v[1]>>]
     ELSE IF own.p # 0 THEN [p |-> own.p, v |-> <<al.v[1], own.v[1]>>] ELSE No
HashElement(cs, p, st) ==
  LET k == TLCEval(Key(cs, p))
      s == Sep(cs, k.p + 1)
      q == IF s > k.p + 1 THEN s ELSE BlankNl(cs, k.p + 1)
      v == TLCEval(NestedValue(cs, q, st))
  IN IF k.p = 0 THEN No ELSE IF ~At1(cs, k.p, ":") THEN No ELSE IF q = 0 THEN No ELSE IF v.p = 0 THEN No
     ELSE [p |-> v.p, v |-> <<El(k.v[1], v.v[1], v.v[2])>>]
ArrayElement(cs, p, st) ==
  LET s == Sep(cs, p + 1)
      b == BlankNl(cs, p + 1)
      m == IF b = 0 THEN 0 ELSE Peek(cs, CommentNls(cs, b).p, st)
      q == IF s > p + 1 THEN s ELSE IF m # 0 /\ m <= Len(cs) /\ cs[m] \in Spaces THEN p + 1 ELSE 0
      n == TLCEval(NestedArray(cs, q, st))
      v == TLCEval(NestedValue(cs, q, st))
  IN IF ~At1(cs, p, "-") THEN No ELSE IF q = 0 THEN No
     ELSE IF n.p # 0 THEN [p |-> n.p, v |-> <<El("", "", n.v[1])>>]
     ELSE IF v.p # 0 THEN [p |-> v.p, v |-> <<El("", v.v[1], v.v[2])>>] ELSE No

(* -------------------------------- documents ----------------------------- *)
RECURSIVE Leading(_, _)
Leading(cs, p) ==
  LET c == TLCEval(Comment(cs, Blank(cs, p)))
      more == Leading(cs, Blank(cs, c.p))
  IN IF c.p = 0 THEN [p |-> p, v |-> <<>>] ELSE [p |-> more.p, v |-> c.v \o more.v]
RootValueAt(cs, p) ==
  LET h == TLCEval(Hash(cs, p, <<>>))
      f == TLCEval(FlowSeq(cs, p))
      a == TLCEval(BlockArray(cs, p, <<>>))
  IN IF h.p # 0 THEN h ELSE IF f.p # 0 THEN f ELSE IF a.p # 0 THEN a ELSE FlowMap(cs, p)
RECURSIVE HasBad(_)
HasBad(n) == n.t = "bad" \/ \E x \in 1..Len(n.c) : HasBad(n.c[x])
NoDoc == [ok |-> FALSE, doc |-> Doc(<<>>)]
DocumentOf(text) ==
  LET cs == TLCEval(Chars(text))
      l == TLCEval(Leading(cs, 1))
      m == Match(cs, l.p, <<"-", "-", "-">>)
      b == BlankNl(cs, m)
      c == TLCEval(CommentNls(cs, b))
      r == TLCEval(RootValueAt(cs, c.p))
      t == TLCEval(CommentNls(cs, Blank(cs, r.p)))
      doc == Doc([x \in 1..Len(l.v) |-> Lc(l.v[x])] \o CmsOf(c) \o r.v \o CmsOf(t))
  IN IF m = 0 THEN NoDoc ELSE IF b = 0 THEN NoDoc ELSE IF r.p = 0 THEN NoDoc
     ELSE IF Gaps(cs, t.p) # Len(cs) + 1 THEN NoDoc ELSE IF HasBad(doc) THEN NoDoc ELSE [ok |-> TRUE, doc |-> doc]
============================================================================
