------------------------------ MODULE GenEdit -----------------------------
(* Histories: a document and operations on it, one after another. The paths    *)
(* follow the document as it is at that moment, for the most part.              *)
(* PLAN: the operation that is drawn most often, or "history" for all of them    *)
(* on a document that was read from a text.                                        *)
EXTENDS Driver, Gen, Layout, Session

VARIABLES i, steps, start

(* ------------------------------- documents ------------------------------ *)
G == [GEdit EXCEPT !.com = 20, !.al = 20]
SelText == <<"one", "two", "x", "a b", "", "one", "two", "k", "ten", "B", "été", "_", "One", "on", "ones">>
SelOdd == <<"x.y", "a|b", "a=b", "[0]", "*", " ", "q: r", "-">>
SelectorValue(h) ==
  CASE W(Sub(h, 1), <<6, 3, 3, 2, 1, 1, 1>>) = 1 -> LET s == Pick(Sub(h, 2), SelText) IN IF s = "" THEN Dq(<<>>) ELSE Uq(s)
    [] W(Sub(h, 1), <<6, 3, 3, 2, 1, 1, 1>>) = 2 -> LET s == Pick(Sub(h, 2), SelText) IN IF s = "" THEN Sq(<<>>) ELSE Sq(<<Str(s)>>)
    [] W(Sub(h, 1), <<6, 3, 3, 2, 1, 1, 1>>) = 3 -> Dq(<<Str(Pick(Sub(h, 2), SelOdd))>>)
    [] W(Sub(h, 1), <<6, 3, 3, 2, 1, 1, 1>>) = 4 -> Lit("strip", <<Ln(Pick(Sub(h, 2), <<"one", "two">>))>>)
    [] W(Sub(h, 1), <<6, 3, 3, 2, 1, 1, 1>>) = 5 -> Anch("x")
    [] W(Sub(h, 1), <<6, 3, 3, 2, 1, 1, 1>>) = 6 -> Fold("clip", <<Ln("one")>>)
    [] OTHER -> Bh(<<El("a", "", Uq("v"))>>)
(* an item of a mapping that can be regrouped by the field "type" *)
GroupItem(h) ==
  LET before == IF Odds(Sub(h, 1), 1, 2) THEN <<Entry(Sub(h, 2), 0, G, Pick(Sub(h, 3), <<"a", "b", "c">>))>> ELSE <<>>
      after == IF Odds(Sub(h, 4), 1, 2) THEN <<Entry(Sub(h, 5), 1, G, Pick(Sub(h, 6), <<"k", "x y", "type">>))>> ELSE <<>>
      sv == SelectorValue(Sub(h, 7))
      own == <<El("type", IF Odds(Sub(h, 8), 1, 9) THEN "x" ELSE "", sv)>>
             \o (IF EndOfLine(sv) THEN Maybe(Sub(h, 9), 25, Ic(" sel")) ELSE <<>>)
      sel == IF Odds(Sub(h, 10), 5, 6) THEN <<own>> ELSE <<>>
  IN CASE N(Sub(h, 11), 12) = 0 -> Value(Sub(h, 12), 1, G, FALSE)
       [] OTHER -> LET c == Flat(before \o sel \o after) IN IF c = <<>> THEN Bh(<<El("a", "", Uq("1"))>>) ELSE Bh(c)
ItemEntry(h, key) ==
  LET v == GroupItem(Sub(h, 1))
  IN Flat(<<Maybe(Sub(h, 2), 25, Cm(" c1")), Maybe(Sub(h, 3), 10, Cm(" c2")),
            <<El(key, IF Odds(Sub(h, 4), 1, 9) THEN "y" ELSE "", v)>>,
            IF EndOfLine(v) THEN Maybe(Sub(h, 5), 40, Ic(" i")) ELSE <<>>>>)
GroupItems(h) ==
  LET n == IF Odds(Sub(h, 4), 1, 25) THEN 18 + N(Sub(h, 1), 12) ELSE 1 + N(Sub(h, 1), 5)
      tail == IF Odds(Sub(h, 2), 1, 3) THEN <<Cm(" end")>> \o Maybe(Sub(h, 3), 30, Cm(" end2")) ELSE <<>>
  IN Bh(Flat([j \in 1..n |-> ItemEntry(Sub(h, 10 + j), "k" \o ToString(j))]) \o tail)
(* a mapping with the mapping "m" of items in it *)
Grouped(h) ==
  LET extra(k) == IF Odds(Sub(h, k), 1, 2) THEN Entry(Sub(h, k + 1), 1, G, Pick(Sub(h, k + 2), <<"a", "b", "new">>)) ELSE <<>>
      m == <<El("m", IF Odds(Sub(h, 1), 1, 6) THEN "z" ELSE "", GroupItems(Sub(h, 2)))>>
  IN Bh(DropLeading(extra(10)) \o m \o extra(20))
Wrapped(h, v) ==
  CASE W(Sub(h, 1), <<4, 2, 2, 1>>) = 1 -> v
    [] W(Sub(h, 1), <<4, 2, 2, 1>>) = 2 -> Bh(<<El("a", "", v), El("b", "", Uq("v"))>>)
    [] W(Sub(h, 1), <<4, 2, 2, 1>>) = 3 -> Ba(<<El("", "", v), El("", "", Grouped(Sub(h, 2))), El("", "", Uq("w"))>>)
    [] OTHER -> Bh(<<El("k", "", Ba(<<Cm(" c"), El("", "", Grouped(Sub(h, 2))), El("", "x", v)>>))>>)
(* sequences of mappings with the same fields, for wildcards and conditions *)
RECURSIVE Row(_, _)
Row(h, d) ==
  LET f(k, key) == IF Odds(Sub(h, k), 3, 4) THEN <<El(key, IF Odds(Sub(h, k + 1), 1, 9) THEN "x" ELSE "", SelectorValue(Sub(h, k + 2)))>> \o Maybe(Sub(h, k + 3), 12, Ic(" f")) ELSE <<>>
      plain(c) == SelectSeq([x \in 1..Len(c) |-> [e |-> c[x], ok |-> c[x].t # "ic" \/ EndOfLine(Val(c[x - 1]))]], LAMBDA y : y.ok)
      own == plain(f(10, "type") \o f(20, "a"))
      n == 1 + N(Sub(h, 1), 3)
      rows == IF d > 0 /\ Odds(Sub(h, 2), 2, 3) THEN <<El("k", "", Ba([j \in 1..n |-> El("", "", Row(Sub(h, 30 + j), d - 1))]))>> ELSE <<>>
      deep == IF d > 0 /\ Odds(Sub(h, 3), 1, 3) THEN <<El("m", "", GroupItems(Sub(h, 4)))>> ELSE <<>>
      all == [x \in 1..Len(own) |-> own[x].e] \o rows \o deep
  IN IF all = <<>> THEN Bh(<<El("b", "", Uq("v"))>>) ELSE Bh(all)
Rows(h) ==
  LET wide == Odds(Sub(h, 3), 1, 20)
      n == IF wide THEN 9 + N(Sub(h, 1), 8) ELSE 2 + N(Sub(h, 1), 3)
      row(j) == Maybe(Sub(h, 40 + j), 15, Cm(" r")) \o <<El("", IF Odds(Sub(h, 50 + j), 1, 9) THEN "y" ELSE "", Row(Sub(h, 60 + j), IF wide THEN 0 ELSE 2))>>
      rows == Ba(DropLeading(Flat([j \in 1..n |-> row(j)])))
  IN IF Odds(Sub(h, 2), 1, 3) THEN rows ELSE Bh(<<El("k", "", rows), El("b", "", Uq("v"))>>)
(* trees that a text cannot denote, but that can be put together *)
Odd(h) ==
  CASE W(Sub(h, 1), <<1, 1, 1, 1, 1>>) = 1 -> Bh(<<>>)
    [] W(Sub(h, 1), <<1, 1, 1, 1, 1>>) = 2 -> Bh(<<El("a", "", Ia(<<Bh(<<El("a", "", Uq("v"))>>), Ba(<<El("", "", Bh(<<El("b", "", Uq("w"))>>))>>)>>))>>)
    [] W(Sub(h, 1), <<1, 1, 1, 1, 1>>) = 3 -> Bh(<<Cm(" only")>>)
    [] W(Sub(h, 1), <<1, 1, 1, 1, 1>>) = 4 -> Bh(<<Ic(" i"), El("a.b", "", Uq("v")), El("a", "", Bh(<<>>)), Ic(" i2"), Ic(" i3"), El("a", "", Uq("twice"))>>)
    [] OTHER -> Ba(<<Cm(" c"), El("", "", Bh(<<El("a", "", Ba(<<>>)), El("[0]", "x", Uq("v"))>>))>>)
Start0(h) ==
  CASE N(Sub(h, 8), 30) = 0 -> DeepDoc(Sub(h, 2))
    [] N(Sub(h, 9), 5) < 2 -> LET r == Rows(Sub(h, 2)) IN IF Plan = "history" \/ Odds(Sub(h, 4), 1, 2) THEN Doc(<<r>>) ELSE r
    [] Plan = "history" -> IF Odds(Sub(h, 1), 1, 3) THEN Doc(<<Wrapped(Sub(h, 2), Grouped(Sub(h, 3)))>>) ELSE Document(Sub(h, 2), 4, G)
    [] N(Sub(h, 1), 8) = 0 -> Odd(Sub(h, 2))
    [] Plan = "mvmap" \/ N(Sub(h, 1), 8) = 1 ->
         LET v == Wrapped(Sub(h, 2), Grouped(Sub(h, 3))) IN IF Odds(Sub(h, 4), 1, 2) THEN Doc(<<Cm(" top"), v, Cm(" end")>>) ELSE v
    [] OTHER -> IF Odds(Sub(h, 3), 3, 4) THEN Document(Sub(h, 2), 4, G) ELSE RootValue(Sub(h, 2), 4, G)

Start(h) == IF Plan # "history" /\ Odds(Sub(h, 7), 1, 5) THEN Inlined(Sub(h, 6), TLCEval(Start0(h))) ELSE Start0(h)

(* --------------------------------- paths -------------------------------- *)
Value0(n) == IF n.t = "doc" THEN Root(n) ELSE n
KeysOf(n) == IF n.t = "bh" THEN LET es == Elements(n) IN [j \in 1..Len(es) |-> es[j].k] ELSE <<>>
TextFields(n) == IF n.t = "bh" THEN SelectSeq(Elements(n), LAMBDA e : IsText(Val(e))) ELSE <<>>
(* conditions on the mapping n *)
Conds(h, n, pct) ==
  IF N(Sub(h, 1), 100) >= pct THEN <<>>
  ELSE LET fs == TextFields(n)
           e == Pick(Sub(h, 2), fs)
           one == IF fs = <<>> \/ Odds(Sub(h, 3), 1, 6) THEN Cond(Pick(Sub(h, 4), KeysFew), Pick(Sub(h, 5), <<"v", "w", "one", "1">>))
                  ELSE Cond(IF Odds(Sub(h, 9), 1, 12) THEN Near(Sub(h, 10), e.k) ELSE e.k, IF Odds(Sub(h, 6), 5, 6) THEN Text(Val(e)) ELSE Near(Sub(h, 6), Text(Val(e))))
           two == IF Odds(Sub(h, 7), 1, 4) THEN (IF fs = <<>> THEN <<Cond("a", "v")>>
                                                  ELSE LET f == Pick(Sub(h, 8), fs) IN <<Cond(f.k, Text(Val(f)))>>) ELSE <<>>
       IN <<one>> \o two
Numeral(k) == ToString(k)
IndexSeg(h, n) ==
  LET es == IF n.t \in {"ia", "ba"} THEN ElementsAt(n) ELSE <<>>
      k == IF es = <<>> \/ Odds(Sub(h, 1), 1, 8) THEN Pick(Sub(h, 2), <<0, 1, 7, 300>>) ELSE N(Sub(h, 2), Len(es))
      v == IF k < Len(es) THEN ChildVal(n, es[k + 1]) ELSE Uq("")
      (* now and then an index that is the same in the last bits *)
      far == IF Odds(Sub(h, 8), 1, 25) THEN Pick(Sub(h, 9), <<ToString(256 + k), ToString(65536 + k), IF k < 4 THEN "429496729" \o ToString(6 + k) ELSE "2147483648">>) ELSE Numeral(k)
      more == IF Odds(Sub(h, 6), 1, 10) THEN <<Numeral(N(Sub(h, 7), 3))>> ELSE <<>>
  IN IF Odds(Sub(h, 3), 1, 2)
     THEN AllSeg(Conds(Sub(h, 4), IF es = <<>> THEN Uq("") ELSE ChildVal(n, es[1 + N(Sub(h, 5), Len(es))]), 30))
     ELSE Seg("idx", "", <<far>> \o more, Conds(Sub(h, 4), v, 15))
(* the node to go on with after a part *)
Below1(n, seg, h) ==
  CASE seg.t = "key" -> LET j == KeyAt(n, seg.k) IN IF j = 0 THEN Uq("") ELSE Val(n.c[j])
    [] OTHER -> LET vs == Visits(n, seg) IN IF vs = <<>> THEN Uq("") ELSE ChildVal(n, vs[1 + N(h, Len(vs))])
RECURSIVE PathFrom(_, _, _, _)
(* stop: percent of paths that end at each part; fresh: percent of keys that are new *)
PathFrom(h, n, stop, fresh) ==
  LET block == n.t \in {"ia", "ba"}
      index == IF block THEN Odds(Sub(h, 1), 14, 15) ELSE IF n.t = "bh" THEN Odds(Sub(h, 1), 1, 20) ELSE Odds(Sub(h, 1), 1, 3)
      ks == KeysOf(n)
      key == IF ks = <<>> \/ N(Sub(h, 2), 100) < fresh THEN (IF ks # <<>> /\ Odds(Sub(h, 9), 1, 4) THEN Near(Sub(h, 10), Pick(Sub(h, 3), ks)) ELSE Pick(Sub(h, 3), KeysFew \o <<"a.b", "m", "k1", "[0]", "new">>)) ELSE Pick(Sub(h, 3), ks)
      seg == TLCEval(IF index THEN IndexSeg(Sub(h, 4), n) ELSE KeySeg(key, Conds(Sub(h, 5), n, 20)))
      next == Below1(n, seg, Sub(h, 6))
      go == IF next.t \in Collection THEN N(Sub(h, 7), 100) >= stop ELSE Odds(Sub(h, 7), 1, 12)
  IN <<seg>> \o (IF go THEN PathFrom(Sub(h, 8), next, stop, fresh) ELSE <<>>)
(* does the path end at a mapping, for the operations that work on one? *)
APath(h, n, stop, fresh, rootish) ==
  IF N(Sub(h, 1), 100) < rootish THEN RootPath(Conds(Sub(h, 2), n, 25)) ELSE PathFrom(Sub(h, 3), n, IF Odds(Sub(h, 4), 1, 7) THEN 5 ELSE stop, fresh)
RECURSIVE MappingPath(_, _, _)
(* a path to a mapping somewhere below n that meets Want, if the walk finds one *)
MappingPath(h, n, name) ==
  IF n.t = "bh" /\ (KeyAt(n, name) # 0 \/ Odds(Sub(h, 1), 1, 12)) THEN <<>>
  ELSE IF n.t = "bh" /\ KeysOf(n) # <<>>
  THEN LET k == Pick(Sub(h, 2), KeysOf(n)) IN <<KeySeg(k, Conds(Sub(h, 3), n, 10))>> \o MappingPath(Sub(h, 4), Val(n.c[KeyAt(n, k)]), name)
  ELSE IF n.t \in {"ba", "ia"} /\ ElementsAt(n) # <<>>
  THEN LET es == ElementsAt(n)
           j == 1 + N(Sub(h, 5), Len(es))
           seg == IF Odds(Sub(h, 6), 1, 2) THEN AllSeg(<<>>) ELSE IdxSeg(Numeral(j - 1), <<>>)
       IN <<seg>> \o MappingPath(Sub(h, 7), ChildVal(n, es[j]), name)
  ELSE <<>>
NonEmpty(p) == IF p = <<>> THEN RootPath(<<>>) ELSE p

(* ------------------------------- operations ----------------------------- *)
Focus == <<"find", "insert", "insertcall", "remove", "rename", "toobj", "mvsub", "mvmap">>
Kind(h) == IF Plan \in Range(Focus) /\ Odds(Sub(h, 1), 2, 3) THEN Plan
           ELSE IF Plan = "mvsub" \/ Plan = "mvmap" THEN Pick(Sub(h, 2), <<"insert", "remove", "rename", "toobj", "mvsub", "mvmap">>)
           ELSE Pick(Sub(h, 2), Focus)
NewName == <<"a", "b", "new", "k", "x y", "sub", "a-b", "9", "été", "_x-1", "null", "n 1-2", "x-", "kk  k">>
OddName == <<"a.b", "[0]", "x|y=z", "*">>
AName(h) == IF Plan # "history" /\ Odds(Sub(h, 1), 1, 8) THEN Pick(Sub(h, 2), OddName) ELSE Pick(Sub(h, 2), NewName)
AtMapping(n, p) ==          \* the first mapping the path denotes, to draw names from
  LET f == Apply(FindOp(p), n).out IN IF f = <<>> THEN Uq("") ELSE f[1]
MoveSubDraw(h, n) ==
  LET p == TLCEval(NonEmpty(IF Odds(Sub(h, 1), 1, 2) THEN MappingPath(Sub(h, 2), n, Pick(Sub(h, 3), KeysFew)) ELSE APath(Sub(h, 2), n, 30, 5, 25)))
      m == TLCEval(AtMapping(n, p))
      ks == TLCEval(KeysOf(m))
      pool == IF ks = <<>> THEN KeysFew ELSE ks \o <<IF Odds(Sub(h, 9), 1, 2) THEN Pick(Sub(h, 4), KeysFew) ELSE Near(Sub(h, 10), Pick(Sub(h, 4), ks))>>
      maps == SelectSeq(pool, LAMBDA k : KeyAt(m, k) # 0 /\ Val(m.c[KeyAt(m, k)]).t = "bh")
      name == IF maps # <<>> /\ Odds(Sub(h, 5), 1, 2) THEN Pick(Sub(h, 6), maps)
              ELSE IF Odds(Sub(h, 5), 1, 4) THEN Pick(Sub(h, 6), pool) ELSE AName(Sub(h, 6))
  IN MoveSubOp(p, name, Draw(Sub(h, 7), pool, 1 + N(Sub(h, 8), 4)))
MoveMapDraw(h, n) ==
  LET p == TLCEval(NonEmpty(MappingPath(Sub(h, 2), n, "m")))
      m == TLCEval(AtMapping(n, p))
      maps == SelectSeq(KeysOf(m), LAMBDA k : Val(m.c[KeyAt(m, k)]).t = "bh")
      name == IF KeyAt(m, "m") # 0 /\ Odds(Sub(h, 3), 9, 10) THEN "m" ELSE IF maps = <<>> THEN "m" ELSE Pick(Sub(h, 4), maps)
      sel == IF Odds(Sub(h, 5), 7, 8) THEN "type" ELSE Pick(Sub(h, 6), KeysFew)
      keeps == Draw(Sub(h, 7), SelText, Pick(Sub(h, 8), <<0, 0, 1, 1, 2>>))
  IN MoveMapOp(p, name, sel, IF Odds(Sub(h, 9), 1, 8) THEN Pick(Sub(h, 10), <<"a", "m", "k">>) ELSE AName(Sub(h, 10)), keeps)
InsertVal(h) == Value(h, 2, G, FALSE)
Drawn(h, d) ==
  LET n == Value0(d)
      k == Kind(Sub(h, 1))
  IN CASE k = "find" -> FindOp(APath(Sub(h, 2), n, 35, 8, 6))
       [] k = "insert" -> InsertOp(APath(Sub(h, 2), n, 35, 50, 2), InsertVal(Sub(h, 3)), IF Odds(Sub(h, 4), 1, 5) THEN "al" ELSE "", Odds(Sub(h, 5), 1, 2))
       [] k = "insertcall" -> InsertCallOp(APath(Sub(h, 2), n, 35, 50, 2), InsertVal(Sub(h, 3)), IF Odds(Sub(h, 4), 1, 5) THEN "al" ELSE "", Odds(Sub(h, 5), 1, 2))
       [] k = "remove" -> RemoveOp(APath(Sub(h, 2), n, 40, 10, 2))
       [] k = "rename" -> RenameOp(APath(Sub(h, 2), n, 40, 6, 3), AName(Sub(h, 3)))
       [] k = "toobj" -> ToObjectOp(APath(Sub(h, 2), n, 40, 6, 3), AName(Sub(h, 3)))
       [] k = "mvsub" -> MoveSubDraw(Sub(h, 2), n)
       [] OTHER -> MoveMapDraw(Sub(h, 2), n)
(* the path is given as a text where a text can spell it *)
Given(h, op) ==
  LET text == PathText(op.path)
      spelled == PathOf(text) = [ok |-> TRUE, path |-> op.path]
  IN IF spelled /\ Odds(h, 1, 2) THEN [op EXCEPT !.via = "text", !.pt = text] ELSE op
Long(h) == IF Plan = "history" THEN 1 + N(h, 6) ELSE 1 + N(h, 3)

(* ------------------------------- the machine ---------------------------- *)
HistoryCase(n) ==
  LET h == CaseSeed(n)
  IN IF Plan = "history"
     THEN [f |-> "edit", no |-> n, src |-> "text", doc |-> start, lines |-> DocT(start, Sub(h, 5)), steps |-> steps, rt |-> TRUE]
     ELSE [f |-> "edit", no |-> n, src |-> "tree", doc |-> start, lines |-> <<>>, steps |-> steps, rt |-> FALSE]
Begin(n) == \E d \in {Plain1(Start(Sub(CaseSeed(n), 1)))} : start' = d /\ doc' = d /\ steps' = <<>> /\ i' = n /\ last' = Blank /\ ret' = 0 /\ out' = <<>>
Init == \E d \in {Plain1(Start(Sub(CaseSeed(Shard), 1)))} : start = d /\ Open(d) /\ steps = <<>> /\ i = Shard
Operate ==
  LET h == CaseSeed(i)
  IN /\ Len(steps) < Long(Sub(h, 3))
     /\ \E op \in {Given(Sub(h, 60 + Len(steps)), Drawn(Sub(h, 20 + Len(steps)), doc))} : steps' = Append(steps, op) /\ Perform(op)
     /\ UNCHANGED <<i, start>>
Finish == Len(steps) = Long(Sub(CaseSeed(i), 3)) /\ Emit(HistoryCase(i)) /\ i + Shards < Total /\ Begin(i + Shards)
Done == Len(steps) = Long(Sub(CaseSeed(i), 3)) /\ i + Shards >= Total /\ Emit(HistoryCase(i)) /\ i' = Total /\ UNCHANGED <<svars, steps, start>>
Next == i < Total /\ (Operate \/ (i + Shards < Total /\ Finish) \/ Done)
Spec == Init /\ [][Next]_<<svars, i, steps, start>>
Laws == [][steps' # steps /\ steps' # <<>> => StepLaws]_<<svars, i, steps, start>>
============================================================================
