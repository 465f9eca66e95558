----------------------------- MODULE GenNames -----------------------------
(* Names: every character, and pairs of characters, in every place of a name   *)
(* that an operation is given (a key of its path, the field or value of a         *)
(* condition, a field to make or to move, a selector, a group), on documents        *)
(* where that name and names that are almost the same stand next to each other.       *)
(* One step each; PLAN: the operation.                                                  *)
EXTENDS Chars, Gen, Session

VARIABLES i, open

NamePlaces == <<"@", "a@", "@a", "a@b">>
U(key, s) == El(key, "", Uq(s))
(* the name x among others *)
Others(x) == <<U("a", "1"), Cm(" c"), U(x \o " ", "2"), U("ab", "3"), Ic(" i"), U(" " \o x, "4"), U(x \o "a", "5"), U("aa", "6"), U("b", "7"), U(Near(<<7, 7>>, x), "8"), U("", "9")>>
Without(c, x) == SelectSeq(c, LAMBDA e : ~IsEl(e) \/ e.k # x)
Absent(x) == Bh(Without(Others(x), x))
Present(x) == LET o == Without(Others(x), x) IN Bh(SubSeq(o, 1, 4) \o <<El(x, "al", Bh(<<U("a", "v"), U(x, "w"), U(x \o "a", "u")>>)), Ic(" x")>> \o From(o, 5) \o <<U(x, "again")>>)
(* the name as the value of a field *)
Row(x, v) == El("", "", Bh(<<El("f", "", v), U("k", "1"), U(x, x)>>))
Rows(x) == Ba(<<Row(x, Uq(x \o " ")), Row(x, Dq(<<Str(x)>>)), Row(x, Uq(" " \o x)), Row(x, Sq(<<Str(x)>>)), Cm(" r"), Row(x, Uq(Near(<<5, 9>>, x))), Row(x, Uq(x)), Row(x, Uq(x \o x)), Row(x, Uq("")), Row(x, Uq("a"))>>)
FxR(x) == <<AllSeg(<<Cond("f", x)>>)>>
XxR(x) == <<IdxSeg("1", <<Cond(x, x)>>)>>
XxA(x) == <<AllSeg(<<Cond(x, x), Cond("f", x)>>)>>
K(x) == <<KeySeg(x, <<>>)>>
Kn == <<KeySeg("k", <<>>)>>
Top == RootPath(<<>>)
TopIf(x) == RootPath(<<Cond(x, "w")>>)
(* a mapping m of items to regroup by the field sel, which is v in one of them *)
Grouped(m, sel, v, x) ==
  Bh(<<U("a", "v"),
       El(m, "", Bh(<<El("k1", "", Bh(<<U("b", "1"), El(sel, "", v)>>)), Ic(" k1"), El("k2", "x", Bh(<<U(sel, x \o " ")>>)), Cm(" k3"), El("k3", "", Bh(<<U(sel, "g"), U("b", "2")>>)),
                      El(x, "", Bh(<<U(sel, x), U("a", "3")>>)), El("k5", "", Bh(<<U(sel, x \o "a")>>)), El("k6", "", Bh(<<U("b", x)>>)), El("k7", "", Bh(<<U(sel, "a")>>)), Cm(" end")>>))>>)

Case2(d, op) == [d |-> d, op |-> op]
Inserts(x, Op(_, _, _, _)) ==
  <<Case2(Absent(x), Op(K(x), Uq("n"), "", FALSE)), Case2(Present(x), Op(K(x), Uq("n"), "", FALSE)), Case2(Present(x), Op(K(x), Uq("n"), "al", TRUE)), Case2(Absent(x), Op(K(x), Bh(<<U(x, "n")>>), "", TRUE)),
    Case2(Present(x), Op(K(x) \o K(x), Uq("n"), "", TRUE)), Case2(Present(x), Op(K(x) \o K(x \o " "), Uq("n"), "", FALSE)), Case2(Rows(x), Op(FxR(x) \o Kn, Uq("n"), "", TRUE)), Case2(Rows(x), Op(FxR(x) \o <<KeySeg("new", <<Cond(x, x)>>)>>, Uq("n"), "", FALSE))>>
Cases(x) ==
  CASE Plan = "find" -> <<Case2(Present(x), FindOp(K(x))), Case2(Absent(x), FindOp(K(x))), Case2(Present(x), FindOp(K(x) \o K(x))), Case2(Present(x), FindOp(K(x) \o K("a"))),
                          Case2(Val(Present(x).c[KeyAt(Present(x), x)]), FindOp(TopIf(x))), Case2(Absent(x), FindOp(TopIf(x))), Case2(Rows(x), FindOp(FxR(x))), Case2(Rows(x), FindOp(XxR(x))), Case2(Rows(x), FindOp(XxA(x) \o Kn)), Case2(Bh(<<El(x, "", Rows(x))>>), FindOp(K(x) \o FxR(x) \o K(x)))>>
    [] Plan = "insert" -> Inserts(x, InsertOp)
    [] Plan = "insertcall" -> Inserts(x, InsertCallOp)
    [] Plan = "remove" -> <<Case2(Present(x), RemoveOp(K(x))), Case2(Absent(x), RemoveOp(K(x))), Case2(Present(x), RemoveOp(K(x) \o K(x))), Case2(Rows(x), RemoveOp(FxR(x) \o Kn)), Case2(Rows(x), RemoveOp(XxA(x) \o K(x))), Case2(Bh(<<El("k", "", Rows(x))>>), RemoveOp(Kn \o FxR(x) \o Kn))>>
    [] Plan = "rename" -> <<Case2(Absent(x), RenameOp(K("a"), x)), Case2(Present(x), RenameOp(K("b"), x)), Case2(Present(x), RenameOp(K(x), "n")), Case2(Present(x), RenameOp(K(x) \o K(x), x \o x)), Case2(Rows(x), RenameOp(FxR(x) \o Kn, x)), Case2(Absent(x), RenameOp(K(x), "n"))>>
    [] Plan = "toobj" -> <<Case2(Absent(x), ToObjectOp(K("a"), x)), Case2(Present(x), ToObjectOp(K(x), x)), Case2(Present(x), ToObjectOp(K(x) \o K(x), "n")), Case2(Rows(x), ToObjectOp(FxR(x) \o K(x), x))>>
    [] Plan = "mvsub" -> <<Case2(Present(x), MoveSubOp(Top, x, <<"a", "b">>)), Case2(Absent(x), MoveSubOp(Top, x, <<"a", x \o " ">>)), Case2(Present(x), MoveSubOp(Top, "n", <<x, "a">>)), Case2(Present(x), MoveSubOp(Top, x, <<x, "a", x \o " ">>)),
                           Case2(Present(x), MoveSubOp(K(x), "n", <<x>>)), Case2(Absent(x), MoveSubOp(Top, "n", <<x, "b">>)), Case2(Rows(x), MoveSubOp(FxR(x), x, <<"k", "f">>)), Case2(Rows(x), MoveSubOp(FxR(x), "n", <<x, "k">>))>>
    [] OTHER -> <<Case2(Grouped(x, "t", Uq("g"), "y"), MoveMapOp(Top, x, "t", "n", <<>>)), Case2(Grouped("m", x, Uq("g"), "y"), MoveMapOp(Top, "m", x, "n", <<>>)), Case2(Grouped("m", "t", Dq(<<Str(x)>>), x), MoveMapOp(Top, "m", "t", "n", <<>>)),
                  Case2(Grouped("m", "t", Sq(<<Str(x)>>), x), MoveMapOp(Top, "m", "t", "n", <<x>>)), Case2(Grouped("m", "t", Uq(x), x), MoveMapOp(Top, "m", "t", x, <<x \o " ", "g">>)), Case2(Grouped("m", "t", Uq(x), x), MoveMapOp(TopIf("a"), "m", "t", "n", <<>>))>>

Many == IF Plan = "find" THEN 10 ELSE IF Plan \in {"insert", "insertcall", "mvsub"} THEN 8 ELSE IF Plan = "toobj" THEN 4 ELSE 6
CaseOf(n) == LET x == TLCEval(PlacedIn(n \div Many, NamePlaces, Total \div Many)) IN Cases(x)[1 + (n % Many)]
Given(n, op) == LET text == PathText(op.path)
                IN IF n % 3 = 0 /\ PathOf(text) = [ok |-> TRUE, path |-> op.path] THEN [op EXCEPT !.via = "text", !.pt = text] ELSE op
NameCase(n, op) == [f |-> "edit", no |-> n, src |-> "tree", doc |-> doc, lines |-> <<>>, steps |-> <<op>>, rt |-> FALSE]
All == Many * Len(NamePlaces) * Len(AnyChar) * (1 + Len(AnyChar))
Last1 == (IF All < Total THEN All ELSE Total) - 1
Init == i = Shard /\ open = TRUE /\ \E d \in {Plain1(CaseOf(Shard).d)} : Open(d)
Act == open /\ (\E op \in {Given(i, CaseOf(i).op)} : Perform(op) /\ Emit(NameCase(i, op))) /\ open' = FALSE /\ i' = i
Load == /\ ~open /\ i + Shards <= Last1
        /\ \E d \in {Plain1(CaseOf(i + Shards).d)} : doc' = d
        /\ last' = Blank /\ ret' = 0 /\ out' = <<>> /\ open' = TRUE /\ i' = i + Shards
Next == Act \/ Load
Spec == Init /\ [][Next]_<<svars, i, open>>
Laws == [][open /\ ~open' => StepLaws]_<<svars, i, open>>
============================================================================
