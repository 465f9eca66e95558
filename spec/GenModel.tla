------------------------------ MODULE GenModel ----------------------------
(* The bounded model of Session: every small document and every operation of a *)
(* small set, one step each. TLC checks the laws of Session on every step, and    *)
(* every step is a case for the library.                                            *)
(* PLAN: an operation (all shapes up to SIZE, paths of up to two parts), "flat-" and *)
(* an operation (one mapping of up to SIZE parts in any order), or session (any       *)
(* operation on a text, which is written and read again).                             *)
EXTENDS Small, Layout, Session

VARIABLES i, open

(* --------------------------------- paths -------------------------------- *)
C1 == <<Cond("a", "v")>>
PathParts == <<KeySeg("a", <<>>), KeySeg("b", <<>>), KeySeg("a", C1), KeySeg("b", C1), IdxSeg("0", <<>>), IdxSeg("1", <<>>), IdxSeg("0", C1),
               AllSeg(<<>>), AllSeg(C1)>>
NP == Len(PathParts)
Paths == <<RootPath(<<>>), RootPath(C1)>> \o [k \in 1..NP |-> <<PathParts[k]>>]
         \o [k \in 1..(NP * NP) |-> <<PathParts[1 + ((k - 1) \div NP)], PathParts[1 + ((k - 1) % NP)]>>]
Few == <<RootPath(<<>>), RootPath(C1), <<KeySeg("a", <<>>)>>, <<IdxSeg("0", <<>>)>>, <<AllSeg(<<>>)>>, <<AllSeg(C1)>>>>
OnRoot == <<RootPath(<<>>)>>
FlatPaths == <<<<KeySeg("a", <<>>)>>, <<KeySeg("b", <<>>)>>, <<KeySeg("s", <<>>)>>, <<KeySeg("a", C1)>>, <<KeySeg("b", C1)>>,
               <<KeySeg("s", <<>>), KeySeg("a", <<>>)>>, <<KeySeg("s", C1), KeySeg("a", C1)>>, <<KeySeg("n", <<>>)>>, <<KeySeg("A", <<>>)>>>>

(* ------------------------------- operations ----------------------------- *)
Vals == <<Uq("n"), Bh(<<El("a", "", Uq("v"))>>)>>
Over(ps, Op(_)) == Flat([k \in 1..Len(ps) |-> Op(ps[k])])
InsertOps(p) == Flat([k \in 1..2 |-> <<InsertOp(p, Vals[k], "", FALSE), InsertOp(p, Vals[k], "al", TRUE)>>])
CallOps(p) == <<InsertCallOp(p, Vals[2], "al", FALSE), InsertCallOp(p, Vals[1], "", TRUE)>>
FieldLists == <<<<"a">>, <<"b", "a">>, <<"a", "b">>, <<"a", "a">>, <<"n", "s", "a">>, <<"b", "s">>, <<"A", "b">>>>
MoveOps(p) == Flat([k \in 1..Len(FieldLists) |-> <<MoveSubOp(p, "s", FieldLists[k]), MoveSubOp(p, "n", FieldLists[k]), MoveSubOp(p, "b", FieldLists[k])>>])
GroupOps == <<MoveMapOp(RootPath(<<>>), "m", "type", "n", <<>>), MoveMapOp(RootPath(<<>>), "m", "type", "n", <<"keep", "g2">>),
              MoveMapOp(RootPath(<<>>), "m", "type", "m", <<>>), MoveMapOp(RootPath(<<>>), "m", "a", "n", <<"keep">>)>>
AnyMove(p) == <<MoveMapOp(p, "a", "a", "n", <<>>), MoveMapOp(p, "b", "a", "n", <<"w">>)>>
OpsOf(kind, ps) ==
  CASE kind = "find" -> Over(ps, LAMBDA p : <<FindOp(p)>>)
    [] kind = "insert" -> Over(ps, InsertOps)
    [] kind = "insertcall" -> Over(ps, CallOps)
    [] kind = "remove" -> Over(ps, LAMBDA p : <<RemoveOp(p)>>)
    [] kind = "rename" -> Over(ps, LAMBDA p : <<RenameOp(p, "n"), RenameOp(p, "b")>>)
    [] kind = "toobj" -> Over(ps, LAMBDA p : <<ToObjectOp(p, "n")>>)
    [] kind = "mvsub" -> Over(IF ps = Paths THEN Few ELSE OnRoot, MoveOps)
    [] OTHER -> IF ps = Paths THEN Over(Few, AnyMove) ELSE GroupOps
FlatPlan == StartsWith(Plan, "flat-")
KindOf == IF FlatPlan THEN From(Plan, 6) ELSE Plan
SessionOps == Over(FlatPaths \o Paths, LAMBDA p : <<RemoveOp(p), RenameOp(p, "n"), ToObjectOp(p, "n"), InsertOp(p, Vals[2], "al", TRUE), InsertOp(p, Vals[1], "", FALSE)>>)
              \o Over(Few, MoveOps) \o Over(Few, AnyMove)
(* what is computed once is kept in registers *)
OpList == IF Plan = "session" THEN SessionOps ELSE OpsOf(KindOf, IF FlatPlan THEN FlatPaths ELSE Paths)

(* ------------------------------- documents ------------------------------ *)
Of(k, c) == El(k, "", Bh(c))
FlatTokens == <<El("a", "", Uq("v")), El("b", "x", Sq(<<Str("v")>>)), Cm(" c"), Ic(" i"), Of("s", <<El("a", "", Uq("v")), Ic(" j"), El("b", "", Uq("1"))>>), El("s", "y", Ih(<<>>)), El("a", "z", Anch("x")), El("A", "", Uq("V"))>>
Ty(s) == El("type", "", Uq(s))
GroupTokens == <<Of("k1", <<Ty("g2")>>), Of("k2", <<El("a", "", Uq("v")), El("type", "", Dq(<<Str("g1")>>)), Ic(" sel")>>), El("k3", "x", Bh(<<El("a", "y", Uq("keep"))>>)), El("k4", "", Uq("g1")),
                 Of("k5", <<Ty("keep"), El("b", "", Uq("v"))>>), Cm(" c"), Ic(" i"), El("k6", "z", Bh(<<Cm(" d"), El("type", "", Sq(<<>>)), El("a", "", Uq("g2"))>>))>>
TokenList == IF KindOf = "mvmap" THEN GroupTokens ELSE FlatTokens
Tokens == TLCGet(13)
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
RECURSIVE Sequence1(_, _)                \* the k-th sequence of that length
Sequence1(len, k) == IF len = 0 THEN <<>> ELSE <<Tokens[1 + (k % Len(Tokens))]>> \o Sequence1(len - 1, k \div Len(Tokens))
FlatCount == Sum([len \in 1..(Size0 + 1) |-> Power(Len(Tokens), len - 1)])
FlatDoc(k) ==
  LET at == TLCEval(Locate(LAMBDA len : Power(Len(Tokens), len - 1), 1, k))
      m == Bh(Sequence1(at[1] - 1, at[2]))
  IN IF KindOf = "mvmap" THEN Bh(<<El("a", "", Uq("v")), El("m", "q", m), Ic(" m")>>) ELSE m
DocCount == IF FlatPlan THEN FlatCount ELSE Space
Docs == TLCGet(14)
DocNo(k) == IF FlatPlan THEN FlatDoc(k) ELSE IF Plan = "session" THEN AsDoc(Shape(k)) ELSE IF k % 2 = 0 THEN Shape(k) ELSE AsDoc(Shape(k))

(* ------------------------------- the machine ---------------------------- *)
(* All pairs of a document and an operation, or every k-th if they are more than   *)
(* COUNT, where k has no factor in common with the number of operations.              *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Prime(_, _)
Prime(k, m) == IF k <= 1 THEN 1 ELSE IF Gcd(k, m) = 1 THEN k ELSE Prime(k - 1, m)
Ops == TLCGet(11)
Pairs == Docs * Len(Ops)
Step1 == TLCGet(12)
PairNo(n) == (n * Step1) + N(CaseSeed(n), Step1)
Start(n) == LET d == DocNo(PairNo(n) \div Len(Ops)) IN IF Plan # "session" /\ Odds(Sub(CaseSeed(n), 1), 1, 4) THEN Inlined(Sub(CaseSeed(n), 2), TLCEval(d)) ELSE d
OpNo(n) == LET op == Ops[1 + (PairNo(n) % Len(Ops))]
               spelled == PathOf(PathText(op.path)) = [ok |-> TRUE, path |-> op.path]
           IN IF n % 3 = 0 /\ spelled THEN [op EXCEPT !.via = "text", !.pt = PathText(op.path)] ELSE op
ModelCase(n, op) ==
  IF Plan = "session"
  THEN [f |-> "edit", no |-> n, src |-> "text", doc |-> doc, lines |-> DocT(doc, CaseSeed(n)), steps |-> <<op>>, rt |-> TRUE]
  ELSE [f |-> "edit", no |-> n, src |-> "tree", doc |-> doc, lines |-> <<>>, steps |-> <<op>>, rt |-> FALSE]
Last1 == (IF Pairs > Total * Step1 THEN Total ELSE Pairs \div Step1) - 1
Prepared == TLCSet(11, TLCEval(OpList)) /\ TLCSet(13, TLCEval(TokenList)) /\ TLCSet(14, TLCEval(DocCount))
            /\ TLCSet(12, TLCEval(Prime(Pairs \div Total, Len(Ops)))) /\ PrintT(<<"pairs", Docs, Len(Ops), Step1>>)
Init == Prepared /\ i = Shard /\ open = TRUE /\ \E d \in {Plain1(Start(Shard))} : Open(d)
Act == open /\ (\E op \in {OpNo(i)} : Perform(op) /\ Emit(ModelCase(i, op))) /\ open' = FALSE /\ i' = i
Load == /\ ~open /\ i + Shards <= Last1
        /\ \E d \in {Plain1(Start(i + Shards))} : doc' = d
        /\ last' = Blank /\ ret' = 0 /\ out' = <<>> /\ open' = TRUE /\ i' = i + Shards
Next == Act \/ Load
Spec == Init /\ [][Next]_<<svars, i, open>>
Laws == [][open /\ ~open' => StepLaws]_<<svars, i, open>>
============================================================================
