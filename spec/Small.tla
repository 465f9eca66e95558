------------------------------- MODULE Small ------------------------------
(* Every small document, by number. The size of a value is its number of      *)
(* nodes; an alias, a comment line before an entry and a comment on the line of *)
(* an entry count one each. ShapeAt(n, i) is the i-th root collection of size n.  *)
(* The strings are stand-ins; Fill draws what a case has in their place, so that   *)
(* the shapes are complete and their contents vary.                                  *)
EXTENDS Driver, Gen

Flags == <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>>>    \* alias, comment line, line comment
Weight(f) == f[1] + f[2] + f[3]
FlowLeaves == <<Uq("v"), Sq(<<Str("v")>>), Dq(<<Str("w")>>), Anch("x"), Ia(<<>>), Ih(<<>>)>>
BlockLeaves == <<Lit("strip", <<Ln("v")>>), Fold("clip", <<Ln("w")>>)>>

(* ------------------------------- how many ------------------------------- *)
RECURSIVE CountF(_), CountFS(_), CountV(_), CountE(_), CountS(_)
CountF(n) == IF n <= 0 THEN 0 ELSE IF n = 1 THEN Len(FlowLeaves) ELSE 2 * CountFS(n - 1)
CountFS(n) == IF n = 0 THEN 1 ELSE Sum([s \in 1..n |-> CountF(s) * CountFS(n - s)])
CountV(n) == IF n <= 0 THEN 0 ELSE CountF(n) + (IF n = 1 THEN Len(BlockLeaves) ELSE 2 * CountS(n - 1))
CountE(n) == Sum([k \in 1..8 |-> IF Flags[k][3] = 1 THEN CountF(n - Weight(Flags[k])) ELSE CountV(n - Weight(Flags[k]))])
CountS(n) == IF n <= 0 THEN 0 ELSE Sum([s \in 1..n |-> CountE(s) * (IF s = n THEN 1 ELSE CountS(n - s))])
(* written out, for TLC would count again and again; Counted says that they are right *)
NF == <<6, 12, 96, 912, 9600, 107904, 1268736>>
NFS == <<6, 48, 456, 4800, 53952, 634368, 7707264>>
NV == <<8, 28, 324, 4360, 65500, 1055352, 17855856>>
NE == <<8, 50, 412, 5162, 75660, 1202232, 20160076>>
NS == <<8, 114, 1724, 27950, 473724, 8293560, 148852540>>
ASSUME Counted == \A n \in 1..5 : NF[n] = CountF(n) /\ NFS[n] = CountFS(n) /\ NV[n] = CountV(n) /\ NE[n] = CountE(n) /\ NS[n] = CountS(n)
At0(tab, n) == IF n <= 0 THEN 0 ELSE tab[n]
Shapes(n) == IF n = 1 THEN 2 ELSE 2 * NFS[n - 1] + 2 * NS[n - 1]
ShapesTo(n) == Sum([k \in 1..n |-> Shapes(k)])

(* ------------------------------- which one ------------------------------ *)
KeyNo == <<"a", "b", "a", "c", "k", "type", "x y">>
Keyed(x, k) == IF x.t = "el" THEN [x EXCEPT !.k = k] ELSE x
(* the s and the rest of i, where the first Many(1) numbers belong to s = 1 and so on *)
RECURSIVE Locate(_, _, _)
Locate(Many(_), s, i) == IF i < Many(s) THEN <<s, i>> ELSE Locate(Many, s + 1, i - Many(s))

RECURSIVE FlowAt(_, _), FlowsAt(_, _, _, _), ValueAt(_, _), EntryAt(_, _, _), EntriesAt(_, _, _, _)
FlowAt(n, i) ==
  IF n = 1 THEN FlowLeaves[i + 1]
  ELSE IF i < NFS[n - 1] THEN Ia(FlowsAt(n - 1, i, FALSE, 1)) ELSE Ih(FlowsAt(n - 1, i - NFS[n - 1], TRUE, 1))
FlowsAt(n, i, keyed, no) ==
  IF n = 0 THEN <<>>
  ELSE LET after(s) == IF s = n THEN 1 ELSE NFS[n - s]
           at == TLCEval(Locate(LAMBDA s : NF[s] * after(s), 1, i))
           v == FlowAt(at[1], at[2] \div after(at[1]))
       IN <<IF keyed THEN El(KeyNo[no], "", v) ELSE v>> \o FlowsAt(n - at[1], at[2] % after(at[1]), keyed, no + 1)
ValueAt(n, i) ==
  IF i < NF[n] THEN FlowAt(n, i)
  ELSE IF n = 1 THEN BlockLeaves[i - NF[1] + 1]
  ELSE IF i - NF[n] < NS[n - 1] THEN Ba(EntriesAt(n - 1, i - NF[n], FALSE, 1))
  ELSE Bh(EntriesAt(n - 1, i - NF[n] - NS[n - 1], TRUE, 1))
EntryAt(n, i, key) ==
  LET at == TLCEval(Locate(LAMBDA k : IF Flags[k][3] = 1 THEN At0(NF, n - Weight(Flags[k])) ELSE At0(NV, n - Weight(Flags[k])), 1, i))
      f == Flags[at[1]]
      v == IF f[3] = 1 THEN FlowAt(n - Weight(f), at[2]) ELSE ValueAt(n - Weight(f), at[2])
  IN (IF f[2] = 1 THEN <<Cm(" c")>> ELSE <<>>) \o <<El(key, IF f[1] = 1 THEN "x" ELSE "", v)>> \o (IF f[3] = 1 THEN <<Ic(" i")>> ELSE <<>>)
EntriesAt(n, i, keyed, no) ==
  LET after(s) == IF s = n THEN 1 ELSE NS[n - s]
      at == TLCEval(Locate(LAMBDA s : NE[s] * after(s), 1, i))
      e == EntryAt(at[1], at[2] \div after(at[1]), IF keyed THEN KeyNo[no] ELSE "")
  IN IF at[1] = n THEN e ELSE e \o EntriesAt(n - at[1], at[2] % after(at[1]), keyed, no + 1)

ShapeAt(n, i) ==
  IF n = 1 THEN (IF i = 0 THEN Ia(<<>>) ELSE Ih(<<>>))
  ELSE LET fs == NFS[n - 1]
           bs == NS[n - 1]
       IN IF i < fs THEN Ia(FlowsAt(n - 1, i, FALSE, 1)) ELSE IF i < 2 * fs THEN Ih(FlowsAt(n - 1, i - fs, TRUE, 1))
          ELSE IF i < 2 * fs + bs THEN Ba(EntriesAt(n - 1, i - 2 * fs, FALSE, 1)) ELSE Bh(EntriesAt(n - 1, i - 2 * fs - bs, TRUE, 1))
(* the i-th shape of all, from 0, smaller ones first *)
Shape(i) == LET at == TLCEval(Locate(Shapes, 1, i)) IN ShapeAt(at[1], at[2])

(* all of the shapes up to SIZE or, if they are k times more than COUNT, one drawn   *)
(* of every k                                                                        *)
Size0 == EnvNum("SIZE", 5)
Space == TLCEval(ShapesTo(Size0))
Stride == IF Space > Total THEN Space \div Total ELSE 1
NthShape(i) == Shape((i * Stride + N(CaseSeed(i), Stride)) % Space)

(* ------------------------------- contents ------------------------------- *)
RECURSIVE Fill(_, _, _, _)
Fill(h, n, g, flow) ==
  LET kid(x) == Fill(Sub(h, 10 + x), n.c[x], g, flow \/ n.t \in Flow)
      one == CASE n.t = "uq" -> (IF flow /\ Odds(Sub(h, 3), 1, 8) THEN Uq(Pick(Sub(h, 1), PlainFlow)) ELSE IF ~flow /\ Odds(Sub(h, 3), 1, 3) THEN Uq(Pick(Sub(h, 1), PlainBlock))
                                 ELSE Uq(Pick(Sub(h, 1), Plain)))
               [] n.t = "sq" -> Sq(QuotedParts(Sub(h, 1), g, FALSE))
               [] n.t = "dq" -> Dq(QuotedParts(Sub(h, 1), g, TRUE))
               [] n.t = "lit" -> Lit(Chomp(Sub(h, 1)), BlockLines(Sub(h, 2)))
               [] n.t = "fold" -> Fold(Chomp(Sub(h, 1)), BlockLines(Sub(h, 2)))
               [] n.t = "anch" -> Anch(Pick(Sub(h, 1), g.names))
               [] n.t \in {"cm", "ic"} -> [n EXCEPT !.s = CommentText(Sub(h, 1))]
               [] n.t = "el" -> [n EXCEPT !.c = <<kid(1)>>, !.k = IF n.k = "" THEN "" ELSE Pick(Sub(h, 1), g.keys), !.a = IF n.a = "" THEN "" ELSE Pick(Sub(h, 2), g.names)]
               [] OTHER -> [n EXCEPT !.c = [x \in 1..Len(n.c) |-> kid(x)]]
  IN TLCEval(one)
(* a document with that root; comments before its first entry belong to the document *)
RECURSIVE LeadingCount(_, _)
LeadingCount(c, i) == IF i <= Len(c) /\ IsComment(c[i]) THEN LeadingCount(c, i + 1) ELSE i - 1
AsDoc(v) == LET k == IF v.t \in Block THEN LeadingCount(v.c, 1) ELSE 0
            IN Doc(SubSeq(v.c, 1, k) \o <<IF k = 0 THEN v ELSE [v EXCEPT !.c = SubSeq(v.c, k + 1, Len(v.c))]>>)
============================================================================
