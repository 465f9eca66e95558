------------------------------ MODULE Session -----------------------------
(* The system as its user sees it: a document that is edited by one operation *)
(* after another. The actions are the public operations; ret and out are what   *)
(* the last one returned.                                                        *)
EXTENDS Edit

VARIABLES doc,      \* the document (a doc node, or a value of its own)
          last,     \* the last operation (op = "start" at first)
          ret,      \* the number it returned
          out       \* the values it found
svars == <<doc, last, ret, out>>

Blank == [op |-> "start", via |-> "api", pt |-> "", path |-> <<>>, val |-> Uq(""), al |-> "", ow |-> FALSE,
          name |-> "", fields |-> <<>>, sel |-> "", new |-> "", keeps |-> <<>>]
Open(d) == doc = d /\ last = Blank /\ ret = 0 /\ out = <<>>
(* the same node, evaluated (TLC would come back to it again and again) *)
RECURSIVE Plain1(_)
Plain1(n) == LET c == TLCEval([x \in 1..Len(n.c) |-> Plain1(n.c[x])]) IN [t |-> n.t, s |-> n.s, k |-> n.k, a |-> n.a, c |-> c]
Done1(a) == [n |-> TLCEval(Plain1(a.n)), r |-> a.r, out |-> a.out]
Perform(op) == \E a \in {Done1(TLCEval(Apply(op, doc)))} : doc' = a.n /\ last' = op /\ ret' = a.r /\ out' = a.out

FindOp(p) == [Blank EXCEPT !.op = "find", !.path = p]
InsertOp(p, v, al, ow) == [Blank EXCEPT !.op = "insert", !.path = p, !.val = v, !.al = al, !.ow = ow]
InsertCallOp(p, v, al, ow) == [InsertOp(p, v, al, ow) EXCEPT !.op = "insertcall"]
RemoveOp(p) == [Blank EXCEPT !.op = "remove", !.path = p]
RenameOp(p, name) == [Blank EXCEPT !.op = "rename", !.path = p, !.name = name]
ToObjectOp(p, name) == [Blank EXCEPT !.op = "toobj", !.path = p, !.name = name]
MoveSubOp(p, name, fields) == [Blank EXCEPT !.op = "mvsub", !.path = p, !.name = name, !.fields = fields]
MoveMapOp(p, name, sel, new, keeps) ==
  [Blank EXCEPT !.op = "mvmap", !.path = p, !.name = name, !.sel = sel, !.new = new, !.keeps = keeps]

Find(p) == Perform(FindOp(p))
Insert(p, v, al, ow) == Perform(InsertOp(p, v, al, ow))
InsertByCall(p, v, al, ow) == Perform(InsertCallOp(p, v, al, ow))
Remove(p) == Perform(RemoveOp(p))
Rename(p, name) == Perform(RenameOp(p, name))
ToObject(p, name) == Perform(ToObjectOp(p, name))
MoveToSubfield(p, name, fields) == Perform(MoveSubOp(p, name, fields))
MoveToMap(p, name, sel, new, keeps) == Perform(MoveMapOp(p, name, sel, new, keeps))

(* ----------------- what the listed properties say of a step --------------- *)
RECURSIVE Leaves(_)                \* every entry value, found at any depth, as a sequence
Leaves(n) == IF n.t \in Collection \cup {"el", "doc"} THEN Flat([x \in 1..Len(n.c) |-> Leaves(n.c[x])])
             ELSE IF IsComment(n) THEN <<>> ELSE <<n>>
RECURSIVE EntriesIn(_)
EntriesIn(n) == (IF n.t = "el" THEN 1 ELSE 0) + Sum([x \in 1..Len(n.c) |-> EntriesIn(n.c[x])])
Bag(s) == [x \in Range(s) |-> Cardinality({j \in 1..Len(s) : s[j] = x})]
SameBag(s, t) == Bag(s) = Bag(t)

(* nothing changed: nothing was counted, and the other way round for the edits   *)
(* that always change what they count                                              *)
NoCountNoChange == last'.op \in {"start", "find"} \/ ret' > 0 \/ doc' = doc
FindIsPure == last'.op = "find" => doc' = doc
(* an insertion that does not replace keeps all entries, and adds ret of them *)
InsertCounts == (last'.op \in {"insert", "insertcall"} /\ ~last'.ow) =>
                  EntriesIn(doc') = EntriesIn(doc) + ret' * (1 + EntriesIn(last'.val))
InsertKeepsComments == (last'.op \in {"insert", "insertcall"} /\ ~last'.ow) =>
                         Len(Comments(doc')) = Len(Comments(doc)) + ret' * Len(Comments(last'.val))
InsertedIsFound == (last'.op \in {"insert", "insertcall"} /\ last'.ow /\ \A x \in 1..Len(last'.path) : last'.path[x].cs = <<>>) =>
                     Len(Apply(FindOp(last'.path), doc').out) >= ret'
InsertAgain == (last'.op = "insert" /\ ret' > 0) => Apply([last' EXCEPT !.ow = FALSE], doc').r = 0
RemoveShrinks == (last'.op = "remove" /\ ret' > 0) => EntriesIn(doc') < EntriesIn(doc)
RenameKeepsData == last'.op \in {"rename", "toobj"} => Leaves(doc') = Leaves(doc) /\ Comments(doc') = Comments(doc)
RenameKeepsEntries == last'.op = "rename" => EntriesIn(doc') = EntriesIn(doc)
ToObjectAddsEntries == last'.op = "toobj" => EntriesIn(doc') = EntriesIn(doc) + ret'
(* regrouping only loses the selectors: the other data and all comments outside   *)
(* the line of a selector stay                                                      *)
RegroupKeeps == last'.op = "mvmap" =>
                  LET now == TLCEval(Bag(TLCEval(Leaves(doc'))))
                      was == TLCEval(Bag(TLCEval(Leaves(doc))))
                  IN ret' > 0 => \A x \in DOMAIN now : x \in DOMAIN was /\ now[x] <= was[x]
Law(name, holds) == IF holds THEN TRUE ELSE PrintT(<<"law", name, last'>>) /\ FALSE
StepLaws == /\ Law("NoCountNoChange", NoCountNoChange)
            /\ Law("FindIsPure", FindIsPure)
            /\ Law("InsertCounts", InsertCounts)
            /\ Law("InsertKeepsComments", InsertKeepsComments)
            /\ Law("InsertedIsFound", InsertedIsFound)
            /\ Law("InsertAgain", InsertAgain)
            /\ Law("RemoveShrinks", RemoveShrinks)
            /\ Law("RenameKeepsData", RenameKeepsData)
            /\ Law("RenameKeepsEntries", RenameKeepsEntries)
            /\ Law("ToObjectAddsEntries", ToObjectAddsEntries)
            /\ Law("RegroupKeeps", RegroupKeeps)
============================================================================
