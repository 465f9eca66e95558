------------------------------- MODULE Edit -------------------------------
(* What a path denotes in a document and what the edit operations do.        *)
(* An operation is a record [op, ...]; every operation maps a value node and  *)
(* a path to [n: the node afterwards, r: the number returned, out: found].     *)
EXTENDS Node, Paths

KeyAt(n, k) == IF n.t # "bh" THEN 0 ELSE Index(n.c, LAMBDA x : IsEl(x) /\ x.k = k)
Fits(n, cs) ==
  \A j \in 1..Len(cs) :
    LET i == KeyAt(n, cs[j].f)
    IN i # 0 /\ IsText(Val(n.c[i])) /\ Text(Val(n.c[i])) = cs[j].v

Res(n, r, out) == [n |-> n, r |-> r, out |-> out]
Same(n) == Res(n, 0, <<>>)

(* the positions of the children that an index path visits, in order *)
ElementsAt(n) == IF n.t = "ia" THEN [i \in 1..Len(n.c) |-> i]
                 ELSE SelectSeq([i \in 1..Len(n.c) |-> i], LAMBDA i : IsEl(n.c[i]))
ToIndex(num) == IF Len(num) > 4 THEN 100000
                ELSE CASE Len(num) = 1 -> DigitVal(num)
                       [] Len(num) = 2 -> 10 * DigitVal(Ch(num, 1)) + DigitVal(Ch(num, 2))
                       [] Len(num) = 3 -> 100 * DigitVal(Ch(num, 1)) + 10 * DigitVal(Ch(num, 2)) + DigitVal(Ch(num, 3))
                       [] OTHER -> 10000
Visits(n, seg) ==
  IF n.t \notin {"ia", "ba"} THEN <<>>
  ELSE LET es == ElementsAt(n)
       IN IF seg.t = "all" THEN es
          ELSE Flat([j \in 1..Len(seg.ns) |->
                       LET i == ToIndex(seg.ns[j]) + 1 IN IF i <= Len(es) THEN <<es[i]>> ELSE <<>>])
ChildVal(n, i) == IF n.t = "ia" THEN n.c[i] ELSE Val(n.c[i])
WithChildVal(n, i, v) == IF n.t = "ia" THEN [n EXCEPT !.c[i] = v] ELSE [n EXCEPT !.c[i].c = <<v>>]

(* ----------------------- edits of the entries of a mapping --------------- *)
(* op "insert" (val: value, al: its alias, ow: overwrite) and op "remove"     *)
RemoveEntry(n, i) ==
  LET c == RemoveAt(n.c, i)
  IN [n EXCEPT !.c = IF i <= Len(c) /\ c[i].t = "ic" THEN RemoveAt(c, i) ELSE c]
EditKey(op, n, k, i) ==
  CASE op.op = "insert" ->
         LET e == El(k, op.al, op.val)       \* out: one for every mapping that is reached
         IN IF i = 0 THEN Res([n EXCEPT !.c = Append(n.c, e)], 1, <<k>>)
            ELSE IF op.ow THEN Res([n EXCEPT !.c[i] = e], 1, <<k>>)
            ELSE Res(n, 0, <<k>>)
    [] OTHER -> IF i = 0 THEN Same(n) ELSE Res(RemoveEntry(n, i), 1, <<>>)

RECURSIVE EditWalk(_, _, _)
RECURSIVE EditVisits(_, _, _, _, _)
EditVisits(n, seg, rest, op, vs) ==
  IF vs = <<>> THEN Same(n)
  ELSE LET v == ChildVal(n, vs[1])
           one == IF Fits(v, seg.cs) THEN EditWalk(v, rest, op) ELSE Same(v)
           more == EditVisits(WithChildVal(n, vs[1], one.n), seg, rest, op, Tail(vs))
       IN Res(more.n, one.r + more.r, one.out \o more.out)
EditWalk(n, path, op) ==
  LET seg == path[1]
      rest == Tail(path)
      i == KeyAt(n, seg.k)
      sub == EditWalk(Val(n.c[i]), rest, op)
  IN CASE seg.t = "root" -> Same(n)
       [] seg.t = "key" ->
            IF n.t # "bh" THEN Same(n) ELSE IF ~Fits(n, seg.cs) THEN Same(n)
            ELSE IF rest = <<>> THEN EditKey(op, n, seg.k, i)
            ELSE IF i = 0 THEN Same(n)
            ELSE Res(WithChildVal(n, i, sub.n), sub.r, sub.out)
       [] OTHER -> IF rest = <<>> THEN Same(n) ELSE EditVisits(n, seg, rest, op, Visits(n, seg))

(* ------------------------ operations on what a path denotes -------------- *)
LineComment(n, i) == IF i < Len(n.c) /\ n.c[i + 1].t = "ic" THEN <<n.c[i + 1]>> ELSE <<>>
Firsts(fs) == SelectSeq([i \in 1..Len(fs) |-> [f |-> fs[i], i |-> i]],
                        LAMBDA x : ~\E j \in 1..(x.i - 1) : fs[j] = x.f)
RECURSIVE RemoveAll(_, _)
RemoveAll(n, fs) == IF fs = <<>> THEN n ELSE RemoveAll(RemoveEntry(n, KeyAt(n, fs[1].f)), Tail(fs))
(* put the entries of n named in fs into the mapping m *)
RECURSIVE PutAll(_, _, _)
PutAll(m, n, fs) ==
  IF fs = <<>> THEN m
  ELSE LET at == KeyAt(n, fs[1].f)
           e == n.c[at]
           i == KeyAt(m, fs[1].f)
       IN PutAll(IF i = 0 THEN [m EXCEPT !.c = m.c \o <<e>> \o LineComment(n, at)] ELSE [m EXCEPT !.c[i] = e],
                 n, Tail(fs))
MoveSub(n, op) ==
  LET fs == SelectSeq(Firsts(op.fields), LAMBDA x : x.f # op.name /\ KeyAt(n, x.f) # 0)
      s == KeyAt(n, op.name)
      moved == IF s = 0 THEN [n EXCEPT !.c = Append(n.c, El(op.name, "", PutAll(Bh(<<>>), n, fs)))]
               ELSE WithChildVal(n, s, PutAll(Val(n.c[s]), n, fs))
  IN IF n.t # "bh" \/ fs = <<>> THEN Same(n)
     ELSE IF s # 0 /\ Val(n.c[s]).t # "bh" THEN Same(n)
     ELSE Res(RemoveAll(moved, fs), 1, <<>>)

(* Regrouping. What becomes of an entry of the old mapping: *)
Selected(e, op) == LET i == KeyAt(Val(e), op.sel) IN i # 0 /\ IsText(Val(Val(e).c[i]))
GroupOf(e, op) == Text(Val(Val(e).c[KeyAt(Val(e), op.sel)]))
Moves(e, op) == Selected(e, op) /\ GroupOf(e, op) # "" /\ GroupOf(e, op) \notin Range(op.keeps)
WithoutSelector(e, op) == IF Selected(e, op) THEN [e EXCEPT !.c = <<RemoveEntry(Val(e), KeyAt(Val(e), op.sel))>>] ELSE e
(* the entry that the i-th item of the old mapping goes with (0: none): the next  *)
(* entry for a comment before it, the entry before for the comment on its line and *)
(* for comments after the last entry                                                *)
NextEl(c, i) == IF \E j \in i..Len(c) : IsEl(c[j]) THEN CHOOSE j \in i..Len(c) : IsEl(c[j]) /\ \A l \in i..(j - 1) : ~IsEl(c[l]) ELSE 0
PrevEl(c, i) == IF \E j \in 1..i : IsEl(c[j]) THEN CHOOSE j \in 1..i : IsEl(c[j]) /\ \A l \in (j + 1)..i : ~IsEl(c[l]) ELSE 0
OnItsLine(c, i) == LET p == PrevEl(c, i) IN \A j \in (p + 1)..i : c[j].t = "ic"
Companion(c, i) == IF IsEl(c[i]) THEN i
                   ELSE IF OnItsLine(c, i) \/ NextEl(c, i) = 0 THEN PrevEl(c, i) ELSE NextEl(c, i)
RECURSIVE SortedNames(_)
SortedNames(S) == IF S = {} THEN <<>>
                  ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : StrLess(x, y) IN <<m>> \o SortedNames(S \ {m})
MoveMap(n, op) ==
  LET o == KeyAt(n, op.name)
      c == TLCEval(Val(n.c[o]).c)
      at == TLCEval([i \in 1..Len(c) |-> Companion(c, i)])
      (* the group that an item moves to, "" if it stays (no group has that name) *)
      to == TLCEval([i \in 1..Len(c) |-> IF at[i] # 0 /\ Moves(c[at[i]], op) THEN GroupOf(c[at[i]], op) ELSE ""])
      all == [i \in 1..Len(c) |-> i]
      item(i) == IF IsEl(c[i]) THEN WithoutSelector(c[i], op) ELSE c[i]
      those(g) == LET is == TLCEval(SelectSeq(all, LAMBDA i : to[i] = g)) IN TLCEval([j \in 1..Len(is) |-> TLCEval(item(is[j]))])
      names == TLCEval(Range(to) \ {""})
      order == TLCEval(SortedNames(names))
      new == Bh(TLCEval([g \in 1..Len(order) |-> El(order[g], "", Bh(those(order[g])))]))
      al == n.c[o].a
  IN IF n.t # "bh" THEN Same(n) ELSE IF o = 0 THEN Same(n)
     ELSE IF Val(n.c[o]).t # "bh" THEN Same(n)
     ELSE IF names = {} \/ KeyAt(n, op.new) # 0 THEN Same(n)
     ELSE Res([n EXCEPT !.c = Append([n.c EXCEPT ![o] = El(op.name, al, Bh(those("")))], El(op.new, al, new))], 1, <<>>)

OnValue(op, n) ==
  CASE op.op = "find" -> Res(n, 0, <<n>>)
    [] op.op = "mvsub" -> MoveSub(n, op)
    [] op.op = "mvmap" -> MoveMap(n, op)
    [] OTHER -> Same(n)
OnEntry(op, e) ==
  CASE op.op = "rename" -> Res([e EXCEPT !.k = op.name], 1, <<>>)
    [] op.op = "toobj" -> Res(El(e.k, "", Bh(<<El(op.name, e.a, Val(e))>>)), 1, <<>>)
    [] OTHER -> LET v == OnValue(op, Val(e)) IN Res([e EXCEPT !.c = <<v.n>>], v.r, v.out)

RECURSIVE Walk(_, _, _)
RECURSIVE WalkVisits(_, _, _, _, _)
WalkVisits(n, seg, rest, op, vs) ==
  IF vs = <<>> THEN Same(n)
  ELSE LET v == ChildVal(n, vs[1])
           one == IF Fits(v, seg.cs) THEN Walk(v, rest, op) ELSE Same(v)
           more == WalkVisits(WithChildVal(n, vs[1], one.n), seg, rest, op, Tail(vs))
       IN Res(more.n, one.r + more.r, one.out \o more.out)
Walk(n, path, op) ==
  LET seg == path[1]
      rest == Tail(path)
      i == KeyAt(n, seg.k)
      entry == OnEntry(op, n.c[i])
      sub == Walk(Val(n.c[i]), rest, op)
  IN IF path = <<>> THEN OnValue(op, n)
     ELSE CASE seg.t = "root" -> IF Fits(n, seg.cs) THEN OnValue(op, n) ELSE Same(n)
       [] seg.t = "key" ->
            IF n.t # "bh" THEN Same(n) ELSE IF ~Fits(n, seg.cs) THEN Same(n) ELSE IF i = 0 THEN Same(n)
            ELSE IF rest = <<>> THEN Res([n EXCEPT !.c[i] = entry.n], entry.r, entry.out)
            ELSE Res(WithChildVal(n, i, sub.n), sub.r, sub.out)
       [] OTHER -> WalkVisits(n, seg, rest, op, Visits(n, seg))

(* An operation on a whole document (or on a value node). *)
Structural == {"insert", "remove"}
Whole(op, n) ==
  LET at == RootAt(n)
      v == IF n.t = "doc" THEN n.c[at] ELSE n
      o == IF op.op = "insertcall" THEN [op EXCEPT !.op = "insert"] ELSE op
      one == IF o.op \in Structural THEN EditWalk(v, op.path, o) ELSE Walk(v, op.path, o)
  IN IF n.t = "doc" THEN Res([n EXCEPT !.c[at] = one.n], one.r, one.out) ELSE one

Apply(op, n) == LET a == Whole(op, n) IN IF op.op = "find" THEN a ELSE [a EXCEPT !.out = <<>>]

(* How many mappings an insertion reaches. *)
Reaches(op, n) == Len(Whole(op, n).out)
============================================================================
