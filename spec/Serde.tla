------------------------------- MODULE Serde ------------------------------
(* The data model of serde on nodes.                                         *)
(* Schemas: bool, i8.., u128, f32, f64, char, str, bytes, unit, any, ign;      *)
(*   opt, seq, nstruct <<inner>>; tuple, tstruct <<types>>; map <<key, value>>; *)
(*   struct <<el>> (named fields); ustruct; enum <<uv, nv, tv, sv>> (k: name).   *)
(* Values have the tag of their schema (none/some for opt, kv in a map, int,      *)
(* float, null... for any); numbers and strings are in s.                          *)
EXTENDS Types

Nk(t, k, c) == [t |-> t, s |-> "", k |-> k, a |-> "", c |-> c]
Leaf(t, s) == Nd(t, s, <<>>)
Good(v) == [ok |-> TRUE, v |-> v]
Bad == [ok |-> FALSE, v |-> Leaf("none", "")]
AllGood(rs) == \A i \in 1..Len(rs) : rs[i].ok
Vs(rs) == [i \in 1..Len(rs) |-> rs[i].v]
Together(results, t, k) == LET rs == TLCEval(results) IN IF AllGood(rs) THEN Good(Nk(t, k, TLCEval(Vs(rs)))) ELSE Bad

(* elements and entries, whatever the style; there are no anchors any more *)
Sequence == {"ba", "ia"}
Mapping == {"bh", "ih"}
ItemsOf(n) == IF n.t = "ia" THEN n.c ELSE LET es == Elements(n) IN [i \in 1..Len(es) |-> Val(es[i])]

IsOneChar(s) == Len(s) = 1 \/ s = "😀"          \* (which is two in TLC)

(* --------------------- reading without a schema ------------------------- *)
RECURSIVE Dump(_)
Dump(n) ==
  CASE n.t = "uq" -> (CASE Kind(n.s) = "null" -> Good(Leaf("null", ""))
                        [] Kind(n.s) = "bool" -> Good(Leaf("bool", n.s))
                        [] Kind(n.s) = "int" -> Good(Leaf("int", IntText(n.s)))
                        [] Kind(n.s) = "float" -> Good(Leaf("float", Shown(n.s, 15)))
                        [] OTHER -> Good(Leaf("str", n.s)))
    [] IsText(n) -> Good(Leaf("str", Text(n)))
    [] n.t \in Sequence -> LET xs == TLCEval(ItemsOf(n)) IN Together([i \in 1..Len(xs) |-> Dump(xs[i])], "seq", "")
    [] n.t \in Mapping -> LET es == TLCEval(Elements(n))
                              kvs == TLCEval([i \in 1..Len(es) |-> Dump(Val(es[i]))])
                          IN Together([i \in 1..Len(es) |-> IF kvs[i].ok THEN Good(Nd("kv", "", <<Dump(Uq(es[i].k)).v, kvs[i].v>>)) ELSE Bad], "map", "")
    [] OTHER -> Bad                                                  \* an anchor that stands for nothing

(* ----------------------- reading with a schema -------------------------- *)
IntD(t, n) == IF ~IsText(n) THEN Bad ELSE LET i == IntIn(Text(n), t) IN IF i = NotInt THEN Bad ELSE Good(Leaf(t, i))
FloatD(t, n) == IF ~IsText(n) THEN Bad ELSE IF ~IsFloat(Text(n)) THEN Bad
                ELSE Good(Leaf(t, Shown(Text(n), IF t = "f32" THEN 6 ELSE 15)))
RECURSIVE De(_, _)
Fields(fs, n, t, k) ==
  LET es == TLCEval(Elements(n))
      at(f) == {i \in 1..Len(es) : es[i].k = f.k}
      one(f) == LET is == at(f)
                    r == De(f.c[1], Val(es[CHOOSE i \in is : TRUE]))
                IN CASE is = {} -> IF f.c[1].t = "opt" THEN Good(Nk("el", f.k, <<Leaf("none", "")>>)) ELSE Bad
                     [] Cardinality(is) > 1 -> Bad
                     [] OTHER -> IF r.ok THEN Good(Nk("el", f.k, <<r.v>>)) ELSE Bad
  IN IF n.t \notin Mapping THEN Bad ELSE Together([i \in 1..Len(fs) |-> one(fs[i])], t, k)
(* the first elements of a sequence, as many as there are types *)
Firsts2(ts, n, t, k) ==
  IF n.t \notin Sequence THEN Bad
  ELSE LET xs == TLCEval(ItemsOf(n))
       IN IF Len(xs) < Len(ts) THEN Bad ELSE Together([i \in 1..Len(ts) |-> De(ts[i], xs[i])], t, k)
Variant(sc, name, n) ==
  LET i == Index(sc.c, LAMBDA v : v.k = name)
      var == sc.c[i]
      new == De(var.c[1], n)
  IN IF i = 0 THEN Bad
     ELSE CASE var.t = "uv" -> Good(Nk("uv", var.k, <<>>))
            [] var.t = "nv" -> IF new.ok THEN Good(Nk("nv", var.k, <<new.v>>)) ELSE Bad
            [] var.t = "tv" -> Firsts2(var.c, n, "tv", var.k)
            [] OTHER -> Fields(var.c, n, "sv", var.k)
De(sc, n) ==
  LET t == sc.t
      some == De(sc.c[1], n)
      xs == TLCEval(ItemsOf(n))
      es == TLCEval(Elements(n))
      key(e) == De(sc.c[1], Uq(e.k))
      val(e) == De(sc.c[2], Val(e))
  IN CASE t = "bool" -> IF n.t # "uq" THEN Bad ELSE IF n.s \in Trues THEN Good(Leaf("bool", "true"))
                        ELSE IF n.s \in Falses THEN Good(Leaf("bool", "false")) ELSE Bad
       [] t \in IntTypes -> IntD(t, n)
       [] t \in {"f32", "f64"} -> FloatD(t, n)
       [] t = "char" -> IF IsText(n) /\ IsOneChar(Text(n)) THEN Good(Leaf("char", Text(n))) ELSE Bad
       [] t = "str" -> IF IsText(n) THEN Good(Leaf("str", Text(n))) ELSE Bad
       [] t = "bytes" -> IF n.t \notin Sequence THEN Bad ELSE Together([i \in 1..Len(xs) |-> IntD("u8", xs[i])], "bytes", "")
       [] t \in {"unit", "ign"} -> Good(Leaf(t, ""))
       [] t = "ustruct" -> Good(Nk("ustruct", sc.k, <<>>))
       [] t = "any" -> Dump(n)
       [] t = "opt" -> IF n.t = "undef" THEN Bad ELSE IF n.t = "uq" /\ n.s \in Nulls THEN Good(Leaf("none", ""))
                       ELSE IF some.ok THEN Good(Nd("some", "", <<some.v>>)) ELSE Bad
       [] t = "nstruct" -> IF some.ok THEN Good(Nk("nstruct", sc.k, <<some.v>>)) ELSE Bad
       [] t = "seq" -> IF n.t \notin Sequence THEN Bad ELSE Together([i \in 1..Len(xs) |-> De(sc.c[1], xs[i])], "seq", "")
       [] t = "tuple" -> Firsts2(sc.c, n, "tuple", "")
       [] t = "tstruct" -> Firsts2(sc.c, n, "tstruct", sc.k)
       [] t = "map" -> IF n.t \notin Mapping THEN Bad
                       ELSE Together([i \in 1..Len(es) |-> IF key(es[i]).ok /\ val(es[i]).ok THEN Good(Nd("kv", "", <<key(es[i]).v, val(es[i]).v>>)) ELSE Bad], "map", "")
       [] t = "struct" -> Fields(sc.c, n, "struct", sc.k)
       [] OTHER -> IF IsText(n) THEN Variant(sc, Text(n), Uq("~"))
                   ELSE IF n.t \in Mapping /\ Len(es) = 1 THEN Variant(sc, es[1].k, Val(es[1])) ELSE Bad

(* what was read is what the specification says, as far as it knows how a float is shown *)
RECURSIVE SameValue(_, _)
SameValue(v, w) ==
  /\ v.t = w.t /\ v.k = w.k /\ Len(v.c) = Len(w.c)
  /\ (v.s = w.s \/ (v.t \in {"float", "f32", "f64"} /\ v.s = "?"))
  /\ \A i \in 1..Len(v.c) : SameValue(v.c[i], w.c[i])

(* ------------------------------ anchors --------------------------------- *)
(* The document with each anchor replaced by the value of the last alias of     *)
(* that name before it; an anchor without one becomes "undef". env: the names     *)
(* and values known so far.                                                          *)
LookUp(env, name) == LET is == {i \in 1..Len(env) : env[i][1] = name}
                     IN IF is = {} THEN Leaf("undef", name) ELSE env[CHOOSE i \in is : \A j \in is : j <= i][2]
RECURSIVE Resolve(_, _)
RECURSIVE ResolveAll(_, _)
ResolveAll(c, env) ==
  IF c = <<>> THEN [c |-> <<>>, env |-> env]
  ELSE LET one == TLCEval(Resolve(c[1], env))
           more == ResolveAll(Tail(c), one.env)
       IN [c |-> <<one.n>> \o more.c, env |-> more.env]
Resolve(n, env) ==
  LET r == TLCEval(ResolveAll(n.c, env))
  IN CASE n.t = "anch" -> [n |-> LookUp(env, n.s), env |-> env]
       [] n.t = "el" -> [n |-> [n EXCEPT !.c = r.c, !.a = ""], env |-> IF n.a = "" THEN r.env ELSE Append(r.env, <<n.a, r.c[1]>>)]
       [] n.t \in Collection \cup {"doc"} -> [n |-> [n EXCEPT !.c = r.c], env |-> r.env]
       [] OTHER -> [n |-> n, env |-> env]
Resolved(n) == Resolve(n, <<>>).n
RECURSIVE HasAnchors(_)
HasAnchors(n) == n.t = "anch" \/ \E i \in 1..Len(n.c) : HasAnchors(n.c[i])

(* ----------------------------- writing ---------------------------------- *)
(* Is n the tree of the value v? Strings may have any style that reads as that   *)
(* string, sequences may be of either kind.                                         *)
RECURSIVE KeyText(_, _)
KeyText(sc, v) == CASE sc.t = "nstruct" -> KeyText(sc.c[1], v.c[1])
                    [] sc.t = "opt" -> IF v.t = "none" THEN "~" ELSE KeyText(sc.c[1], v.c[1])
                    [] sc.t = "enum" -> v.k
                    [] sc.t \in {"unit", "ustruct"} -> "~"
                    [] OTHER -> v.s
StringNode(n, s) == IsText(n) /\ Text(n) = s /\ ScalarKind(n) = "str"
IsNull(n) == n.t = "uq" /\ n.s \in Nulls
RECURSIVE TreeOf(_, _, _)
SeqOf(n, k, One(_, _)) == n.t \in Sequence /\ LET xs == TLCEval(ItemsOf(n)) IN Len(xs) = k /\ \A i \in 1..k : One(i, xs[i])
MapOf(n, k, Key(_), One(_, _)) ==
  n.t = "bh" /\ LET es == TLCEval(Elements(n)) IN Len(es) = k /\ Len(n.c) = k /\ \A i \in 1..k : es[i].k = Key(i) /\ es[i].a = "" /\ One(i, Val(es[i]))
TreeOf(sc, v, n) ==
  LET t == sc.t
      var == sc.c[Index(sc.c, LAMBDA x : x.k = v.k)]
      content(x) == CASE var.t = "nv" -> TreeOf(var.c[1], v.c[1], x)
                      [] var.t = "tv" -> SeqOf(x, Len(var.c), LAMBDA i, y : TreeOf(var.c[i], v.c[i], y))
                      [] OTHER -> MapOf(x, Len(var.c), LAMBDA i : var.c[i].k, LAMBDA i, y : TreeOf(var.c[i].c[1], v.c[i].c[1], y))
  IN CASE t \in {"bool"} \cup IntTypes -> n = Uq(v.s)
       [] t \in {"f32", "f64"} -> n.t = "uq" /\ IsFloat(n.s)
       [] t \in {"char", "str"} -> StringNode(n, v.s)
       [] t \in {"unit", "ustruct"} -> IsNull(n)
       [] t = "opt" -> IF v.t = "none" THEN IsNull(n) ELSE TreeOf(sc.c[1], v.c[1], n)
       [] t = "nstruct" -> TreeOf(sc.c[1], v.c[1], n)
       [] t = "bytes" -> SeqOf(n, Len(v.c), LAMBDA i, x : x = Uq(v.c[i].s))
       [] t = "seq" -> SeqOf(n, Len(v.c), LAMBDA i, x : TreeOf(sc.c[1], v.c[i], x))
       [] t \in {"tuple", "tstruct"} -> SeqOf(n, Len(v.c), LAMBDA i, x : TreeOf(sc.c[i], v.c[i], x))
       [] t = "map" -> MapOf(n, Len(v.c), LAMBDA i : KeyText(sc.c[1], v.c[i].c[1]), LAMBDA i, x : TreeOf(sc.c[2], v.c[i].c[2], x))
       [] t = "struct" -> MapOf(n, Len(v.c), LAMBDA i : sc.c[i].k, LAMBDA i, x : TreeOf(sc.c[i].c[1], v.c[i].c[1], x))
       [] OTHER -> IF var.t = "uv" THEN StringNode(n, var.k) ELSE MapOf(n, 1, LAMBDA i : var.k, LAMBDA i, x : content(x))

(* ------------------- a value read without its type ---------------------- *)
(* Is x what reading the value v without a schema gives? Strings and characters  *)
(* are strings whatever they spell, names are typed as plain scalars.                *)
RECURSIVE Untyped(_, _, _)
SeqAs(x, k, One(_, _)) == x.t = "seq" /\ Len(x.c) = k /\ \A i \in 1..k : One(i, x.c[i])
MapAs(x, k, Key(_), One(_, _)) ==
  x.t = "map" /\ Len(x.c) = k /\ \A i \in 1..k : SameValue(Dump(Uq(Key(i))).v, x.c[i].c[1]) /\ One(i, x.c[i].c[2])
Untyped(sc, v, x) ==
  LET t == sc.t
      var == sc.c[Index(sc.c, LAMBDA y : y.k = v.k)]
      content(y) == CASE var.t = "nv" -> Untyped(var.c[1], v.c[1], y)
                      [] var.t = "tv" -> SeqAs(y, Len(var.c), LAMBDA i, z : Untyped(var.c[i], v.c[i], z))
                      [] OTHER -> MapAs(y, Len(var.c), LAMBDA i : var.c[i].k, LAMBDA i, z : Untyped(var.c[i].c[1], v.c[i].c[1], z))
  IN CASE t \in {"bool"} \cup IntTypes -> SameValue(Dump(Uq(v.s)).v, x)
       [] t \in {"f32", "f64"} -> x.t \in {"float", "int"}
       [] t \in {"char", "str"} -> x = Leaf("str", v.s)
       [] t \in {"unit", "ustruct"} -> x = Leaf("null", "")
       [] t = "opt" -> IF v.t = "none" THEN x = Leaf("null", "") ELSE Untyped(sc.c[1], v.c[1], x)
       [] t = "nstruct" -> Untyped(sc.c[1], v.c[1], x)
       [] t = "bytes" -> SeqAs(x, Len(v.c), LAMBDA i, y : y = Leaf("int", v.c[i].s))
       [] t = "seq" -> SeqAs(x, Len(v.c), LAMBDA i, y : Untyped(sc.c[1], v.c[i], y))
       [] t \in {"tuple", "tstruct"} -> SeqAs(x, Len(v.c), LAMBDA i, y : Untyped(sc.c[i], v.c[i], y))
       [] t = "map" -> MapAs(x, Len(v.c), LAMBDA i : KeyText(sc.c[1], v.c[i].c[1]), LAMBDA i, y : Untyped(sc.c[2], v.c[i].c[2], y))
       [] t = "struct" -> MapAs(x, Len(v.c), LAMBDA i : sc.c[i].k, LAMBDA i, y : Untyped(sc.c[i].c[1], v.c[i].c[1], y))
       [] OTHER -> IF var.t = "uv" THEN x = Leaf("str", var.k) ELSE MapAs(x, 1, LAMBDA i : var.k, LAMBDA i, y : content(y))
============================================================================
