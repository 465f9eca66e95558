----------------------------- MODULE RoundTrip ----------------------------
(* What formatting a document must give, and reading and formatting that.    *)
EXTENDS Judge, Layout

RoundTrip(n, rt) ==
  IfNot(rt.fmt.st = "ok", "C01", "formatting fails: " \o rt.fmt.st)
  \cup IfNot(rt.fmt.st = "ok" => rt.re.st = "ok", "C01", "the formatted text is not read: " \o rt.re.st)
  \cup IfNot(rt.re.st = "ok" => rt.re.n = n, "C01", "the formatted text is another document")
  \cup IfNot(rt.re.st = "ok" => rt.fmt2 = rt.fmt, "C01", "formatting again gives another text")
Canonical(n, rt) ==
  IfNot(rt.fmt.st = "ok", "C20", "formatting fails: " \o rt.fmt.st)
  \cup IfNot(rt.fmt.st = "ok" => rt.fmt.lines = Canon(n), "C20", "not the canonical text")

(* ------------------- what a text keeps of an edited tree ------------------ *)
RECURSIVE Data(_)
Data(n) ==
  LET c == SelectSeq(n.c, LAMBDA x : ~IsComment(x))
      kids == [x \in 1..Len(c) |-> Data(c[x])]
  IN CASE n.t = "bh" /\ c = <<>> -> Ih(<<>>)
       [] n.t = "ba" /\ c = <<>> -> Ia(<<>>)
       [] n.t \in Collection \cup {"el", "doc"} -> [n EXCEPT !.c = kids]
       [] n.t \in BlockScalar /\ n.c = <<>> -> Uq("")
       [] OTHER -> n
RECURSIVE Writable(_)
Writable(n) == (n.t = "el" /\ n.k # "" => IsKey(n.k)) /\ \A x \in 1..Len(n.c) : Writable(n.c[x])
WrittenBack(n, rt) ==
  IfNot(rt.fmt.st = "ok", "C11", "formatting fails: " \o rt.fmt.st)
  \cup IfNot(rt.fmt.st = "ok" => rt.re.st = "ok", "C11", "the formatted text is not read: " \o rt.re.st)
  \cup (IF rt.re.st = "ok"
        THEN IfNot(Data(rt.re.n) = Data(n), "C11", "other data is read back")
             \cup IfNot(Comments(rt.re.n) = Comments(n), "C11", "other comments are read back")
        ELSE {})
============================================================================
