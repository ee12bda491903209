-------------------------------- MODULE MCFill --------------------------------
(* A reader with a buffer in front of its source, refining the reader without *)
(* one: the source delivers a few bytes at a time or many, and the buffer is  *)
(* as small as allowed.  A first object leaves the buffer at every level, the *)
(* second is read, skipped, discarded or used in place, at sizes around those *)
(* that matter, whole or in two parts, and the input may end early.  After    *)
(* every call the bytes delivered and still in the buffer are the next ones   *)
(* of the input, what the caller got is what is there, and an error is raised *)
(* exactly when the input is too short or the buffer too small.  The cases    *)
(* are printed and run on the code.                                           *)
EXTENDS Wire, TLC, IOUtils

Cap == 32
Full == IOEnv.MC_FULL = "1"
As == IF Full THEN 0..34 ELSE {0, 1, 2, 13, 14, 20, 26, 27, 28, 29, 30, 31, 33}
Ns == IF Full THEN 0..70 \cup {94, 95, 96, 97, 98, 128, 129} ELSE {0, 1, 2, 3, 4, 28, 29, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 97}
Ops == {"bytes", "skip", "inplace", "discard", "two"}
Chs == {1, 7, 32, 1000}
ObjKinds == {"bin8", "bin32", "str"}

Body(n, v) == [i \in 1..n |-> (v + i) % 128]
ObjOf(kind, n) ==
  CASE kind = "bin8" -> << 196, n >> \o Body(n, 0)
    [] kind = "bin32" -> << 198, 0, 0, 0, n >> \o Body(n, 0)
    [] kind = "str" -> << 217, n >> \o Body(n, 0)
Input(c) == << 196, c.a >> \o Body(c.a, 40) \o ObjOf(c.kind, c.n) \o << 192, 205, 1, 2 >>
HdrOf(kind) == IF kind = "bin32" THEN 5 ELSE 2

\* ---- the buffered reader ----
\* x: input S, buf, src (bytes taken from the source), pos (consumed), ch, sk
\* (a skip function exists), err, got (what the last call returned)
\* as many reads as needed for at least min bytes into room for max
RECURSIVE FillMore(_, _, _, _, _)
FillMore(S, src, ch, g, m) ==
  IF g >= m.min THEN g
  ELSE LET k == Min2(ch, Min2(m.max - g, Len(S) - src - g)) IN
       IF k = 0 THEN -1 ELSE FillMore(S, src, ch, g + k, m)
Fill(x, min, max) == FillMore(x.S, x.src, x.ch, 0, [min |-> min, max |-> max])
Fail(x, e) == [x EXCEPT !.err = e]
Ensure(x, n) ==
  IF n <= Len(x.buf) THEN x
  ELSE IF n > Cap THEN Fail(x, "too_big")
  ELSE LET g == Fill(x, n - Len(x.buf), Cap - Len(x.buf)) IN
       IF g < 0 THEN Fail(x, "io")
       ELSE [x EXCEPT !.buf = @ \o SubSeq(x.S, x.src + 1, x.src + g), !.src = @ + g]
Consume(x, n) == [x EXCEPT !.got = Take(x.buf, n), !.buf = Drop(@, n), !.pos = @ + n]
TakeN(x, n) == LET y == Ensure(x, n) IN IF y.err # "ok" THEN y ELSE Consume(y, n)
Header(x) ==
  LET y == Ensure(x, 1) IN IF y.err # "ok" THEN y ELSE TakeN(y, HdrSize(y.buf[1]))
Copy(x, n) ==
  IF n <= Len(x.buf) THEN Consume(x, n)
  ELSE LET have == x.buf  rest == n - Len(x.buf)  e == [x EXCEPT !.buf = <<>>] IN
    IF rest <= Cap \div 32 THEN
      LET g == Fill(e, rest, Cap) IN
      IF g < 0 THEN Fail(x, "io")
      ELSE LET b == SubSeq(x.S, x.src + 1, x.src + g) IN
           [e EXCEPT !.got = have \o Take(b, rest), !.buf = Drop(b, rest), !.src = @ + g, !.pos = @ + n]
    ELSE IF Fill(e, rest, rest) < 0 THEN Fail(x, "io")
    ELSE [e EXCEPT !.got = have \o SubSeq(x.S, x.src + 1, x.src + rest), !.src = @ + rest, !.pos = @ + n]
RECURSIVE SkipFill(_, _)
SkipFill(x, n) ==
  IF n > Cap THEN IF Fill(x, Cap, Cap) < 0 THEN Fail(x, "io") ELSE SkipFill([x EXCEPT !.src = @ + Cap, !.pos = @ + Cap], n - Cap)
  ELSE LET g == Fill(x, n, Cap) IN
       IF g < 0 THEN Fail(x, "io")
       ELSE [x EXCEPT !.buf = SubSeq(x.S, x.src + n + 1, x.src + g), !.src = @ + g, !.pos = @ + n]
Skip(x, n) ==
  IF n <= Len(x.buf) THEN Consume(x, n)
  ELSE LET rest == n - Len(x.buf)  e == [x EXCEPT !.buf = <<>>, !.pos = @ + Len(x.buf), !.got = <<>>] IN
    IF x.sk /\ rest > Cap \div 16 THEN
      IF rest > Len(x.S) - x.src THEN Fail(x, "io") ELSE [e EXCEPT !.src = @ + rest, !.pos = @ + rest]
    ELSE SkipFill(e, rest)
Discard(x) == LET y == Header(x) IN IF y.err # "ok" THEN y ELSE Skip(y, x.c.n)

Calls(c) ==
  << "tag", "bytes1" >> \o
  (CASE c.op = "discard" -> << "discard" >> [] c.op = "two" -> << "tag", "half", "other" >> [] OTHER -> << "tag", c.op >>)
  \o << "tag", "tag" >>
\* one call: how far it goes and whether its bytes are wanted
Len1(x, o) ==
  CASE o = "tag" -> IF x.pos >= Len(x.S) THEN 1 ELSE HdrSize(x.S[x.pos + 1])
    [] o = "bytes1" -> x.c.a
    [] o = "half" -> x.c.n \div 3
    [] o = "other" -> x.c.n - x.c.n \div 3
    [] o = "discard" -> HdrOf(x.c.kind) + x.c.n
    [] OTHER -> x.c.n
Run(x, o) ==
  CASE o = "tag" -> Header(x)
    [] o \in {"bytes1", "bytes", "half"} -> Copy(x, Len1(x, o))
    [] o = "other" -> Copy(x, Len1(x, o))
    [] o = "skip" -> Skip(x, x.c.n)
    [] o = "inplace" -> TakeN(x, x.c.n)
    [] o = "discard" -> Discard(x)

VARIABLES x, todo
vars == << x, todo >>
Start(c) == [c |-> c, S |-> Take(Input(c), Len(Input(c)) - c.cut), buf |-> <<>>, src |-> 0, pos |-> 0, ch |-> c.ch, sk |-> c.sk, err |-> "ok", got |-> <<>>]
Init == /\ x \in [a : As, kind : ObjKinds] /\ todo = << "choose" >>
Begin == /\ todo = << "choose" >>
         /\ \E n \in Ns, op \in Ops, ch \in Chs, sk \in BOOLEAN, cut \in {0, 1, 5, 6} :
              LET c == [a |-> x.a, kind |-> x.kind, n |-> n, op |-> op, ch |-> ch, sk |-> sk, cut |-> cut] IN
              /\ (sk => op \in {"skip", "discard"})
              /\ (Full \/ ch # 7 \/ op = "bytes") /\ (Full \/ cut # 6 \/ ch = 32)
              /\ PrintT(<< "PROG", << ToString(c.a), c.kind, ToString(n), op, ToString(ch), IF sk THEN "1" ELSE "0", ToString(cut) >> >>)
              /\ x' = Start(c) /\ todo' = Calls(c)
Step == /\ todo # <<>> /\ todo # << "choose" >> /\ x.err = "ok"
        /\ LET o == Head(todo)  n == Len1(x, o)  y == Run(x, o) IN
           /\ Assert(y.err = (IF o = "inplace" /\ n > Cap THEN "too_big" ELSE IF x.pos + n > Len(x.S) THEN "io" ELSE "ok"), << x, o, y >>)
           /\ Assert(y.err = "ok" => /\ y.pos = x.pos + n
                                     /\ (o \notin {"skip", "discard", "tag"} => y.got = SubSeq(x.S, x.pos + 1, x.pos + n)), << x, o, y >>)
           /\ x' = y /\ todo' = Tail(todo)
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars

Refines ==
  todo # << "choose" >> =>
    /\ x.src = x.pos + Len(x.buf) /\ Len(x.buf) <= Cap
    /\ x.buf = SubSeq(x.S, x.pos + 1, x.src)
===============================================================================
