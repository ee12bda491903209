------------------------------- MODULE MCBuild -------------------------------
(* How arrays and maps of unknown size are kept until their sizes are known:  *)
(* a list of pages, each a header followed by build records and the bytes     *)
(* written after them, walked once the outermost is completed.  It refines    *)
(* the writer that knows nothing of pages (module Writer): whatever the fill  *)
(* level of the pages, walking them gives exactly what that writer puts out.  *)
(* The sizes of pages and records are those of a machine and a configuration; *)
(* TLC prints the shortest program to each fill level, with each next call.   *)
EXTENDS Writer, TLC, IOUtils

Hd == atoi(IOEnv.MC_HDR)         \* page header
Bd == atoi(IOEnv.MC_BUILD)       \* build record
Al == atoi(IOEnv.MC_ALIGN)       \* its alignment
Pg == atoi(IOEnv.MC_PAGE)        \* size of a page
P1 == atoi(IOEnv.MC_FIRST)       \* size of the first page
Full == IOEnv.MC_FULL = "1"
MinBuf == 32
Align(n) == ((n + Al - 1) \div Al) * Al
ASSUME P1 >= Align(Hd) + Bd + MinBuf /\ Pg >= Align(Hd) + Bd + MinBuf

\* ---- pages ----
\* cells of a page: bytes, -1 for headers and gaps, -10 - i for the record of build i
Page(size) == [size |-> size, used |-> Hd, cells |-> Rep(-1, Hd)]
Closed == [pages |-> <<>>, blds |-> <<>>, cur |-> 0, lat |-> 0]
P(b) == b.pages[Len(b.pages)]
SetP(b, p) == [b EXCEPT !.pages[Len(b.pages)] = p]
AddPage(b) == [b EXCEPT !.pages = Append(@, Page(Pg))]
\* the bytes written since the last time belong to the latest build
Apply(b) ==
  LET p == P(b) IN
  [SetP(b, [p EXCEPT !.used = Len(p.cells)]) EXCEPT !.blds[b.lat].bytes = @ + Len(p.cells) - p.used]
Left(b) == P(b).size - Len(P(b).cells)
Put(b, d) == SetP(b, [P(b) EXCEPT !.cells = @ \o d])
\* a tag is never split; data fills page after page
Tag(b, d) == Put(IF Left(b) < Len(d) THEN AddPage(Apply(b)) ELSE b, d)
Data(b, d) ==
  Loop(LAMBDA s : LET n == Min2(Left(s.b), Len(s.d))
                      c == Put(s.b, Take(s.d, n))
                      r == Drop(s.d, n)
                  IN [b |-> IF r = <<>> THEN c ELSE AddPage(Apply(c)), d |-> r],
       LAMBDA s : s.d = <<>>, [b |-> b, d |-> d]).b
Count(b) ==
  IF b.cur = 0 THEN b
  ELSE LET k == b.blds[b.cur] IN
    [b EXCEPT !.blds[b.cur] = IF k.t = "map" /\ ~k.key THEN [k EXCEPT !.key = TRUE] ELSE [k EXCEPT !.key = FALSE, !.cnt = @ + 1]]
Build(b0, t) ==
  LET b1 == IF b0.cur = 0 THEN [Closed EXCEPT !.pages = << Page(P1) >>] ELSE Apply(Count(b0))
      b == IF Align(P(b1).used) + Bd > P(b1).size THEN AddPage(b1) ELSE b1
      p == P(b)
      off == Align(p.used)
      i == Len(b.blds) + 1
      q == [p EXCEPT !.used = off + Bd, !.cells = @ \o Rep(-1, off - Len(p.cells)) \o << -10 - i >> \o Rep(-1, Bd - 1)]
      c == [SetP(b, q) EXCEPT !.blds = Append(@, [up |-> b.cur, bytes |-> 0, cnt |-> 0, t |-> t, key |-> FALSE]), !.cur = i, !.lat = i]
  IN IF q.size - q.used < MinBuf THEN AddPage(c) ELSE c
\* walking the pages: done is the output so far
Walk1(b, s) ==
  LET p == b.pages[s.p] IN
  IF s.left > 0 THEN
    LET n == Min2(p.used - s.off, s.left) IN
    IF n > 0 THEN [s EXCEPT !.done = @ \o SubSeq(p.cells, s.off + 1, s.off + n), !.off = @ + n, !.left = @ - n]
    ELSE [s EXCEPT !.p = @ + 1, !.off = Hd]
  ELSE LET off == Align(s.off) IN
    IF off + Bd > p.used THEN
      IF s.p = Len(b.pages) THEN [s EXCEPT !.end = TRUE] ELSE [s EXCEPT !.p = @ + 1, !.off = Hd]
    ELSE LET k == b.blds[-10 - p.cells[off + 1]] IN
      [s EXCEPT !.off = off + Bd, !.left = k.bytes,
                !.done = @ \o (IF k.t = "map" THEN EncMap(B4(k.cnt)) ELSE EncArray(B4(k.cnt)))]
Resolve(b) ==
  Loop(LAMBDA s : Walk1(b, s), LAMBDA s : s.end, [p |-> 1, off |-> Hd, left |-> 0, done |-> <<>>, end |-> FALSE]).done

\* ---- calls ----
\* text, pieces [k |-> tag or data, d], calls of the writer
Hx(n) == ToString(n)
Ta(d) == [k |-> "tag", d |-> d]
Da(d) == [k |-> "data", d |-> d]
C(t, ps, es) == [txt |-> << t >>, ps |-> ps, es |-> es, k |-> "elem"]
Bin(n) == LET d == Rep(97, n) IN C("bin r61*" \o Hx(n), << Ta(EncBinHdr(B4(n), 5)), Da(d) >>, << [op |-> "bin", d |-> d] >>)
Elems(b) ==
  {C("nil", << Ta(<<192>>) >>, << [op |-> "nil"] >>), C("u32 70000", << Ta(EncUint(B8(70000))) >>, << [op |-> "u32", v |-> B8(70000)] >>),
   C("ts -1 1", << Ta(EncTimestamp(Rep(255, 8), B4(1))) >>, << [op |-> "ts", s |-> Rep(255, 8), ns |-> B4(1)] >>)}
  \cup {Bin(n) : n \in {0, 1, 31, 33} \cup IF Full THEN {80, 200} ELSE {200}}
  \cup (IF b.cur = 0 THEN {} ELSE {Bin(Left(b) - 2 - k) : k \in {j \in (IF Full THEN 0..60 ELSE 0..9 \cup {15, 16} \cup 22..40) : Left(b) - 2 - j >= 0}})
MaxDepth == 3

h == [trk |-> TRUE, cap |-> -1, flush |-> TRUE, small |-> FALSE, eh |-> TRUE, sink |-> "flush", e0 |-> "ok"]
VARIABLES s, b, prog
vars == << s, b, prog >>
W(st, es) == FoldLeft(LAMBDA a, e : LET r == WOp(h, a.st, e) IN [st |-> r.st, errs |-> a.errs \cup r.errs], [st |-> st, errs |-> {}], es)
Depth == Len(s.stk)
Steps ==
  (IF b.cur = 0 THEN {} ELSE
    {[c |-> c, b |-> FoldLeft(LAMBDA x, q : IF q.k = "tag" THEN Tag(x, q.d) ELSE Data(x, q.d), Count(b), c.ps)] : c \in Elems(b)})
  \cup (IF Depth < MaxDepth THEN
    {[c |-> [C("b" \o (IF t = "map" THEN "map" ELSE "arr"), <<>>, << [op |-> IF t = "map" THEN "bmap" ELSE "barr"] >>) EXCEPT !.k = "open"],
      b |-> Build(b, t)] : t \in {"array", "map"}} ELSE {})
  \cup (IF b.cur # 0 /\ ~b.blds[b.cur].key THEN
    LET k == b.blds[b.cur]  o == IF k.t = "map" THEN "cmap" ELSE "carr"  x == Apply(b) IN
    {[c |-> [C(o, <<>>, << [op |-> o] >>) EXCEPT !.k = "close"], b |-> [x EXCEPT !.cur = k.up]]} ELSE {})
\* what the builder would give if everything open were completed now
RECURSIVE Finish(_, _)
Finish(st, x) ==
  IF x.cur = 0 THEN [out |-> st.out, res |-> Resolve(x), errs |-> {}]
  ELSE LET k == x.blds[x.cur]
           r == WOp(h, st, [op |-> IF k.t = "map" THEN "cmap" ELSE "carr"])
       IN IF r.errs # {} THEN [out |-> <<>>, res |-> <<>>, errs |-> r.errs]
          ELSE Finish(r.st, [Apply(x) EXCEPT !.cur = k.up])
RECURSIVE AllEven(_, _)
AllEven(x, i) == i = 0 \/ (~x.blds[i].key /\ AllEven(x, x.blds[i].up))
Sane(x) ==
  x.cur # 0 => /\ \A i \in 1..Len(x.pages) : x.pages[i].used <= Len(x.pages[i].cells) /\ Len(x.pages[i].cells) <= x.pages[i].size
               /\ (AllEven(x, x.cur) => Left(x) >= 0)
Init == s = WInit(h) /\ b = Closed /\ prog = <<>>
\* a program ends when the outermost is completed
Next ==
  /\ (prog = <<>> \/ b.cur # 0) /\ Len(prog) < (IF Full THEN 9 ELSE 7)
  /\ \E x \in Steps :
       LET a == W(s, x.c.es)  p == prog \o x.c.txt IN
       /\ PrintT(<< "PROG", p >>)
       /\ Assert(a.errs = {} /\ Sane(x.b), << "misuse", p >>)
       /\ Assert(AllEven(x.b, x.b.cur) => LET f == Finish(a.st, x.b) IN f.errs = {} /\ f.out = f.res, << "lost", p >>)
       /\ s' = a.st /\ b' = x.b /\ prog' = p
Spec == Init /\ [][Next]_vars
View == IF b.cur = 0 THEN << prog = <<>> >>
        ELSE << Left(b), Min2(Len(b.pages), 2), Depth, b.blds[b.cur].t, b.blds[b.cur].key, b.lat = b.cur, b.blds[b.lat].bytes = 0, Len(P(b).cells) = P(b).used >>
=============================================================================
