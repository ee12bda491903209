-------------------------------- MODULE Print --------------------------------
(* The debug text of a message, as a sequence of character codes.             *)
EXTENDS Tree

SNull == << 110, 117, 108, 108 >>
STrue == << 116, 114, 117, 101 >>
SFalse == << 102, 97, 108, 115, 101 >>
SFloat == << 60, 102, 108, 111, 97, 116, 62 >>                       \* <float>
SDouble == << 60, 100, 111, 117, 98, 108, 101, 62 >>                 \* <double>
SInf == << 105, 110, 102 >>
SNan == << 110, 97, 110 >>
SBin == << 60, 98, 105, 110, 97, 114, 121, 32, 100, 97, 116, 97, 32, 111, 102, 32, 108, 101, 110, 103, 116, 104, 32 >>   \* <binary data of length
SExtOf == << 60, 101, 120, 116, 32, 100, 97, 116, 97, 32, 111, 102, 32, 116, 121, 112, 101, 32 >>                      \* <ext data of type
SAndLen == << 32, 97, 110, 100, 32, 108, 101, 110, 103, 116, 104, 32 >>  \* " and length "
SErr == << 10, 60, 109, 112, 97, 99, 107, 32, 112, 97, 114, 115, 105, 110, 103, 32, 101, 114, 114, 111, 114, 32 >>    \* \n<mpack parsing error
SExtra == << 32, 101, 120, 116, 114, 97, 32, 98, 121, 116, 101, 115, 32, 97, 116, 32, 101, 110, 100, 32, 111, 102, 32, 109, 101, 115, 115, 97, 103, 101, 62 >>
SInvalid == << 109, 112, 97, 99, 107, 95, 101, 114, 114, 111, 114, 95, 105, 110, 118, 97, 108, 105, 100 >>
SUnsupported == << 109, 112, 97, 99, 107, 95, 101, 114, 114, 111, 114, 95, 117, 110, 115, 117, 112, 112, 111, 114, 116, 101, 100 >>
SIo == << 109, 112, 97, 99, 107, 95, 101, 114, 114, 111, 114, 95, 105, 111 >>
SEof == << 109, 112, 97, 99, 107, 95, 101, 114, 114, 111, 114, 95, 101, 111, 102 >>

\* ---- numbers ----
\* decimal digits, least significant first, of a bit sequence
Dbl(ds, bit) ==
  LET r == FoldLeft(LAMBDA a, x : LET v == 2 * x + a.c IN [o |-> Append(a.o, v % 10), c |-> v \div 10], [o |-> <<>>, c |-> bit], ds)
  IN IF r.c > 0 THEN Append(r.o, r.c) ELSE r.o
Digits(bits) == FoldLeft(Dbl, <<>>, bits)
ToChars(ds) == [i \in 1..Len(ds) |-> 48 + ds[Len(ds) + 1 - i]]
DecU(v) == LET ds == Digits(ToBits(v)) IN IF ds = <<>> THEN << 48 >> ELSE ToChars(ds)
DecS(v) == IF IsNeg(v) THEN << 45 >> \o DecU(Neg8(v)) ELSE DecU(v)
DecI(n) == IF n < 0 THEN << 45 >> \o DecU(B8(-n)) ELSE DecU(B8(n))
\* six decimals, rounded to nearest, ties to even, of man * 2^k
Mul1000(bs) ==      \* bytes, least significant first
  LET r == FoldLeft(LAMBDA a, x : LET v == 1000 * x + a.c IN [o |-> Append(a.o, v % 256), c |-> v \div 256], [o |-> <<>>, c |-> 0], bs)
  IN r.o \o << r.c % 256, r.c \div 256 >>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Point(ds) == LET p == IF Len(ds) >= 7 THEN ds ELSE ds \o Rep(0, 7 - Len(ds))  c == ToChars(p) IN
             SubSeq(c, 1, Len(c) - 6) \o << 46 >> \o SubSeq(c, Len(c) - 5, Len(c))
Fixed6(man, k) ==   \* man: bits
  IF k >= 0 THEN LET ds == Digits(man \o Rep(0, k)) IN (IF ds = <<>> THEN << 48 >> ELSE ToChars(ds)) \o << 46, 48, 48, 48, 48, 48, 48 >>
  ELSE LET b == ToBits(Rev(Mul1000(Mul1000(Rev(FromBits(Rep(0, 64 - Len(man)) \o man))))))
           n == Len(b)
           s == -k
           q == IF s > n THEN <<>> ELSE Round(<< 0 >> \o SubSeq(b, 1, n - s), SubSeq(b, n - s + 1, n))
       IN Point(Digits(q))
RealText(v, f) ==
  LET b == BitsOf(v, f)  x == BitsToInt(Exp(b, f))  m == Man(b, f)
      sign == IF b[1] = 1 THEN << 45 >> ELSE <<>>
  IN IF AllOnes(Exp(b, f)) THEN sign \o SInf
     ELSE IF x = 0 THEN sign \o Fixed6(m, 1 - Bias(f) - f.m)
     ELSE sign \o Fixed6(<< 1 >> \o m, x - Bias(f) - f.m)

\* ---- elements ----
HexC(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Hex(_)
Hex(s) == IF s = <<>> THEN <<>> ELSE << HexC(s[1] \div 16), HexC(s[1] % 16) >> \o Hex(Tail(s))
Esc(c) == CASE c = 10 -> << 92, 110 >> [] c = 92 -> << 92, 92 >> [] c = 34 -> << 92, 34 >> [] OTHER -> << c >>
Escaped(s) == FoldLeft(LAMBDA a, c : a \o Esc(c), <<>>, s)
BlobText(head, s) ==
  head \o (IF s = <<>> THEN << 62 >>
           ELSE << 58, 32 >> \o Hex(Take(s, Min2(12, Len(s)))) \o (IF Len(s) > 12 THEN << 46, 46, 46 >> ELSE <<>>) \o << 62 >>)
ScalarText(h, tag, s) ==
  CASE tag.t = "nil" -> SNull
    [] tag.t = "bool" -> IF tag.v = B8(1) THEN STrue ELSE SFalse
    [] tag.t = "uint" -> DecU(tag.v)
    [] tag.t = "int" -> DecS(tag.v)
    [] tag.t = "float" -> IF h.flt THEN RealText(tag.v, FB) ELSE SFloat
    [] tag.t = "double" -> IF h.dbl THEN RealText(tag.v, DB) ELSE SDouble
    [] tag.t = "str" -> << 34 >> \o Escaped(s) \o << 34 >>
    [] tag.t = "bin" -> BlobText(SBin \o DecU(tag.v), s)
    [] tag.t = "ext" -> BlobText(SExtOf \o DecI(tag.x) \o SAndLen \o DecU(tag.v), s)
IsNanTag(tag) == (tag.t = "float" /\ IsNaN(tag.v, FB)) \/ (tag.t = "double" /\ IsNaN(tag.v, DB))
Ind(n) == Rep(32, 4 * n)
Opener(t) == IF t = "array" THEN << 91, 10 >> ELSE << 123, 10 >>
Closer(t) == IF t = "array" THEN << 93 >> ELSE << 125 >>
\* after an element: what follows it in its parent, and ends of parents
RECURSIVE Ended(_, _)
Ended(base, s) ==
  IF s.stk = <<>> THEN s
  ELSE LET n == Len(s.stk)  f == s.stk[n]  left == f.left - 1 IN
    IF f.t = "map" /\ ~f.val THEN [s EXCEPT !.stk[n].left = left, !.stk[n].val = TRUE, !.out = @ \o << 58, 32 >>]
    ELSE LET a == [s EXCEPT !.stk[n].left = left, !.stk[n].val = FALSE, !.out = @ \o (IF left > 0 THEN << 44, 10 >> ELSE << 10 >>)] IN
      IF left > 0 THEN a
      ELSE Ended(base, [a EXCEPT !.stk = Front(@), !.out = @ \o Ind(base + n - 1) \o Closer(f.t)])
PStep(h, base, s) ==
  LET d == DecodeAt(h.data, s.p, Len(h.data), h.ext)  q == s.p + d.n  n == Len(s.stk) IN
  IF d.k # "ok" THEN [s EXCEPT !.k = d.k]
  ELSE LET t == d.tag.t  c == TLen(d.tag)
           value == n > 0 /\ s.stk[n].val
           a == [s EXCEPT !.out = @ \o (IF value THEN <<>> ELSE Ind(base + n))]
       IN IF IsCompound(t) THEN
            LET left == Kids(t, c)
                o == [a EXCEPT !.p = q, !.out = @ \o Opener(t)]
                e == IF left > 0 THEN [o EXCEPT !.stk = Append(@, [t |-> t, left |-> left, val |-> FALSE])]
                     ELSE Ended(base, [o EXCEPT !.out = @ \o Ind(base + n) \o Closer(t)])
            IN IF e.stk = <<>> THEN [e EXCEPT !.k = "ok"] ELSE e
          ELSE IF HasBytes(t) /\ c > Len(h.data) - q THEN [s EXCEPT !.k = "short"]
          ELSE LET m == IF HasBytes(t) THEN c ELSE 0
                   txt == ScalarText(h, d.tag, SubSeq(h.data, q + 1, q + m))
                   e == Ended(base, [a EXCEPT !.p = q + m, !.out = @ \o txt, !.nan = @ \/ IsNanTag(d.tag)])
               IN IF e.stk = <<>> THEN [e EXCEPT !.k = "ok"] ELSE e
\* text of the message in h.data, indented from base; k: "ok" or the defect
TextOf(h, base) ==
  Loop(LAMBDA s : PStep(h, base, s), LAMBDA s : s.k # "run",
       [k |-> "run", p |-> 0, out |-> <<>>, stk |-> <<>>, nan |-> FALSE])

EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
ErrNames(k, file) ==
  CASE k = "short" -> IF file THEN {SIo, SEof} ELSE {SInvalid}
    [] k = "reserved" -> {SInvalid}
    [] k = "ext" -> {SUnsupported}
ExtraText(n) == IF n = 0 THEN <<>> ELSE << 10, 60 >> \o DecI(n) \o SExtra
\* raw data: what is missing or left over is stated at the end
RawOk(h, base, out, file) ==
  LET w == TextOf(h, base)
      extra == Len(h.data) - w.p
  IN IF w.k = "ok" THEN
       LET rest == Drop(out, Len(w.out)) IN
       /\ IsPrefixOf(w.out, out)
       \* a file only says what it had already read
       /\ IF file THEN rest = <<>> \/ \E n \in 1..extra : rest = ExtraText(n)
          ELSE rest = ExtraText(extra)
     ELSE \E e \in ErrNames(w.k, file) : IsPrefixOf(w.out, out) /\ EndsWith(out, SErr \o e \o << 62 >>)
\* a buffer: the longest prefix that fits, up to the first NUL
RECURSIVE UpToNul(_, _)
UpToNul(s, i) == IF i > Len(s) THEN s ELSE IF s[i] = 0 THEN Take(s, i - 1) ELSE UpToNul(s, i + 1)
BufOk(b, text) == b.z /\ b.s = UpToNul(Take(text, Min2(b.n - 1, Len(text))), 1)
PrintOk(h0, e) ==
  LET h == [h0 EXCEPT !.data = e.d]  w == TextOf(h, 0)  w2 == TextOf(h, 2)
      known == ~w.nan           \* how a NaN is written is up to the C library
  IN /\ known => /\ RawOk(h, 0, e.dt, FALSE)
                 /\ RawOk(h, 0, e.ft, TRUE)
                 /\ e.df # <<>> /\ Last(e.df) = 10 /\ RawOk(h, 2, Front(e.df), FALSE)
     /\ \A i \in 1..Len(e.db) : BufOk(e.db[i], e.dt)
     /\ e.tok = (w.k = "ok")
     /\ e.tok => /\ known => e.nt = w.out /\ e.nf = w2.out \o << 10 >>
                 /\ IsPrefixOf(e.nt, e.dt)
                 /\ \A i \in 1..Len(e.nb) : BufOk(e.nb[i], e.nt)
=============================================================================
