-------------------------------- MODULE Real --------------------------------
(* IEEE 754 single and double values as byte tuples: classification, order    *)
(* and the conversions the typed reads and node accessors promise (rounding   *)
(* to nearest, ties to even).                                                 *)
EXTENDS Bytes

\* a format is the number of exponent bits and mantissa bits
FB == [e |-> 8, m |-> 23, n |-> 4]
DB == [e |-> 11, m |-> 52, n |-> 8]
BitsOf(v, f) == SubSeq(ToBits(v), 65 - 8 * f.n, 64)     \* v is always 8 bytes
MkReal(bits) == UExt(FromBits(bits))
AllOnes(s) == \A i \in 1..Len(s) : s[i] = 1
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0
Exp(b, f) == SubSeq(b, 2, 1 + f.e)
Man(b, f) == SubSeq(b, 2 + f.e, 1 + f.e + f.m)
IsNaN(v, f) == LET b == BitsOf(v, f) IN AllOnes(Exp(b, f)) /\ ~AllZero(Man(b, f))
IsZero(v, f) == AllZero(Tail(BitsOf(v, f)))
Neg(v, f) == BitsOf(v, f)[1] = 1

\* v <= w, neither being a NaN
RLe(v, w, f) ==
  LET z(x) == IsZero(x, f)
      mag(x) == FromBits(<<0>> \o Tail(BitsOf(x, f)))
  IN CASE z(v) /\ z(w) -> TRUE
       [] Neg(v, f) /\ ~Neg(w, f) -> TRUE
       [] ~Neg(v, f) /\ Neg(w, f) -> FALSE
       [] ~Neg(v, f) -> ULe(mag(v), mag(w))
       [] OTHER -> ULe(mag(w), mag(v))

\* same value as far as a caller can tell: any NaN will do for a NaN
RSame(v, w, f) == (IsNaN(v, f) /\ IsNaN(w, f)) \/ v = w

\* round a bit string "exponent ++ mantissa" given what follows it; the carry
\* out of the mantissa increments the exponent
Round(em, rest) ==
  IF rest = <<>> \/ rest[1] = 0 THEN em
  ELSE IF ~AllZero(Tail(rest)) \/ Last(em) = 1 THEN IncBits(em) ELSE em
Pad(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE s \o Rep(0, n - Len(s))
Bias(f) == 2^(f.e - 1) - 1

\* an unsigned 64-bit magnitude with a sign
MagToReal(neg, u, f) ==
  IF u = Zero8 THEN Zero8
  ELSE LET b == ToBits(u)
           k == Lead(b, 0) + 1            \* position of the leading one
           frac == SubSeq(b, k + 1, 64)
           em == IntToBits(Bias(f) + 64 - k, f.e) \o Pad(frac, f.m)
           rest == SubSeq(frac, f.m + 1, Len(frac))
       IN MkReal(<< IF neg THEN 1 ELSE 0 >> \o Round(em, rest))
IntToReal(tag, f) ==
  IF tag.t = "int" /\ IsNeg(tag.v) THEN MagToReal(TRUE, Neg8(tag.v), f) ELSE MagToReal(FALSE, tag.v, f)

FloatToDouble(v) ==
  LET b == BitsOf(v, FB)  s == << b[1] >>  x == BitsToInt(Exp(b, FB))  m == Man(b, FB)
  IN IF x = 255 THEN MkReal(s \o Rep(1, 11) \o Pad(m, 52))
     ELSE IF x = 0 THEN
       IF AllZero(m) THEN MkReal(s \o Rep(0, 63))
       ELSE LET k == Lead(m, 0) + 1
            IN MkReal(s \o IntToBits(1023 - 126 - k, 11) \o Pad(SubSeq(m, k + 1, 23), 52))
     ELSE MkReal(s \o IntToBits(x - 127 + 1023, 11) \o Pad(m, 52))
DoubleToFloat(v) ==
  LET b == BitsOf(v, DB)  s == << b[1] >>  x == BitsToInt(Exp(b, DB))  m == Man(b, DB)  y == x - 1023
  IN IF x = 2047 THEN MkReal(s \o Rep(1, 8) \o (IF AllZero(m) THEN Rep(0, 23) ELSE << 1 >> \o Rep(0, 22)))
     ELSE IF y > 127 THEN MkReal(s \o Rep(1, 8) \o Rep(0, 23))
     ELSE IF y >= -126 THEN MkReal(s \o Round(IntToBits(y + 127, 8) \o SubSeq(m, 1, 23), SubSeq(m, 24, 52)))
     ELSE IF y < -151 THEN MkReal(s \o Rep(0, 31))
     ELSE LET all == Rep(0, -126 - y - 1) \o << 1 >> \o m
          IN MkReal(s \o Round(Rep(0, 8) \o SubSeq(all, 1, 23), SubSeq(all, 24, Len(all))))
\* without double arithmetic a double is shortened to a neighbouring float:
\* truncation is as good as rounding, and a tiny value may become zero
RShort(r, v) ==
  LET b == BitsOf(v, DB)  x == BitsToInt(Exp(b, DB))  y == x - 1023
      trunc == MkReal(<< b[1] >> \o IntToBits(y + 127, 8) \o SubSeq(Man(b, DB), 1, 23))
  IN \/ y \in -126..127 /\ r = trunc
     \/ y < -126 /\ r = MkReal(<< b[1] >> \o Rep(0, 31))
     \/ IsNaN(v, DB) /\ IsNaN(r, FB)
\* the value of a number tag in format f
ToReal(tag, f) ==
  CASE tag.t \in {"int", "uint"} -> IntToReal(tag, f)
    [] tag.t = "float" -> IF f = FB THEN tag.v ELSE FloatToDouble(tag.v)
    [] tag.t = "double" -> IF f = DB THEN tag.v ELSE DoubleToFloat(tag.v)
=============================================================================
