------------------------------- MODULE Bytes -------------------------------
(* Numbers as big-endian byte tuples.  TLC integers are 32 bit, MessagePack   *)
(* numbers are up to 64 bit, so every 64-bit number is an 8-tuple of bytes    *)
(* (two's complement when signed) and every 32-bit length is a 4-tuple.       *)
EXTENDS Integers, Sequences, SequencesExt

MaxInt == 2147483647
Byte == 0..255

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Rep(b, n) == [i \in 1..n |-> b]
Zero8 == Rep(0, 8)
Zero4 == Rep(0, 4)

(* the first n elements / everything after the first n elements *)
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* A loop: step taken from s until fin holds.  Sixty-four steps at a time are  *)
(* folded, which TLC evaluates far faster than a deep recursion; step must    *)
(* leave a finished s alone.                                                  *)
C64 == [i \in 1..64 |-> i]
RECURSIVE Loop(_, _, _)
Loop(step(_), fin(_), s) ==
  IF fin(s) THEN s ELSE Loop(step, fin, FoldLeft(LAMBDA a, i : IF fin(a) THEN a ELSE step(a), s, C64))

(* number of leading elements of s equal to b *)
RECURSIVE LeadFrom(_, _, _)
LeadFrom(s, b, i) == IF i > Len(s) THEN i - 1
                     ELSE IF s[i] = b THEN LeadFrom(s, b, i + 1) ELSE i - 1
Lead(s, b) == LeadFrom(s, b, 1)

(* unsigned comparison of equally long tuples *)
RECURSIVE ULtFrom(_, _, _)
ULtFrom(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] = b[i] THEN ULtFrom(a, b, i + 1) ELSE a[i] < b[i]
ULt(a, b) == ULtFrom(a, b, 1)
ULe(a, b) == ~ULt(b, a)

(* signed comparison: flip the sign bit *)
Flip(a) == [a EXCEPT ![1] = (@ + 128) % 256]
SLt(a, b) == ULt(Flip(a), Flip(b))
SLe(a, b) == ~SLt(b, a)
IsNeg(a) == a[1] >= 128

(* widening of an n-tuple to 8 bytes *)
UExt(a) == Rep(0, 8 - Len(a)) \o a
SExt(a) == Rep(IF a[1] >= 128 THEN 255 ELSE 0, 8 - Len(a)) \o a

(* unsigned value of a tuple as a (saturated) TLC integer *)
ToInt(a) ==
  LET n == Len(a)
      z == Lead(a, 0)
      s == n - z         \* significant bytes
  IN IF s = 0 THEN 0
     ELSE IF s > 4 THEN MaxInt
     ELSE IF s = 4 THEN
            IF a[n-3] >= 128 THEN MaxInt
            ELSE ((a[n-3] * 256 + a[n-2]) * 256 + a[n-1]) * 256 + a[n]
     ELSE IF s = 3 THEN (a[n-2] * 256 + a[n-1]) * 256 + a[n]
     ELSE IF s = 2 THEN a[n-1] * 256 + a[n]
     ELSE a[n]

(* a non-negative TLC integer as a 4-tuple / 2-tuple / 8-tuple *)
B4(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
B2(n) == << (n \div 256) % 256, n % 256 >>
B8(n) == Zero4 \o B4(n)

(* signed byte as a TLC integer and back *)
SByte(b) == IF b >= 128 THEN b - 256 ELSE b
UByte(i) == IF i < 0 THEN i + 256 ELSE i

(* representability of a 64-bit number in n bytes (n \in {1,2,4,8}) *)
FitsU(u, n) == Lead(u, 0) >= 8 - n                       \* unsigned in n bytes
FitsS(i, n) ==                                          \* signed in n bytes
  IF IsNeg(i) THEN Lead(i, 255) >= 8 - n /\ i[9 - n] >= 128
              ELSE Lead(i, 0) >= 8 - n /\ i[9 - n] < 128

(* bits, most significant first *)
Bits8(b) == << b \div 128, (b \div 64) % 2, (b \div 32) % 2, (b \div 16) % 2,
               (b \div 8) % 2, (b \div 4) % 2, (b \div 2) % 2, b % 2 >>
RECURSIVE ToBits(_)
ToBits(s) == IF s = <<>> THEN <<>> ELSE Bits8(Head(s)) \o ToBits(Tail(s))
RECURSIVE FromBits(_)
FromBits(s) == IF s = <<>> THEN <<>>
  ELSE << ((((((s[1]*2 + s[2])*2 + s[3])*2 + s[4])*2 + s[5])*2 + s[6])*2 + s[7])*2 + s[8] >>
       \o FromBits(SubSeq(s, 9, Len(s)))
RECURSIVE BitsToInt(_)
BitsToInt(s) == IF s = <<>> THEN 0 ELSE 2 * BitsToInt(Front(s)) + Last(s)
RECURSIVE IntToBits(_, _)
IntToBits(n, w) == IF w = 0 THEN <<>> ELSE Append(IntToBits(n \div 2, w - 1), n % 2)
(* increment of a bit sequence, dropping the final carry *)
RECURSIVE IncBits(_)
IncBits(s) == IF s = <<>> THEN <<>>
  ELSE IF Last(s) = 0 THEN Append(Front(s), 1) ELSE Append(IncBits(Front(s)), 0)
(* two's complement negation of an 8-tuple *)
Neg8(a) == FromBits(IncBits([i \in 1..64 |-> 1 - ToBits(a)[i]]))
=============================================================================
