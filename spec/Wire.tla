-------------------------------- MODULE Wire --------------------------------
(* The MessagePack wire format: encoding in the smallest form, and decoding   *)
(* of a header.  A tag is a record [t, v, x]: kind, 8-byte value (number,     *)
(* bits of a real, 0/1, length or count) and extension type.                  *)
EXTENDS Bytes

Kinds == {"missing","nil","bool","int","uint","float","double","str","bin","ext","array","map"}
TagOf(t, v) == [t |-> t, v |-> v, x |-> 0]
NilTag == TagOf("nil", Zero8)
TLen(tag) == ToInt(tag.v)          \* length or count, saturated
HasBytes(t) == t \in {"str","bin","ext"}
IsCompound(t) == t \in {"array","map"}

(* ---- encoding: always the smallest form ---- *)
EncUint(u) ==
  LET z == Lead(u, 0) IN
  IF z >= 7 /\ u[8] < 128 THEN << u[8] >>
  ELSE IF z >= 7 THEN << 204, u[8] >>
  ELSE IF z >= 6 THEN << 205 >> \o SubSeq(u, 7, 8)
  ELSE IF z >= 4 THEN << 206 >> \o SubSeq(u, 5, 8)
  ELSE << 207 >> \o u

EncInt(i) ==
  IF ~IsNeg(i) THEN EncUint(i)
  ELSE IF FitsS(i, 1) THEN (IF i[8] >= 224 THEN << i[8] >> ELSE << 208, i[8] >>)
  ELSE IF FitsS(i, 2) THEN << 209 >> \o SubSeq(i, 7, 8)
  ELSE IF FitsS(i, 4) THEN << 210 >> \o SubSeq(i, 5, 8)
  ELSE << 211 >> \o i

(* n is a 4-tuple *)
EncArray(n) == LET z == Lead(n, 0) IN
  IF z >= 3 /\ n[4] < 16 THEN << 144 + n[4] >>
  ELSE IF z >= 2 THEN << 220 >> \o SubSeq(n, 3, 4) ELSE << 221 >> \o n
EncMap(n) == LET z == Lead(n, 0) IN
  IF z >= 3 /\ n[4] < 16 THEN << 128 + n[4] >>
  ELSE IF z >= 2 THEN << 222 >> \o SubSeq(n, 3, 4) ELSE << 223 >> \o n
EncStrHdr(n, ver) == LET z == Lead(n, 0) IN
  IF z >= 3 /\ n[4] < 32 THEN << 160 + n[4] >>
  ELSE IF z >= 3 /\ ver >= 5 THEN << 217, n[4] >>
  ELSE IF z >= 2 THEN << 218 >> \o SubSeq(n, 3, 4) ELSE << 219 >> \o n
EncBinHdr(n, ver) == LET z == Lead(n, 0) IN
  IF ver < 5 THEN EncStrHdr(n, ver)          \* the old raw
  ELSE IF z >= 3 THEN << 196, n[4] >>
  ELSE IF z >= 2 THEN << 197 >> \o SubSeq(n, 3, 4) ELSE << 198 >> \o n
EncExtHdr(x, n) == LET z == Lead(n, 0)  k == UByte(x) IN
  IF z >= 3 /\ n[4] = 1 THEN << 212, k >>
  ELSE IF z >= 3 /\ n[4] = 2 THEN << 213, k >>
  ELSE IF z >= 3 /\ n[4] = 4 THEN << 214, k >>
  ELSE IF z >= 3 /\ n[4] = 8 THEN << 215, k >>
  ELSE IF z >= 3 /\ n[4] = 16 THEN << 216, k >>
  ELSE IF z >= 3 THEN << 199, n[4], k >>
  ELSE IF z >= 2 THEN << 200 >> \o SubSeq(n, 3, 4) \o << k >>
  ELSE << 201 >> \o n \o << k >>
EncBool(b) == << IF b THEN 195 ELSE 194 >>

(* header encoding of any tag *)
EncTag(tag, ver) ==
  CASE tag.t = "nil" -> << 192 >>
    [] tag.t = "bool" -> EncBool(tag.v[8] = 1)
    [] tag.t = "int" -> EncInt(tag.v)
    [] tag.t = "uint" -> EncUint(tag.v)
    [] tag.t = "float" -> << 202 >> \o SubSeq(tag.v, 5, 8)
    [] tag.t = "double" -> << 203 >> \o tag.v
    [] tag.t = "str" -> EncStrHdr(SubSeq(tag.v, 5, 8), ver)
    [] tag.t = "bin" -> EncBinHdr(SubSeq(tag.v, 5, 8), ver)
    [] tag.t = "ext" -> EncExtHdr(tag.x, SubSeq(tag.v, 5, 8))
    [] tag.t = "array" -> EncArray(SubSeq(tag.v, 5, 8))
    [] tag.t = "map" -> EncMap(SubSeq(tag.v, 5, 8))

(* ---- timestamps: extension type -1 ---- *)
NsOk(ns) == ULe(ns, << 59, 154, 201, 255 >>)         \* 999999999
(* seconds (8-tuple, signed), nanoseconds (4-tuple) *)
EncTimestamp(s, ns) ==
  IF IsNeg(s) \/ ~(Lead(s, 0) >= 4 \/ (Lead(s, 0) >= 3 /\ s[4] < 4))
    THEN << 199, 12, 255 >> \o ns \o s
  ELSE IF Lead(s, 0) >= 4 /\ ns = Zero4 THEN << 214, 255 >> \o SubSeq(s, 5, 8)
  ELSE \* 30 bits of nanoseconds followed by 34 bits of seconds
    << 215, 255 >> \o FromBits(SubSeq(ToBits(ns), 3, 32) \o SubSeq(ToBits(s), 31, 64))
(* payload of an extension -> seconds and nanoseconds *)
DecTimestamp(p) ==
  CASE Len(p) = 4 -> [ok |-> TRUE, s |-> UExt(p), ns |-> Zero4]
    [] Len(p) = 8 ->
         LET b == ToBits(p)
             ns == FromBits(<<0, 0>> \o SubSeq(b, 1, 30))
             s == FromBits(Rep(0, 30) \o SubSeq(b, 31, 64))
         IN [ok |-> NsOk(ns), s |-> s, ns |-> ns]
    [] Len(p) = 12 -> [ok |-> NsOk(SubSeq(p, 1, 4)), s |-> SubSeq(p, 5, 12), ns |-> SubSeq(p, 1, 4)]
    [] OTHER -> [ok |-> FALSE, s |-> Zero8, ns |-> Zero4]

(* ---- decoding ---- *)
(* size of the header that starts with byte b (0: reserved) *)
HdrSize(b) ==
  CASE b < 192 \/ b >= 224 \/ b \in {192, 194, 195} -> 1
    [] b = 193 -> 0
    [] b \in {196, 204, 208, 217} -> 2
    [] b \in {212, 213, 214, 215, 216} -> 2
    [] b \in {197, 205, 209, 218, 220, 222, 199} -> 3
    [] b = 200 -> 4
    [] b \in {198, 202, 206, 210, 219, 221, 223} -> 5
    [] b = 201 -> 6
    [] b \in {203, 207, 211} -> 9
IsExtByte(b) == b \in {199, 200, 201} \cup 212..216

(* the tag denoted by a complete header h *)
DecHdr(h) ==
  LET b == h[1] IN
  CASE b < 128 -> TagOf("uint", B8(b))
    [] b < 144 -> TagOf("map", B8(b - 128))
    [] b < 160 -> TagOf("array", B8(b - 144))
    [] b < 192 -> TagOf("str", B8(b - 160))
    [] b = 192 -> NilTag
    [] b = 194 -> TagOf("bool", B8(0))
    [] b = 195 -> TagOf("bool", B8(1))
    [] b \in 196..198 -> TagOf("bin", UExt(Drop(h, 1)))
    [] b \in 199..201 -> [t |-> "ext", v |-> UExt(SubSeq(h, 2, Len(h) - 1)), x |-> SByte(Last(h))]
    [] b = 202 -> TagOf("float", Zero4 \o Drop(h, 1))
    [] b = 203 -> TagOf("double", Drop(h, 1))
    [] b \in 204..207 -> TagOf("uint", UExt(Drop(h, 1)))
    [] b \in 208..211 -> TagOf("int", SExt(Drop(h, 1)))
    [] b \in 212..216 -> [t |-> "ext", v |-> B8(2^(b - 212)), x |-> SByte(h[2])]
    [] b \in 217..219 -> TagOf("str", UExt(Drop(h, 1)))
    [] b \in 220..221 -> TagOf("array", UExt(Drop(h, 1)))
    [] b \in 222..223 -> TagOf("map", UExt(Drop(h, 1)))
    [] b >= 224 -> TagOf("int", SExt(<< b >>))

(* header at offset p (0-based) of data whose readable length is lim:         *)
(*   k = "ok" (tag, n), "short" (need n bytes), "reserved", "ext" (disabled)  *)
DecodeAt(data, p, lim, extOn) ==
  IF p >= lim THEN [k |-> "short", n |-> 1, tag |-> NilTag]
  ELSE LET b == data[p + 1]  n == HdrSize(b) IN
    IF n = 0 THEN [k |-> "reserved", n |-> 1, tag |-> NilTag]
    ELSE IF IsExtByte(b) /\ ~extOn THEN [k |-> "ext", n |-> 1, tag |-> NilTag]
    ELSE IF p + n > lim THEN [k |-> "short", n |-> n, tag |-> NilTag]
    ELSE [k |-> "ok", n |-> n, tag |-> DecHdr(SubSeq(data, p + 1, p + n))]

(* saturated sum, and the number of objects in a compound of count c *)
SatAdd(a, b) == IF b >= MaxInt - a THEN MaxInt ELSE a + b
Kids(t, c) == CASE t = "array" -> c [] t = "map" -> SatAdd(c, c) [] OTHER -> 0

(* integers compare by value: a non-negative signed one is the unsigned one *)
Norm(tag) == IF tag.t = "int" /\ ~IsNeg(tag.v) THEN [tag EXCEPT !.t = "uint"] ELSE tag

(* ---- whole objects ---- *)
(* Walk n objects from offset p.  Result: k, end offset, number of tags read. *)
(* "need" counts objects still to be read; compound counts are added to it.   *)
WStep1(data, lim, extOn, s) ==
  LET d == DecodeAt(data, s.p, lim, extOn) IN
  IF d.k # "ok" THEN [s EXCEPT !.k = d.k]
  ELSE LET t == d.tag.t  c == TLen(d.tag)  q == s.p + d.n IN
    IF HasBytes(t) THEN
      IF c > lim - q THEN [s EXCEPT !.k = "short", !.p = q] ELSE [s EXCEPT !.p = q + c, !.need = @ - 1]
    ELSE [s EXCEPT !.p = q, !.need = SatAdd(@ - 1, Kids(t, c))]
Walk(data, p, lim, need, extOn) ==
  LET w == Loop(LAMBDA s : WStep1(data, lim, extOn, s), LAMBDA s : s.k # "run" \/ s.need = 0,
                [k |-> "run", p |-> p, need |-> need])
  IN [k |-> IF w.k = "run" THEN "ok" ELSE w.k, p |-> w.p]
=============================================================================
