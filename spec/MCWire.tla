------------------------------- MODULE MCWire -------------------------------
(* The wire format against itself: for every boundary value the encoding is   *)
(* the smallest of all forms the format allows, every form decodes to the     *)
(* value, every proper prefix of a header is short; for every first byte what *)
(* is decoded encodes to something no longer that decodes to the same.        *)
EXTENDS Wire, TLC, IOUtils

\* 2^k as a 64-bit number
P2(k) == [i \in 1..8 |-> IF i = 8 - k \div 8 THEN 2 ^ (k % 8) ELSE 0]
RECURSIVE IncAt(_, _)
IncAt(a, i) == IF i = 0 THEN a ELSE IF a[i] < 255 THEN [a EXCEPT ![i] = @ + 1] ELSE IncAt([a EXCEPT ![i] = 0], i - 1)
RECURSIVE DecAt(_, _)
DecAt(a, i) == IF i = 0 THEN a ELSE IF a[i] > 0 THEN [a EXCEPT ![i] = @ - 1] ELSE DecAt([a EXCEPT ![i] = 255], i - 1)
Inc(a) == IncAt(a, Len(a))
Dec(a) == DecAt(a, Len(a))
Near(v) == {v, Inc(v), Dec(v), Inc(Inc(v)), Dec(Dec(v))}
Vals == UNION {Near(P2(k)) \cup Near(Neg8(P2(k))) : k \in 0..63} \cup {B8(n) : n \in 0..300}
        \cup {Neg8(B8(n)) : n \in 1..300} \cup {<<1,2,3,4,5,6,7,8>>, <<0,0,0,9,8,7,6,5>>, <<254,3,3,3,3,3,3,3>>}
Lens == {SubSeq(v, 5, 8) : v \in UNION {Near(P2(k)) : k \in 0..31} \cup {B8(n) : n \in 0..300}}

\* all forms
IntForms(v, s) ==     \* s: as a signed number
  LET u == ~s \/ ~IsNeg(v)  sg == s \/ ~IsNeg(v) IN
  {f \in {<< v[8] >>} : (u /\ FitsU(v, 1) /\ v[8] < 128) \/ (s /\ IsNeg(v) /\ FitsS(v, 1) /\ v[8] >= 224)}
  \cup (IF u THEN {<< 203 + (CASE n = 1 -> 1 [] n = 2 -> 2 [] n = 4 -> 3 [] n = 8 -> 4) >> \o SubSeq(v, 9 - n, 8) : n \in {m \in {1, 2, 4, 8} : FitsU(v, m)}} ELSE {})
  \cup (IF sg THEN {<< 207 + (CASE n = 1 -> 1 [] n = 2 -> 2 [] n = 4 -> 3 [] n = 8 -> 4) >> \o SubSeq(v, 9 - n, 8) : n \in {m \in {1, 2, 4, 8} : FitsS(v, m)}} ELSE {})
FitsL(n, k) == Lead(n, 0) >= 4 - k
LenForms(t, n, x) ==
  LET F(b, k) == IF FitsL(n, k) THEN {<< b >> \o SubSeq(n, 5 - k, 4)} ELSE {}
      Fix(base, m) == IF FitsL(n, 1) /\ n[4] < m THEN {<< base + n[4] >>} ELSE {}
      X(S) == {f \o << UByte(x) >> : f \in S}
  IN CASE t = "str" -> Fix(160, 32) \cup F(217, 1) \cup F(218, 2) \cup F(219, 4)
       [] t = "bin" -> F(196, 1) \cup F(197, 2) \cup F(198, 4)
       [] t = "array" -> Fix(144, 16) \cup F(220, 2) \cup F(221, 4)
       [] t = "map" -> Fix(128, 16) \cup F(222, 2) \cup F(223, 4)
       [] t = "ext" -> X(F(199, 1) \cup F(200, 2) \cup F(201, 4)
                         \cup (IF FitsL(n, 1) /\ n[4] \in {1, 2, 4, 8, 16}
                               THEN {<< 212 + (CASE n[4] = 1 -> 0 [] n[4] = 2 -> 1 [] n[4] = 4 -> 2 [] n[4] = 8 -> 3 [] n[4] = 16 -> 4) >>} ELSE {}))
Pads == {Rep(0, 9), Rep(255, 9), <<128>> \o Rep(0, 8), <<127>> \o Rep(255, 8), <<1,2,3,4,5,6,7,8,9>>, Rep(0, 3) \o Rep(1, 6)}
Secs == {B8(0), B8(1), Dec(P2(32)), P2(32), Inc(P2(32)), Dec(P2(34)), P2(34), P2(62), Dec(P2(63)), P2(63), Neg8(B8(1)), Neg8(P2(32)), <<0,0,0,3,1,2,3,4>>}
Nsec == {B4(0), B4(1), B4(2), B4(500000000), B4(999999998), B4(999999999), B4(123456789)}

VARIABLE c
Init ==
  \/ c \in [k : {"uint", "int"}, v : Vals]
  \/ c \in [k : {"str", "bin", "array", "map", "ext"}, n : Lens, x : {0, -1, -128, 127}]
  \/ c \in [k : {"byte"}, b : 0..255, p : Pads]
  \/ c \in [k : {"ts"}, s : Secs, ns : Nsec]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Decodes(f, tag) ==
  LET d == DecodeAt(f, 0, Len(f), TRUE) IN
  /\ d.k = "ok" /\ d.n = Len(f) /\ Norm(d.tag) = Norm(tag)
  /\ \A m \in 0..(Len(f) - 1) : LET e == DecodeAt(f, 0, m, TRUE) IN e.k = "short" /\ e.n > m /\ e.n <= Len(f)
Best(enc, forms, tag) == /\ enc \in forms
                         /\ \A f \in forms : Decodes(f, tag) /\ Len(enc) <= Len(f)
TsForms(s, ns) ==
  (IF Lead(s, 0) >= 4 /\ ns = Zero4 THEN {<< 214, 255 >> \o SubSeq(s, 5, 8)} ELSE {})
  \cup (IF Lead(s, 0) >= 4 \/ (Lead(s, 0) = 3 /\ s[4] < 4)
        THEN {<< 215, 255 >> \o FromBits(SubSeq(ToBits(ns), 3, 32) \o SubSeq(ToBits(s), 31, 64))} ELSE {})
  \cup {<< 199, 12, 255 >> \o ns \o s}
Right ==
  CASE c.k = "uint" -> Best(EncUint(c.v), IntForms(c.v, FALSE), TagOf("uint", c.v))
    [] c.k = "int" -> Best(EncInt(c.v), IntForms(c.v, TRUE), TagOf("int", c.v))
    [] c.k \in {"str", "bin", "array", "map", "ext"} ->
         LET tag == [t |-> c.k, v |-> UExt(c.n), x |-> IF c.k = "ext" THEN c.x ELSE 0] IN
         Best(EncTag(tag, 5), LenForms(c.k, c.n, c.x), tag)
    [] c.k = "byte" ->
         LET d == DecodeAt(<< c.b >> \o c.p, 0, 10, TRUE)
             o == DecodeAt(<< c.b >> \o c.p, 0, 10, FALSE) IN
         /\ (d.k = "reserved") = (c.b = 193)
         /\ IF IsExtByte(c.b) THEN o.k = "ext" ELSE o = d
         /\ d.k # "reserved" => LET f == EncTag(d.tag, 5) IN Len(f) <= d.n /\ Decodes(f, d.tag)
    [] c.k = "ts" ->
         /\ EncTimestamp(c.s, c.ns) \in TsForms(c.s, c.ns)
         /\ \A f \in TsForms(c.s, c.ns) :
              LET t == DecTimestamp(SubSeq(f, HdrSize(f[1]) + 1, Len(f))) IN
              t.ok /\ t.s = c.s /\ t.ns = c.ns /\ Len(EncTimestamp(c.s, c.ns)) <= Len(f)
=============================================================================
