-------------------------------- MODULE Utf8 --------------------------------
(* Well-formed UTF-8 exactly as tabulated in RFC 3629 / Unicode table 3-7.    *)
EXTENDS Bytes

Tail80 == 128..191
(* length of the well-formed sequence starting at position i, 0 if none *)
SeqLen(s, i) ==
  LET n == Len(s) - i + 1
      b == s[i]
      c(k) == s[i + k] \in Tail80
  IN CASE b < 128 -> 1
       [] b \in 194..223 -> IF n >= 2 /\ c(1) THEN 2 ELSE 0
       [] b = 224 -> IF n >= 3 /\ s[i+1] \in 160..191 /\ c(2) THEN 3 ELSE 0
       [] b \in 225..236 -> IF n >= 3 /\ c(1) /\ c(2) THEN 3 ELSE 0
       [] b = 237 -> IF n >= 3 /\ s[i+1] \in 128..159 /\ c(2) THEN 3 ELSE 0
       [] b \in 238..239 -> IF n >= 3 /\ c(1) /\ c(2) THEN 3 ELSE 0
       [] b = 240 -> IF n >= 4 /\ s[i+1] \in 144..191 /\ c(2) /\ c(3) THEN 4 ELSE 0
       [] b \in 241..243 -> IF n >= 4 /\ c(1) /\ c(2) /\ c(3) THEN 4 ELSE 0
       [] b = 244 -> IF n >= 4 /\ s[i+1] \in 128..143 /\ c(2) /\ c(3) THEN 4 ELSE 0
       [] OTHER -> 0
RECURSIVE Utf8From(_, _)
Utf8From(s, i) == i > Len(s) \/ (LET k == SeqLen(s, i) IN k > 0 /\ Utf8From(s, i + k))
Utf8Seq(s) == Utf8From(s, 1)
(* the same, position by position (linear to evaluate; equality in MCUtf8)    *)
IsTail(b) == b \in Tail80
IsUtf8(s) ==
  \A i \in 1..Len(s) :
    IF s[i] < 128 THEN TRUE
    ELSE IF IsTail(s[i]) THEN \E k \in 1..Min2(3, i - 1) : ~IsTail(s[i-k]) /\ SeqLen(s, i - k) > k
    ELSE SeqLen(s, i) > 0
NoNul(s) == \A i \in 1..Len(s) : s[i] # 0
=============================================================================
