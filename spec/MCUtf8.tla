------------------------------- MODULE MCUtf8 -------------------------------
(* Well-formedness of UTF-8 three ways, on all strings up to a length over    *)
(* bytes that represent every class: the table of the standard, position by   *)
(* position (what the trace checks evaluate), and by arithmetic on the code   *)
(* point.                                                                     *)
EXTENDS Utf8, TLC, IOUtils

MaxLen == atoi(IOEnv.MC_LEN)
Reps == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}

\* the code point at i: its length by the leading bits, its value, and rules
NBytes(b) == CASE b < 128 -> 1 [] b \in 192..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..247 -> 4 [] OTHER -> 0
RECURSIVE Conts(_, _, _)
Conts(s, i, v) == IF i > Len(s) THEN v ELSE Conts(s, i + 1, v * 64 + (s[i] - 128))
Value(s) == CASE Len(s) = 1 -> s[1]
              [] OTHER -> Conts(s, 2, s[1] - (CASE Len(s) = 2 -> 192 [] Len(s) = 3 -> 224 [] Len(s) = 4 -> 240))
Legal(s) ==      \* s: one sequence of the announced length
  /\ \A i \in 2..Len(s) : s[i] \in 128..191
  /\ LET v == Value(s) IN
     /\ CASE Len(s) = 1 -> TRUE [] Len(s) = 2 -> v >= 128 [] Len(s) = 3 -> v >= 2048 [] Len(s) = 4 -> v >= 65536
     /\ v \notin 55296..57343 /\ v <= 1114111
RECURSIVE Arith(_)
Arith(s) == s = <<>> \/ LET n == NBytes(s[1]) IN n > 0 /\ n <= Len(s) /\ Legal(Take(s, n)) /\ Arith(Drop(s, n))

VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Reps : s' = Append(s, b)
Spec == Init /\ [][Next]_s
Agree == IsUtf8(s) = Utf8Seq(s) /\ IsUtf8(s) = Arith(s)
=============================================================================
