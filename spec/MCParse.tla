------------------------------- MODULE MCParse -------------------------------
(* Messages, byte by byte: every string over an alphabet with every class of  *)
(* header is grown until it is a whole message, is seen to be malformed, or   *)
(* reaches the bound.  In every state the five ways in which the              *)
(* specification reads a message agree with a recursive-descent reading       *)
(* written from the grammar alone: the walk that skips an object, the         *)
(* incremental parser of trees under every limit on bytes and nodes and for   *)
(* every amount of input so far, the structure machine of the reader when it  *)
(* follows the headers, and the debug text.  The strings are printed and then *)
(* given to the code.                                                         *)
EXTENDS Print, TLC, IOUtils

MaxLen == atoi(IOEnv.MC_LEN)
Alphabet == IF MaxLen > 4 THEN {0, 1, 2, 128, 129, 145, 146, 161, 162, 192, 193, 196, 199, 204, 212, 217, 220, 222, 205}
            ELSE {0, 1, 2, 128, 129, 144, 145, 146, 160, 161, 162, 192, 193, 194, 196, 197, 199, 200, 202, 204, 205, 208, 212, 213, 217, 218, 220, 222, 224}

\* ---- the grammar ----
\* number of the k bytes at i (no more than MaxLen of them can be there)
RECURSIVE Num(_, _, _)
Num(s, i, k) == IF k = 0 THEN 0 ELSE Num(s, i, k - 1) * 256 + s[i + k - 1]
Pow(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16
\* what follows the first byte: w bytes of length, a fixed number of bytes, and
\* what the length counts
Rule(b) ==
  CASE b < 128 \/ b >= 224 \/ b \in {192, 194, 195} -> [w |-> 0, n |-> 0, fix |-> 0, what |-> "none"]
    [] b < 144 -> [w |-> 0, n |-> 2 * (b - 128), fix |-> 0, what |-> "objects"]
    [] b < 160 -> [w |-> 0, n |-> b - 144, fix |-> 0, what |-> "objects"]
    [] b < 192 -> [w |-> 0, n |-> b - 160, fix |-> 0, what |-> "bytes"]
    [] b = 193 -> [w |-> 0, n |-> 0, fix |-> 0, what |-> "reserved"]
    [] b \in 196..198 -> [w |-> Pow(b - 196), n |-> 0, fix |-> 0, what |-> "bytes"]
    [] b \in 199..201 -> [w |-> Pow(b - 199), n |-> 0, fix |-> 1, what |-> "bytes"]
    [] b = 202 -> [w |-> 0, n |-> 0, fix |-> 4, what |-> "none"]
    [] b = 203 -> [w |-> 0, n |-> 0, fix |-> 8, what |-> "none"]
    [] b \in 204..207 -> [w |-> 0, n |-> 0, fix |-> Pow(b - 204), what |-> "none"]
    [] b \in 208..211 -> [w |-> 0, n |-> 0, fix |-> Pow(b - 208), what |-> "none"]
    [] b \in 212..216 -> [w |-> 0, n |-> Pow(b - 212), fix |-> 1, what |-> "bytes"]
    [] b \in 217..219 -> [w |-> Pow(b - 217), n |-> 0, fix |-> 0, what |-> "bytes"]
    [] b \in 220..221 -> [w |-> Pow(b - 219), n |-> 0, fix |-> 0, what |-> "objects"]
    [] b \in 222..223 -> [w |-> Pow(b - 221), n |-> 0, fix |-> 0, what |-> "pairs"]
R(k, p, c) == [k |-> k, p |-> p, c |-> c]
RECURSIVE Obj(_, _), Objs(_, _, _, _)
\* one object at i: how it ends, the place after it, how many objects it is
Obj(s, i) ==
  IF i > Len(s) THEN R("short", 0, 0)
  ELSE LET r == Rule(s[i]) IN
    IF r.what = "reserved" THEN R("reserved", 0, 0)
    ELSE IF i + r.w > Len(s) THEN R("short", 0, 0)
    ELSE LET n == IF r.w = 0 THEN r.n ELSE Num(s, i + 1, r.w)
             at == i + 1 + r.w + r.fix
         IN IF at - 1 > Len(s) THEN R("short", 0, 0)
            ELSE CASE r.what = "none" -> R("ok", at, 1)
                   [] r.what = "bytes" -> IF at - 1 + n > Len(s) THEN R("short", 0, 0) ELSE R("ok", at + n, 1)
                   [] OTHER -> Objs(s, at, IF r.what = "pairs" THEN 2 * n ELSE n, 1)
Objs(s, i, n, c) ==
  IF n = 0 THEN R("ok", i, c)
  ELSE LET o == Obj(s, i) IN IF o.k # "ok" THEN o ELSE Objs(s, o.p, n - 1, c + o.c)

\* ---- the reader following the headers ----
H(d) == [k |-> "R", data |-> d, lim |-> Len(d), src |-> "mem", bufsz |-> 0, se |-> <<"invalid">>, ext |-> TRUE,
         flt |-> TRUE, dbl |-> TRUE, trk |-> TRUE, eh |-> TRUE, e0 |-> "ok"]
NextCall(st) ==
  IF st.stk = <<>> THEN [op |-> "tag", tag |-> NilTag]
  ELSE LET f == Last(st.stk) IN
    IF f.left = 0 /\ ~f.key THEN [op |-> "done", t |-> f.t]
    ELSE IF CompoundT(f.t) THEN [op |-> "tag", tag |-> NilTag]
    ELSE [op |-> "skip", n |-> f.left]
Follow1(d, s) ==
  LET r == ROp(H(d), s.st, NextCall(s.st)) IN
  IF r.errs # {} THEN [s EXCEPT !.errs = r.errs]
  ELSE [s EXCEPT !.st = r.st, !.done = r.st.stk = <<>>]
Follow(d) == Loop(LAMBDA s : Follow1(d, s), LAMBDA s : s.done \/ s.errs # {},
                  [st |-> RInit(H(d)), errs |-> {}, done |-> FALSE])

HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexStr(_)
HexStr(d) == IF d = <<>> THEN "" ELSE HexD[d[1] \div 16 + 1] \o HexD[(d[1] % 16) + 1] \o HexStr(Tail(d))

VARIABLE s
Init == s = <<>>
\* one more byte, up to one beyond the message
Ends(d) == LET o == Obj(d, 1) IN o.k = "reserved" \/ (o.k = "ok" /\ o.p <= Len(d))
Next == /\ Len(s) < MaxLen /\ ~Ends(s)
        /\ \E b \in Alphabet : s' = Append(s, b) /\ PrintT(<< "PROG", << HexStr(Append(s, b)) >> >>)
Spec == Init /\ [][Next]_s

Agree ==
  LET o == Obj(s, 1)  L == Len(s)
      w == Walk(s, 0, L, 1, TRUE)
      f == Follow(s)
      t == TextOf(H(s), 0)
      big(ms, mn, lim) == Message(H(s), [maxs |-> ms, maxn |-> mn], 0, lim)
      whole == big(MaxInt, MaxInt, L)
  IN /\ w.k = o.k /\ (o.k = "ok" => w.p = o.p - 1)
     /\ whole.k = o.k /\ ~whole.big /\ (o.k = "ok" => whole.p = o.p - 1 /\ whole.cnt = o.c)
     /\ t.k = o.k /\ (o.k = "ok" => t.p = o.p - 1)
     /\ f.errs = (CASE o.k = "ok" -> {} [] OTHER -> {"invalid"})
     /\ (o.k = "ok" => f.st.pos = o.p - 1)
     \* less input: nothing is decided otherwise than by all of it
     /\ \A lim \in 0..L :
          LET m == big(MaxInt, MaxInt, lim) IN
          /\ m.k \in {"short", o.k} /\ ~m.big
          /\ m.k = "ok" => m.p = whole.p /\ m.cnt = whole.cnt
          /\ m.k = "short" => m.more
     \* limits: known before the end only if true at the end, and known at the end
     /\ \A ms \in 0..(MaxLen + 1), mn \in 1..(MaxLen + 1) :
          /\ o.k = "ok" => (big(ms, mn, L).big <=> (o.p - 1 > ms \/ o.c > mn))
          /\ \A lim \in 0..L : big(ms, mn, lim).big => big(ms, mn, L).big
=============================================================================
