-------------------------------- MODULE MCFeed --------------------------------
(* How a tree is read from a stream: a buffer that grows, and an account of   *)
(* the bytes in it that are not yet spoken for by objects known to follow.    *)
(* It refines module Tree, which knows only how much input has been           *)
(* delivered: every call of this machine, for every way in which the stream   *)
(* is cut up and pauses, is one that Tree allows, and between calls nothing   *)
(* is asked for that is not needed.  TLC prints the shortest cutting that     *)
(* leads to each state, with each next piece.                                 *)
EXTENDS Tree, TLC, IOUtils

Buf0 == atoi(IOEnv.MC_BUF)           \* size of the buffer at first
Full == IOEnv.MC_FULL = "1"

S(n) == [i \in 1..n |-> 96 + (i % 26)]
Inputs == <<
  << 147, 5, 146, 192, 162, 97, 98, 205, 1, 2 >> \o << 129, 161, 97, 144 >> \o << 7 >>,
  << 217, 40 >> \o S(40) \o << 145, 196, 30 >> \o S(30) \o << 192 >>,
  << 221, 0, 0, 0, 3, 1, 2, 146, 203, 64, 9, 0, 0, 0, 0, 0, 0, 195 >> \o << 222, 0, 1, 161, 97, 214, 5, 1, 2, 3, 4 >>,
  << 199, 3, 5, 1, 2, 3 >> \o << 201, 0, 0, 0, 2, 7, 8, 9 >> \o << 212, 1, 2 >> \o << 200, 0, 33, 1 >> \o S(33) \o << 192 >>,
  << 159 >> \o [i \in 1..14 |-> i] \o << 218, 0, 60 >> \o S(60) \o << 194 >>,
  << 220, 0, 70 >> \o Rep(192, 69) \o << 161, 98 >> \o << 193 >>,
  << 145, 145, 146, 193, 5 >>,
  << 198, 0, 0, 0, 90 >> \o S(80) >>

HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Hex == [i \in 1..Len(Inputs) |-> FoldLeft(LAMBDA a, b : a \o HexD[b \div 16 + 1] \o HexD[(b % 16) + 1], "x", Inputs[i])]

\* ---- the machine ----
\* dl bytes in the buffer after base, po of them not spoken for; the current
\* message: size bytes of it read, left objects to come, cnt objects counted
Min3(a, b, c) == Min2(a, Min2(b, c))
Bt(s, i) == s.d[s.base + s.size + i]
\* what the next object claims beyond its first byte, step by step as it is
\* read; own: bytes that are its own, kids: objects it announces
W(s, w) == ToInt(SubSeq(s.d, s.base + s.size + 2, s.base + s.size + 1 + w))
St(p, own, kids) == [p |-> p, own |-> own, kids |-> kids]
Claim(s) ==
  LET b == Bt(s, 1)
      w == CASE b \in {196, 199, 217} -> 1 [] b \in {197, 200, 218, 220, 222} -> 2 [] b \in {198, 201, 219, 221, 223} -> 4 [] OTHER -> 0
      bytes(n, x) == St(<< w + x + n >>, 1 + w + x + n, 0)
      objs(n) == St(<< w + n >>, 1 + w, n)
      fix(n) == St(<< n >>, 1 + n, 0)
  IN IF w > s.po THEN St(<< w >>, 0, 0)
     ELSE LET r == CASE b < 128 \/ b >= 224 \/ b \in {192, 194, 195} -> fix(0)
                     [] b < 144 -> objs(2 * (b - 128))
                     [] b < 160 -> objs(b - 144)
                     [] b < 192 -> bytes(b - 160, 0)
                     [] b = 193 -> St(<<>>, 0, 0)
                     [] b = 202 -> fix(4) [] b = 203 -> fix(8)
                     [] b \in 204..207 -> fix(2 ^ (b - 204)) [] b \in 208..211 -> fix(2 ^ (b - 208))
                     [] b \in 212..216 -> bytes(2 ^ (b - 212), 1)
                     [] b \in 196..198 \/ b \in 217..219 -> bytes(W(s, w), 0)
                     [] b \in 199..201 -> bytes(W(s, w), 1)
                     [] b \in 220..221 -> objs(W(s, w))
                     [] b \in 222..223 -> objs(2 * W(s, w))
          IN [r EXCEPT !.p = IF w > 0 THEN << w >> \o @ ELSE @]
Out(s, k) == [s EXCEPT !.pc = "out", !.res = k]
Grow(s, n) ==
  LET need == s.dl + n - s.po
      from == IF s.cap = 0 THEN Buf0 ELSE s.cap
      c == Loop(LAMBDA x : 2 * x, LAMBDA x : x >= need, from)
  IN IF need <= s.cap THEN s ELSE [s EXCEPT !.cap = Min2(c, s.maxs)]
Want(s, n) == [Grow(s, n) EXCEPT !.pc = "read"]
\* p bytes are claimed: in the limit, and there
TooBig(s, p) == s.dl - s.po + p > s.maxs
Go1(s) ==
  IF ~s.on THEN
    IF TooBig(s, 1) THEN Out(s, "too_big")
    ELSE IF s.po < 1 THEN Want(s, 1)
    ELSE [s EXCEPT !.on = TRUE, !.po = @ - 1, !.left = 1, !.cnt = 1]
  ELSE IF s.left = 0 THEN Out(s, "done")
  ELSE LET c == Claim(s) IN
    IF c.p = <<>> THEN Out(s, "invalid")
    ELSE IF TooBig(s, c.p[1]) THEN Out(s, "too_big")
    ELSE IF c.p[1] > s.po THEN
      IF Len(c.p) = 1 /\ s.cnt + c.kids > s.maxn THEN Out(s, "too_big") ELSE Want(s, c.p[1])
    ELSE IF s.cnt + c.kids > s.maxn \/ TooBig(s, Last(c.p)) THEN Out(s, "too_big")
    ELSE IF Last(c.p) > s.po THEN Want(s, Last(c.p))
    ELSE [s EXCEPT !.po = @ - Last(c.p), !.size = @ + c.own, !.left = @ - 1 + c.kids, !.cnt = @ + c.kids]
Go(s) == Loop(Go1, LAMBDA x : x.pc # "run", s)

H(s) == [k |-> "T", data |-> s.d, src |-> "stream", pool |-> MaxInt, maxs |-> s.maxs, maxn |-> s.maxn, ie |-> <<>>, ext |-> TRUE,
         m32 |-> FALSE, eh |-> TRUE, e0 |-> "ok", bufsz |-> 0]
Ev(s, e, r) ==
  [op |-> "try", e |-> e, cb |-> IF e = "ok" THEN <<>> ELSE << e >>, r |-> r, size |-> IF r THEN s.size ELSE 0, av |-> s.base + s.dl,
   pv |-> s.pv, wb |-> s.res = "wait", sf |-> FALSE, se |-> "ok", af |-> 0, fae |-> 0, pk |-> s.cap, j |-> FALSE]

VARIABLES s, st, chs
vars == << s, st, chs >>
Lims(d) ==
  LET w == Message([data |-> d, ext |-> TRUE], [maxs |-> MaxInt, maxn |-> MaxInt], 0, Len(d)) IN
  {<< 1000, 1000 >>} \cup (IF w.k = "ok" THEN {<< w.p, w.cnt >>, << w.p - 1, w.cnt >>, << w.p + 1, w.cnt >>} \cup (IF w.cnt > 1 THEN {<< w.p, w.cnt - 1 >>} ELSE {}) ELSE {<< 40, 40 >>})
\* a call: begins, and goes on until it needs the stream or ends
Begin(x) ==
  Go([(IF x.res = "done" THEN [x EXCEPT !.base = @ + x.size, !.dl = @ - x.size, !.po = x.dl - x.size, !.size = 0, !.on = FALSE] ELSE x)
      EXCEPT !.pc = "run", !.pv = -1, !.res = ""])
Init ==
  \E i \in 1..Len(Inputs) : \E l \in Lims(Inputs[i]) :
    LET x == [i |-> i, d |-> Inputs[i], base |-> 0, dl |-> 0, po |-> 0, size |-> 0, left |-> 0, cnt |-> 0, cap |-> 0, on |-> FALSE,
              maxs |-> Max2(l[1], 1), maxn |-> l[2], pc |-> "run", res |-> "", pv |-> -1]
    IN /\ s = Begin(x) /\ chs = <<>>
       /\ st = TInit(H(x))
\* the call ends: one that module Tree allows
End(x, c) ==
  LET e == Ev(x, IF x.res \in {"done", "wait"} THEN "ok" ELSE x.res, x.res = "done")
      r == TStep(H(x), st, e)
      y == CHOOSE z \in r : TRUE
  IN /\ Assert(r # {}, << "not allowed", x, e >>)
     /\ st' = y /\ chs' = c
     /\ s' = IF y.err # "ok" THEN [x EXCEPT !.pc = "end"] ELSE Begin(x)
Rest(x) == Len(x.d) - x.base - x.dl
Next ==
  \/ s.pc = "read" /\ \E c \in (IF Full THEN {0, 1, 2, 3, 20, 31, 1000} ELSE {0, 1, 3, 31, 1000}) :
       LET n == Min3(c, Rest(s), s.cap - s.dl)
           b == Append(chs, ToString(c))
       IN /\ Assert(s.cap > s.dl /\ s.cap <= s.maxs, << "no room", s >>)
          /\ (Len(b) <= 40) /\ PrintT(<< "PROG", << Hex[s.i], ToString(s.maxs), ToString(s.maxn) >> \o b >>)
          /\ IF n = 0 THEN c = 0 /\ Rest(s) >= 0 /\ Len(SelectSeq(chs, LAMBDA z : z = "0")) < 2
                           /\ End([s EXCEPT !.pv = s.base + s.dl, !.pc = "out", !.res = "wait"], b)
             ELSE LET x == Go([s EXCEPT !.dl = @ + n, !.po = @ + n, !.pv = s.base + s.dl, !.pc = "run"]) IN
               IF x.pc = "out" THEN End(x, b) ELSE s' = x /\ st' = st /\ chs' = b
  \/ s.pc = "out" /\ End(s, chs)
Spec == Init /\ [][Next]_vars
View == << s.i, s.maxs, s.maxn, s.base, s.dl, s.size, s.cap, s.pc, s.po, s.left, Len(SelectSeq(chs, LAMBDA z : z = "0")), st.err >>
=============================================================================
