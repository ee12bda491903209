------------------------------- MODULE MCFlush -------------------------------
(* A writer with a buffer in front of its sink, refining the writer without   *)
(* one (module Writer).  The buffer is as small as allowed; every fill level  *)
(* is combined with every next write around the sizes that matter, and the    *)
(* sink may fail at any of its first calls.  In every state what has reached  *)
(* the sink and what is buffered is together exactly what was written; after  *)
(* a failure the sink holds a beginning of it and receives nothing more.      *)
(* TLC prints the shortest program to each combination, to be run on the      *)
(* code with a buffer of the same size.                                       *)
EXTENDS Writer, TLC, IOUtils

Cap == 32
Full == IOEnv.MC_FULL = "1"
C(txt, p, es) == [txt |-> txt, ps |-> p, es |-> es]
Hx(n) == ToString(n)
Big == << 0, 0, 1, 0, 0, 0, 0, 0 >>
Sizes == IF Full THEN 0..100 ELSE 0..4 \cup 12..14 \cup 20..70 \cup {95, 96, 97}
\* text, the pieces in which it is handed to the buffer, the calls
Small == {
  C(<<"nil">>, << <<192>> >>, <<[op |-> "nil"]>>),
  C(<<"u8 200">>, << EncUint(B8(200)) >>, <<[op |-> "u8", v |-> B8(200)]>>),
  C(<<"u16 300">>, << EncUint(B8(300)) >>, <<[op |-> "u16", v |-> B8(300)]>>),
  C(<<"u32 70000">>, << EncUint(B8(70000)) >>, <<[op |-> "u32", v |-> B8(70000)]>>),
  C(<<"u64 1099511627776">>, << EncUint(Big) >>, <<[op |-> "u64", v |-> Big]>>),
  C(<<"ts 1 0">>, << EncTimestamp(B8(1), Zero4) >>, <<[op |-> "ts", s |-> B8(1), ns |-> Zero4]>>),
  C(<<"ts 1 1">>, << EncTimestamp(B8(1), B4(1)) >>, <<[op |-> "ts", s |-> B8(1), ns |-> B4(1)]>>),
  C(<<"ts -1 1">>, << EncTimestamp(Rep(255, 8), B4(1)) >>, <<[op |-> "ts", s |-> Rep(255, 8), ns |-> B4(1)]>>) }
HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Blobs == UNION {LET d == Rep(97, n)  t == " r61*" \o Hx(n) IN {
  C(<<"bin" \o t>>, << EncBinHdr(B4(n), 5), d >>, <<[op |-> "bin", d |-> d]>>),
  C(<<"str" \o t>>, << EncStrHdr(B4(n), 5) \o d >>, <<[op |-> "str", d |-> d]>>),
  C(<<"ext 5" \o t>>, << EncExtHdr(5, B4(n)), d >>, <<[op |-> "ext", x |-> 5, d |-> d]>>),
  C(<<"objbytes xc4" \o HexD[n \div 16 + 1] \o HexD[(n % 16) + 1] \o "+r61*" \o Hx(n)>>, << <<196, n>> \o d >>, <<[op |-> "objbytes", d |-> <<196, n>> \o d]>>) } : n \in Sizes}
Parts == {<<n, m>> \in {1, 16, 31, 32, 33, 64} \X {0, 1, 31, 32, 33, 64} : m <= n}
Pieces == {LET n == q[1]  m == q[2]  B(k) == [op |-> "bytes", d |-> Rep(98, k)] IN
  C(<<"sbin " \o Hx(n), "bytes r62*" \o Hx(m), "bytes r62*" \o Hx(n - m), "fin bin">>,
    << EncBinHdr(B4(n), 5), Rep(98, m), Rep(98, n - m) >>,
    << [op |-> "sbin", n |-> B4(n)], B(m), B(n - m), [op |-> "fin", t |-> "bin"] >>) : q \in Parts}
Built == {LET d == Rep(99, n) IN
  C(<<"barr", "bin r63*" \o Hx(n), "nil", "carr">>, << EncArray(B4(2)) \o EncBinHdr(B4(n), 5) \o d \o <<192>> >>,
    << [op |-> "barr"], [op |-> "bin", d |-> d], [op |-> "nil"], [op |-> "carr"] >>) : n \in {0, 1, 20, 26, 27, 28, 29, 30, 31, 32, 60, 61, 62, 63, 64}}
Msg == {C(<<"flushmsg">>, <<>>, <<[op |-> "flushmsg"]>>)}
Calls == Small \cup Blobs \cup Pieces \cup Built \cup Msg

h == [trk |-> TRUE, cap |-> -1, flush |-> TRUE, small |-> FALSE, eh |-> TRUE, sink |-> "flush", e0 |-> "ok"]

VARIABLES s, b, prog
vars == << s, b, prog >>
\* b: what is buffered, what the sink has, calls of the sink, which one fails
Flush(x, d) ==
  IF x.err THEN x
  ELSE IF x.n + 1 = x.fail THEN [x EXCEPT !.n = @ + 1, !.err = TRUE]
  ELSE [x EXCEPT !.n = @ + 1, !.sink = @ \o d]
Empty(x) == IF x.buf = <<>> THEN x ELSE [Flush(x, x.buf) EXCEPT !.buf = <<>>]
Put(x, p) ==
  IF x.err THEN x
  ELSE IF Len(p) <= Cap - Len(x.buf) THEN [x EXCEPT !.buf = @ \o p]
  ELSE LET y == Empty(x) IN
    IF y.err THEN y
    ELSE IF Len(p) > Cap THEN Flush(y, p) ELSE [y EXCEPT !.buf = p]
Right(st, x) ==
  /\ Len(x.buf) <= Cap
  /\ IF x.err THEN IsPrefixOf(x.sink, st.out) ELSE x.sink \o x.buf = st.out
  /\ (x.fail = 0 => ~x.err)
Apply(st, es) == FoldLeft(LAMBDA a, e : LET r == WOp(h, a.st, e) IN [st |-> r.st, errs |-> a.errs \cup r.errs], [st |-> st, errs |-> {}], es)
\* only what is new is kept of the output
Init == s = WInit(h) /\ prog = <<>> /\ b \in {[buf |-> <<>>, sink |-> <<>>, n |-> 0, fail |-> f, err |-> FALSE] : f \in 0..3}
Next ==
  /\ ~b.err
  /\ \E c \in Calls :
       LET a == Apply(s, c.es)
           x == IF c \in Msg THEN Empty(b) ELSE FoldLeft(Put, b, c.ps)
           p == prog \o c.txt
       IN /\ (b.fail = 0 => PrintT(<< "PROG", p >>))
          /\ (x.err => PrintT(<< "FAIL", << ToString(b.fail) >> \o p >>))
          /\ Assert(a.errs = {} /\ Right(a.st, x), << s, b, c.txt >>)     \* in every step, also to states seen before
          /\ s' = a.st /\ b' = x /\ prog' = p
          /\ (b.fail > 0 \/ Len(prog) < 8)
Spec == Init /\ [][Next]_vars
View == << Len(b.buf), b.err, b.fail, Min2(b.n, b.fail) >>

Refines == Right(s, b)
=============================================================================
