------------------------------ MODULE MCMisuseR ------------------------------
(* The reader's structure machine over small messages, explored completely:   *)
(* every reachable position and structure is combined with every call.  TLC   *)
(* prints the shortest program that reaches each combination (its first item  *)
(* is the message in hex), and the programs are run on the code.  In every    *)
(* state the structure agrees with the message: what is open is what the      *)
(* headers passed so far announced, and it can be closed exactly when nothing *)
(* of it is left.                                                             *)
EXTENDS Reader, TLC, IOUtils

MaxOps == atoi(IOEnv.MC_DEPTH)

Docs == {
  << "90c0", <<144, 192>> >>, << "9101c0", <<145, 1, 192>> >>, << "8101c2c0", <<129, 1, 194, 192>> >>,
  << "a161c0", <<161, 97, 192>> >>, << "c4024142c0", <<196, 2, 65, 66, 192>> >>, << "d40507c0", <<212, 5, 7, 192>> >>,
  << "a0c0", <<160, 192>> >>, << "9291c0a161", <<146, 145, 192, 161, 97>> >>, << "81a16191c0c0", <<129, 161, 97, 145, 192, 192>> >>,
  << "8001c3", <<128, 1, 195>> >>, << "820102039003", <<130, 1, 2, 3, 144, 3>> >>, << "9190c4004100", <<145, 144, 196, 0, 65, 0>> >>,
  << "c70005c0", <<199, 0, 5, 192>> >>, << "9191919000", <<145, 145, 145, 144, 0>> >>, << "92a3616263c0", <<146, 163, 97, 98, 99, 192>> >>,
  << "d6ff00000001c0", <<214, 255, 0, 0, 0, 1, 192>> >> }

E0 == [op |-> "", n |-> 0, cap |-> 0, t |-> "", tag |-> NilTag, d |-> <<>>, z |-> TRUE, null |-> TRUE, r |-> Zero8, sp |-> -1,
       s |-> Zero8, ns |-> Zero8, lo |-> Zero8, hi |-> Rep(255, 8), df |-> Zero8, nr |-> FALSE, nil |-> FALSE, has |-> FALSE, x |-> 0, fn |-> ""]
C(txt, e) == [txt |-> txt, e |-> e]
Op(o) == C(o, [E0 EXCEPT !.op = o])
OpN(o, n) == C(o \o " " \o ToString(n), [E0 EXCEPT !.op = o, !.n = n])
Calls ==
  {Op(o) : o \in {"tag", "peek", "discard", "remain", "enil"}}
  \cup {OpN(o, n) : o \in {"bytes", "skip"}, n \in 0..3}
  \cup {OpN(o, n) : o \in {"inplace", "utf8", "utf8inplace", "balloc"}, n \in {0, 1, 3}}
  \cup {C("cstr 9 " \o ToString(n), [E0 EXCEPT !.op = "cstr", !.cap = 9, !.n = n]) : n \in {0, 1, 3}}
  \cup {C("done " \o t, [E0 EXCEPT !.op = "done", !.t = t]) : t \in {"array", "map", "str", "bin", "ext"}}
  \cup {C("done str type", [E0 EXCEPT !.op = "done", !.t = "str"]), C("done map type", [E0 EXCEPT !.op = "done", !.t = "map"])}
  \cup {C("l str", [E0 EXCEPT !.op = "l", !.t = "str", !.fn = "str"]), C("l ext", [E0 EXCEPT !.op = "l", !.t = "ext", !.fn = "ext"]),
        C("c array", [E0 EXCEPT !.op = "c", !.t = "array", !.fn = "array"]), C("c map", [E0 EXCEPT !.op = "c", !.t = "map", !.fn = "map"]),
        C("ts 4", [E0 EXCEPT !.op = "ts", !.n = 4]), C("ets", [E0 EXCEPT !.op = "ets"])}

H(doc) == [k |-> "R", data |-> doc, lim |-> Len(doc), src |-> "mem", bufsz |-> 0, se |-> <<"invalid">>, ext |-> TRUE,
           dbl |-> TRUE, trk |-> TRUE, eh |-> TRUE, e0 |-> "ok"]

VARIABLES doc, s, prog
vars == << doc, s, prog >>
View == << doc, s >>
Init == \E d \in Docs : doc = d[2] /\ s = RInit(H(d[2])) /\ prog = << d[1] >>
Next == /\ Len(prog) <= MaxOps
        /\ \E c \in Calls :
             LET r == ROp(H(doc), s, c.e)  p == Append(prog, c.txt) IN
             /\ PrintT(<< "PROG", p >>)
             /\ r.errs = {}
             /\ s' = r.st /\ prog' = p /\ UNCHANGED doc
Spec == Init /\ [][Next]_vars

\* bytes of the message that the open structure still accounts for
Consistent ==
  /\ s.pos <= Len(doc)
  /\ \A i \in 1..Len(s.stk) : LET f == s.stk[i] IN
       f.left >= 0 /\ (f.key => f.t = "map") /\ (~CompoundT(f.t) => i = Len(s.stk))
  /\ (s.stk # <<>> /\ ~CompoundT(Last(s.stk).t) => s.pos + Last(s.stk).left <= Len(doc))
  /\ (ElementAllowed(s.stk) => ~BytesAllowed(s.stk, 0))
  /\ (s.stk # <<>> /\ ~Last(s.stk).key =>
        (CloseAllowed(s.stk, Last(s.stk).t, FALSE) <=> Last(s.stk).left = 0))
=============================================================================
