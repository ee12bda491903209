------------------------------ MODULE MCMisuseW ------------------------------
(* The writer's structure machine over a small alphabet, explored completely. *)
(* Every reachable structure (up to a depth) is combined with every call; TLC *)
(* prints the shortest program that reaches each combination, and the program *)
(* is run on the code.  Also checks, in every state, that the structure rules *)
(* are consistent: a compound can be closed exactly when nothing is left, and *)
(* what was announced is what was written.                                    *)
EXTENDS Writer, TLC, IOUtils

MaxDepth == atoi(IOEnv.MC_DEPTH)
MaxN == atoi(IOEnv.MC_N)

\* text for the driver, and the call
C(txt, r) == [txt |-> txt, e |-> r]
Elements == {
  C("nil", [op |-> "nil"]), C("u8 7", [op |-> "u8", v |-> B8(7)]),
  C("str x61", [op |-> "str", d |-> <<97>>]), C("ext 5 x01", [op |-> "ext", x |-> 5, d |-> <<1>>]),
  C("bin x", [op |-> "bin", d |-> <<>>]), C("objbytes x9101", [op |-> "objbytes", d |-> <<145, 1>>]),
  C("kv x6b u8 1", [op |-> "kv", key |-> <<107>>, k |-> "u8", v |-> B8(1)]),
  C("ts 0 0", [op |-> "ts", s |-> Zero8, ns |-> Zero4]) }
Starts == UNION {{
  C("sarr " \o ToString(n), [op |-> "sarr", n |-> B4(n)]), C("smap " \o ToString(n), [op |-> "smap", n |-> B4(n)]),
  C("sstr " \o ToString(n), [op |-> "sstr", n |-> B4(n)]), C("sbin " \o ToString(n), [op |-> "sbin", n |-> B4(n)]),
  C("sext 5 " \o ToString(n), [op |-> "sext", x |-> 5, n |-> B4(n)])} : n \in 0..MaxN}
  \cup {C("tag array 1", [op |-> "tag", tag |-> TagOf("array", B8(1))]), C("tag str 1", [op |-> "tag", tag |-> TagOf("str", B8(1))])}
Builds == {C("barr", [op |-> "barr"]), C("bmap", [op |-> "bmap"]), C("carr", [op |-> "carr"]), C("cmap", [op |-> "cmap"])}
Closes == {C("fin " \o t, [op |-> "fin", t |-> t]) : t \in {"array", "map", "str", "bin", "ext"}}
          \cup {C("fin array type", [op |-> "fin", t |-> "array"]), C("fin bin type", [op |-> "fin", t |-> "bin"])}
Bytes1 == {C("bytes x", [op |-> "bytes", d |-> <<>>]), C("bytes x41", [op |-> "bytes", d |-> <<65>>]),
           C("bytes x4142", [op |-> "bytes", d |-> <<65, 66>>]), C("bytes r55*300", [op |-> "bytes", d |-> Rep(85, 300)])}
Others == {C("flushmsg", [op |-> "flushmsg"])}
Calls == Elements \cup Starts \cup Builds \cup Closes \cup Bytes1 \cup Others

h == [trk |-> TRUE, cap |-> -1, flush |-> TRUE, small |-> FALSE, eh |-> TRUE, sink |-> "flush", e0 |-> "ok"]

VARIABLES s, prog
Shape(st) == [st EXCEPT !.out = <<>>, !.att = <<>>,
               !.stk = [i \in 1..Len(st.stk) |-> [st.stk[i] EXCEPT !.bytes = <<>>, !.cnt = Min2(@, 1)]]]
Init == s = WInit(h) /\ prog = <<>>
Next == \E c \in Calls :
  LET r == WOp(h, s, c.e)
      p == Append(prog, c.txt) IN
  /\ PrintT(<< "PROG", p >>)
  /\ r.errs = {} /\ Len(r.st.stk) <= MaxDepth
  /\ s' = Shape(r.st) /\ prog' = p
vars == << s, prog >>
Spec == Init /\ [][Next]_vars
View == s

Consistent ==
  /\ \A i \in 1..Len(s.stk) : LET f == s.stk[i] IN
       /\ f.left >= 0 /\ (f.key => f.t = "map") /\ (f.b => CompoundT(f.t) /\ f.left = 0)
       /\ (~CompoundT(f.t) => i = Len(s.stk))
  /\ \A t \in {"array", "map"} : CloseAllowed(s.stk, t, FALSE) => ~ElementAllowed(s.stk)
  /\ (ElementAllowed(s.stk) => ~BytesAllowed(s.stk, 0)) 
  /\ (s.stk # <<>> /\ ~Last(s.stk).b /\ ~Last(s.stk).key => (CloseAllowed(s.stk, Last(s.stk).t, FALSE) <=> Last(s.stk).left = 0))
=============================================================================
