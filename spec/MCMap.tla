-------------------------------- MODULE MCMap --------------------------------
(* Maps entry by entry: keys of every kind that may be asked for, in every    *)
(* encoding, and kinds that may not, in every order and repeated.  For a map  *)
(* written down as the list of what its keys mean, what a lookup finds, what  *)
(* a typed read of its keys answers and which keys it has seen is said here   *)
(* from that list alone, and must be what modules Tree and Reader say from    *)
(* the bytes.  The maps are printed and then given to the code.               *)
EXTENDS Tree, TLC, IOUtils

MaxN == atoi(IOEnv.MC_N)
K(b, k, v) == [b |-> b, k |-> k, v |-> v]
\* bytes, kind ("int", "str" or ""), meaning (integers: big-endian, 8 bytes)
M1 == Rep(255, 8)
Keys == {K(<<1>>, "int", B8(1)), K(<<204, 1>>, "int", B8(1)), K(<<211, 0, 0, 0, 0, 0, 0, 0, 1>>, "int", B8(1)),
         K(<<0>>, "int", B8(0)), K(<<255>>, "neg", M1), K(<<207>> \o M1, "int", M1),
         K(<<161, 97>>, "str", <<97>>), K(<<217, 1, 97>>, "str", <<97>>), K(<<160>>, "str", <<>>), K(<<162, 97, 0>>, "str", <<97, 0>>),
         K(<<196, 1, 97>>, "", <<>>), K(<<192>>, "", <<>>), K(<<146, 161, 97, 1>>, "", <<>>), K(<<129, 1, 161, 97>>, "", <<>>)}
Vals == << <<192>>, <<145, 1>>, <<129, 161, 97, 6>> >>
VARIABLE m
Init == m = <<>>
Body(l) == FoldLeft(LAMBDA a, i : a \o l[i].b \o Vals[i], <<>>, [i \in 1..Len(l) |-> i])
Data(l) == EncMap(B4(Len(l))) \o Body(l)
HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexOf(d) == FoldLeft(LAMBDA a, b : a \o HexD[b \div 16 + 1] \o HexD[(b % 16) + 1], "", d)
Next == Len(m) < MaxN /\ \E k \in Keys : m' = Append(m, k) /\ PrintT(<< "PROG", << HexOf(Data(Append(m, k))) >> >>)
Spec == Init /\ [][Next]_m

H(d, k) == [k |-> k, data |-> d, lim |-> Len(d), src |-> IF k = "T" THEN "data" ELSE "mem", bufsz |-> 0, se |-> <<"invalid">>, ext |-> TRUE, flt |-> TRUE, dbl |-> TRUE,
            trk |-> TRUE, eh |-> TRUE, e0 |-> "ok", pool |-> MaxInt, maxs |-> MaxInt, maxn |-> MaxInt, m32 |-> FALSE]
Root == [k |-> "node", p |-> 0]
At(l, i) == Len(EncMap(B4(Len(l)))) + Len(Body(SubSeq(l, 1, i - 1))) + Len(l[i].b)
\* the lookups: kind of argument, argument, what it matches
Looks == {[kd |-> "int", v |-> B8(1), k |-> "int"], [kd |-> "int", v |-> B8(0), k |-> "int"], [kd |-> "int", v |-> M1, k |-> "neg"],
          [kd |-> "uint", v |-> B8(1), k |-> "int"], [kd |-> "uint", v |-> M1, k |-> "int"], [kd |-> "uint", v |-> B8(7), k |-> "int"],
          [kd |-> "str", v |-> <<97>>, k |-> "str"], [kd |-> "str", v |-> <<>>, k |-> "str"], [kd |-> "str", v |-> <<97, 0>>, k |-> "str"], [kd |-> "str", v |-> <<98>>, k |-> "str"]}
Where(l, q) == {i \in 1..Len(l) : l[i].k = q.k /\ l[i].v = q.v}
LookOk(l, d, q, opt, has) ==
  LET e == [op |-> "look", kd |-> q.kd, v |-> q.v, d |-> q.v, opt |-> opt, has |-> has, to |-> IF has THEN 0 ELSE 2, n |-> 0, r |-> Cardinality(Where(l, q)) = 1]
      r == TLook(H(d, "T"), TInit(H(d, "T")), e, Root)
      w == Where(l, q)
  IN /\ r.errs = (CASE Cardinality(w) > 1 -> {"data"} [] w = {} /\ ~opt /\ ~has -> {"data"} [] OTHER -> {})
     /\ (r.errs = {} => r.good)
     /\ (r.errs = {} /\ ~has) => r.st.regs[2] = (IF w = {} THEN [k |-> "missing", p |-> 0] ELSE [k |-> "node", p |-> At(l, CHOOSE i \in w : TRUE)])

\* reading the keys one after another against a list of names, or of numbers
Names == << <<98>>, <<97>>, <<>> >>
NameOf(x) == IF x.k = "str" /\ \E i \in 1..3 : Names[i] = x.v THEN (CHOOSE i \in 1..3 : Names[i] = x.v) - 1 ELSE 3
NumOf(x) == IF x.k = "int" /\ x.v \in {B8(0), B8(1)} THEN ToInt(x.v) ELSE 2
Fd(set, n) == [i \in 1..n |-> (i - 1) \in set]
Walk1(l, d, s, i, f(_), n, op) ==
  LET a == f(l[i])  dup == a < n /\ a \in s.seen
      seen == IF a < n THEN s.seen \cup {a} ELSE s.seen
      e == [op |-> op, keys |-> Names, n |-> n, r |-> a, fd |-> Fd(seen, n)]
      r == ROp(H(d, "R"), s.st, e)
      v == RDiscard(H(d, "R"), r.st)
  IN IF ~s.ok \/ s.end THEN s
     ELSE IF dup THEN [s EXCEPT !.ok = r.errs = {"invalid"}, !.end = TRUE]
     ELSE [s EXCEPT !.ok = r.errs = {} /\ r.good /\ v.errs = {}, !.st = v.st, !.seen = seen]
KeysOk(l, d, f(_), n, op) ==
  LET h == H(d, "R")
      o == ROp(h, RInit(h), [op |-> "tag", tag |-> [t |-> "map", v |-> B4(Len(l)), x |-> 0]])
      w == FoldLeft(LAMBDA s, i : Walk1(l, d, s, i, f, n, op), [st |-> o.st, seen |-> {}, ok |-> o.errs = {}, end |-> FALSE], [i \in 1..Len(l) |-> i])
  IN w.ok /\ (~w.end => w.st.pos = Len(d) /\ CloseErrs(h, w.st, "map") = {})
Agree ==
  LET d == Data(m) IN
  /\ \A q \in Looks, o \in {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>} : LookOk(m, d, q, o[1], o[2])
  /\ KeysOk(m, d, NameOf, 3, "keycstr")
  /\ KeysOk(m, d, NumOf, 2, "keyuint")
=============================================================================
