-------------------------------- MODULE Doc --------------------------------
(* The document that a sequence of calls writes, independent of any encoding: *)
(* its objects in preorder, each a tag and (for strings, blobs, extensions)   *)
(* its bytes.  l: the objects so far; s: the open compounds, i their place in *)
(* l, n the objects directly inside, b whether the count is automatic.        *)
(* Integers are kept by value.  The writer's own state runs beside it.        *)
EXTENDS Writer

XInit(h) == [k |-> "X", w |-> WInit(h), l |-> <<>>, s |-> <<>>]

Obj(t, v, x, d) == [t |-> t, v |-> v, x |-> x, d |-> d]
NormObj(o) == IF o.t = "int" /\ ~IsNeg(o.v) THEN [o EXCEPT !.t = "uint"] ELSE o
Counted(s) == IF s = <<>> THEN s ELSE [s EXCEPT ![Len(s)].n = @ + 1]
Add(x, o) == [x EXCEPT !.l = Append(@, NormObj(o)), !.s = Counted(@)]
Open(x, o, b) == LET a == Add(x, o) IN [a EXCEPT !.s = Append(@, [i |-> Len(a.l), n |-> 0, b |-> b])]
Up(x) == [x EXCEPT !.s = Pop(@)]
Blob(t, d) == Obj(t, UExt(B4(Len(d))), 0, d)
Plain(t, v) == Obj(t, v, 0, <<>>)
Bin(x) == IF x.w.ver < 5 THEN "str" ELSE "bin"       \* the old raw has one kind
\* one of the objects of an encoded object
Obj1(d, s) ==
  LET r == DecodeAt(d, s.p, Len(d), TRUE)  c == IF HasBytes(r.tag.t) THEN TLen(r.tag) ELSE 0  q == s.p + r.n IN
  [p |-> q + c, l |-> Append(s.l, NormObj(Obj(r.tag.t, r.tag.v, r.tag.x, SubSeq(d, q + 1, q + c))))]
Objects(d) == Loop(LAMBDA s : Obj1(d, s), LAMBDA s : s.p >= Len(d), [p |-> 0, l |-> <<>>]).l

XGen(x, e) ==
  CASE e.k \in {"u8","u16","u32","u64"} -> Add(x, Plain("uint", e.v))
    [] e.k \in {"i8","i16","i32","i64"} -> Add(x, Plain("int", e.v))
    [] e.k = "cstr" -> IF e.null THEN Add(x, Plain("nil", Zero8)) ELSE Add(x, Blob("str", e.d))
    [] OTHER -> Add(x, Plain(e.k, e.v))              \* bool, float, double
XTag(x, tag) ==
  LET t == IF tag.t = "bin" THEN Bin(x) ELSE tag.t IN
  IF HasBytes(t) \/ IsCompound(t) THEN Open(x, Obj(t, tag.v, tag.x, <<>>), FALSE)
  ELSE Add(x, Plain(t, tag.v))
AddNils(x, n) ==
  [x EXCEPT !.l = @ \o Rep(Plain("nil", Zero8), n), !.s = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)].n = @ + n]]

\* one call that succeeded
XOp(x, e) ==
  CASE e.op \in {"u8","u16","u32","u64","uint"} -> Add(x, Plain("uint", e.v))
    [] e.op \in {"i8","i16","i32","i64","int"} -> Add(x, Plain("int", e.v))
    [] e.op \in {"bool","float","double"} -> Add(x, Plain(e.op, e.v))
    [] e.op = "true" -> Add(x, Plain("bool", B8(1)))
    [] e.op = "false" -> Add(x, Plain("bool", B8(0)))
    [] e.op = "nil" -> Add(x, Plain("nil", Zero8))
    [] e.op = "repnil" -> AddNils(x, e.n)
    [] e.op = "objbytes" -> [Add(x, Plain("nil", Zero8)) EXCEPT !.l = x.l \o Objects(e.d)]
    [] e.op = "tag" -> XTag(x, e.tag)
    [] e.op = "gen" -> XGen(x, e)
    [] e.op = "kv" -> XGen(Add(x, Blob("str", e.key)), e)
    [] e.op = "ts" -> [Add(x, Plain("nil", Zero8)) EXCEPT !.l = x.l \o Objects(EncTimestamp(e.s, e.ns))]
    [] e.op \in {"str","utf8","cstr","utf8cstr"} -> Add(x, Blob("str", e.d))
    [] e.op \in {"cstrnil","utf8cstrnil"} -> IF e.null THEN Add(x, Plain("nil", Zero8)) ELSE Add(x, Blob("str", e.d))
    [] e.op = "bin" -> Add(x, Blob(Bin(x), e.d))
    [] e.op = "ext" -> Add(x, [Blob("ext", e.d) EXCEPT !.x = e.x])
    [] e.op = "sarr" -> Open(x, Plain("array", UExt(e.n)), FALSE)
    [] e.op = "smap" -> Open(x, Plain("map", UExt(e.n)), FALSE)
    [] e.op = "sstr" -> Open(x, Plain("str", UExt(e.n)), FALSE)
    [] e.op = "sbin" -> Open(x, Plain(Bin(x), UExt(e.n)), FALSE)
    [] e.op = "sext" -> Open(x, Obj("ext", UExt(e.n), e.x, <<>>), FALSE)
    [] e.op = "bytes" -> [x EXCEPT !.l[x.s[Len(x.s)].i].d = @ \o e.d]
    [] e.op = "fin" -> Up(x)
    [] e.op = "barr" -> Open(x, Plain("array", Zero8), TRUE)
    [] e.op = "bmap" -> Open(x, Plain("map", Zero8), TRUE)
    [] e.op \in {"carr", "cmap"} ->
         LET f == Last(x.s) IN
         [Up(x) EXCEPT !.l[f.i].v = UExt(B4(IF e.op = "cmap" THEN f.n \div 2 ELSE f.n))]
    [] OTHER -> x

\* every way of reading gave this document; copying it tag by tag gives the
\* same bytes again
XReread(x, e) ==
  /\ e.e = "ok" /\ e.live = 0
  /\ \A i \in 1..Len(e.lists) : Len(e.lists[i]) = Len(x.l) /\ \A j \in 1..Len(x.l) : NormObj(e.lists[i][j]) = x.l[j]
  /\ \A i \in 1..Len(e.copies) : e.copies[i] = x.w.out

XStep(h, x, e) ==
  IF e.op = "reread" THEN (IF x.w.err = "ok" /\ XReread(x, e) THEN {x} ELSE {})
  ELSE LET n == WStep(h, x.w, e) IN
       IF n = {} THEN {}
       ELSE LET w == CHOOSE s \in n : TRUE IN
            {[(IF w.err = "ok" /\ x.w.err = "ok" THEN XOp(x, e) ELSE x) EXCEPT !.w = w]}
=============================================================================
