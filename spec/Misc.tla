-------------------------------- MODULE Misc --------------------------------
(* Calls without an object of their own: text checks, tag comparison and      *)
(* debug text (the latter in module Print).                                   *)
EXTENDS Print

\* ---- text: what each API must say about the bytes d ----
\* u, c, b: APIs promising UTF-8, no NUL, both; a: nothing; w: UTF-8 written
\* each list holds the distinct outcomes
Says(list, yes, no) == list \in {<<>>, << IF yes THEN "ok" ELSE no >>}
TextOk(e) ==
  LET u == IsUtf8(e.d)  z == NoNul(e.d) IN
  /\ Says(e.u, u, "type") /\ Says(e.c, z, "type") /\ Says(e.b, u /\ z, "type")
  /\ Says(e.a, TRUE, "ok") /\ Says(e.w, u, "invalid")

\* ---- comparison of all pairs of the tags g ----
\* c[i][j] is the sign of comparing g[i] with g[j], q[i][j] whether they are
\* said to be equal
Same(a, b) == Norm(a) = Norm(b)
\* known to come first: numbers, lengths and counts are in numeric order
Lower(a, b) ==
  LET x == Norm(a)  y == Norm(b) IN
  CASE x.t = y.t /\ x.t \in {"uint", "str", "bin", "array", "map"} -> ULt(x.v, y.v)
    [] x.t = "ext" /\ y.t = "ext" /\ x.x = y.x -> ULt(x.v, y.v)
    [] x.t = "int" /\ y.t = "int" -> SLt(x.v, y.v)
    [] x.t = "int" /\ y.t = "uint" -> TRUE
    [] OTHER -> FALSE
CmpOk(e) ==
  LET N == 1..Len(e.g)  t(i) == e.g[i].t IN
  /\ \A i, j \in N :
       /\ e.c[i][j] = -e.c[j][i]
       /\ (e.c[i][j] = 0) = Same(t(i), t(j))
       /\ Lower(t(i), t(j)) => e.c[i][j] < 0
       /\ (e.q[i][j] = 1) = (e.c[i][j] = 0)
  /\ \A i, j, k \in N : e.c[i][j] <= 0 /\ e.c[j][k] <= 0 => e.c[i][k] <= 0

\* ---- descriptions of a tag ----
DMissing == << 109, 105, 115, 115, 105, 110, 103 >>                     \* "missing"
DNil == << 110, 105, 108 >>                                         \* "nil"
DInt == << 105, 110, 116, 32 >>                                     \* "int "
DUint == << 117, 105, 110, 116, 32 >>                                \* "uint "
DFloat == << 102, 108, 111, 97, 116 >>                                \* "float"
DDouble == << 100, 111, 117, 98, 108, 101 >>                           \* "double"
DStr == << 115, 116, 114, 32, 111, 102, 32 >>                       \* "str of "
DBin == << 98, 105, 110, 32, 111, 102, 32 >>                        \* "bin of "
DExt == << 101, 120, 116, 32, 111, 102, 32, 116, 121, 112, 101, 32 >> \* "ext of type "
DComma == << 44, 32 >>                                                \* ", "
DBytes == << 32, 98, 121, 116, 101, 115 >>                            \* " bytes"
DArray == << 97, 114, 114, 97, 121, 32, 111, 102, 32 >>               \* "array of "
DMap == << 109, 97, 112, 32, 111, 102, 32 >>                        \* "map of "
DElems == << 32, 101, 108, 101, 109, 101, 110, 116, 115 >>            \* " elements"
DPairs == << 32, 107, 101, 121, 45, 118, 97, 108, 117, 101, 32, 112, 97, 105, 114, 115 >> \* " key-value pairs"
PString == << 60, 115, 116, 114, 105, 110, 103, 32, 111, 102, 32 >>    \* "<string of "
Real(v, f) == << 32 >> \o RealText(v, f)
DescribeText(h, g) ==
  CASE g.t = "missing" -> DMissing
    [] g.t = "nil" -> DNil
    [] g.t = "bool" -> IF g.v = B8(1) THEN STrue ELSE SFalse
    [] g.t = "int" -> DInt \o DecS(g.v)
    [] g.t = "uint" -> DUint \o DecU(g.v)
    [] g.t = "float" -> DFloat \o (IF h.flt THEN Real(g.v, FB) ELSE <<>>)
    [] g.t = "double" -> DDouble \o (IF h.dbl THEN Real(g.v, DB) ELSE <<>>)
    [] g.t = "str" -> DStr \o DecU(g.v) \o DBytes
    [] g.t = "bin" -> DBin \o DecU(g.v) \o DBytes
    [] g.t = "ext" -> DExt \o DecI(g.x) \o DComma \o DecU(g.v) \o DBytes
    [] g.t = "array" -> DArray \o DecU(g.v) \o DElems
    [] g.t = "map" -> DMap \o DecU(g.v) \o DPairs
\* blobs with the first bytes d of their data
PseudoHead(g) ==
  CASE g.t = "missing" -> << 60 >> \o DMissing \o << 33 >>
    [] g.t = "str" -> PString \o DecU(g.v) \o DBytes
    [] g.t = "array" -> << 60 >> \o DArray \o DecU(g.v) \o DElems
    [] g.t = "map" -> << 60 >> \o DMap \o DecU(g.v) \o DPairs
    [] g.t = "bin" -> SBin \o DecU(g.v)
    [] g.t = "ext" -> SExtOf \o DecI(g.x) \o SAndLen \o DecU(g.v)
PseudoRest(g, d) ==
  IF g.t \notin {"bin", "ext"} \/ g.v = B8(0) THEN << 62 >>
  ELSE LET n == Min2(12, Len(d)) IN
       << 58, 32 >> \o Hex(Take(d, n)) \o (IF g.v = B8(n) THEN <<>> ELSE << 46, 46, 46 >>) \o << 62 >>
\* what a buffer may hold: the text if it fits, as much as fits otherwise; how
\* the end of a blob is shortened is free
FitsIn(b, text, sure) ==
  /\ b.z
  /\ IF Len(text) < b.n THEN b.s = text
     ELSE /\ Len(b.s) < b.n
          /\ Take(b.s, Min2(Len(b.s), sure)) = Take(text, Min2(b.n - 1, sure))
DescribeOk(h, e) ==
  LET text == DescribeText(h, e.t)
      kinds == e.t.t \in {"missing", "str", "bin", "ext", "array", "map"}
      head == IF kinds THEN PseudoHead(e.t) ELSE ScalarText(h, e.t, <<>>)
      full == IF kinds THEN head \o PseudoRest(e.t, e.d) ELSE head
  IN IF IsNanTag(e.t) THEN \A i \in 1..Len(e.db) : e.db[i].z /\ e.pb[i].z
     ELSE \A i \in 1..Len(e.db) : FitsIn(e.db[i], text, Len(text)) /\ FitsIn(e.pb[i], full, Len(head))

\* what needs more memory than there is fails like any other allocation
HugeOk(e) == e.skip \/ (e.e = "memory" /\ ~e.ptr)

MInit(h) == [k |-> "M", err |-> "ok"]
MStep(h, st, e) ==
  IF /\ e.live = 0
     /\ CASE e.op = "text" -> TextOk(e)
          [] e.op = "cmp" -> CmpOk(e)
          [] e.op = "huge" -> HugeOk(e)
          [] e.op = "print" -> PrintOk(h, e)
          [] e.op = "describe" -> DescribeOk(h, e)
  THEN {st} ELSE {}
=============================================================================
