-------------------------------- MODULE Tree --------------------------------
(* The tree parser as a user sees it: an error latch, the place of the        *)
(* current message in the input, and the nodes handed out.  A node is the     *)
(* place of its object in the input; every accessor is defined from the wire  *)
(* format alone.  h (the header of a program) holds                           *)
(*   data        the whole input                                              *)
(*   src         "data", "pool", "stream" or "file"                           *)
(*   pool        number of nodes the pool holds (MaxInt: no pool)             *)
(*   maxs, maxn  limits on the bytes and nodes of a message                   *)
(*   ie          the errors that opening the source may give                  *)
(* Every observed parse says how much input had been delivered when it        *)
(* returned (av) and before its last request for more (pv, -1 if none), and   *)
(* whether that last request gave nothing (wb).                               *)
EXTENDS Reader

TNil == [k |-> "nil", p |-> 0]
TInit(h) == [k |-> "T", err |-> h.e0, base |-> 0, size |-> 0, cur |-> "none",
             regs |-> [i \in 1..16 |-> TNil], maxs |-> h.maxs, maxn |-> Min2(h.maxn, h.pool)]

\* ---- messages ----
\* A message is read off the bytes up to lim as far as it goes.  p: where that
\* stops; k: "ok", "short" or the defect there; big: what is already known of
\* it exceeds a limit; more: bytes are already known to be missing; huge: it is
\* claimed to have more bytes than a 32-bit machine can address.
Known(m, p, n) == n > m.maxs - (p - m.base)      \* n more bytes are needed at p
TWalk1(h, m, s) ==
  LET d == DecodeAt(h.data, s.p, m.lim, h.ext) IN
  IF d.k = "short" THEN
    \* the length of an extension comes before its type
    LET b == IF s.p < m.lim THEN h.data[s.p + 1] ELSE 0
        x == IF s.p + d.n - 1 # m.lim THEN 0
             ELSE IF b \in 199..201 THEN ToInt(SubSeq(h.data, s.p + 2, m.lim))
             ELSE IF b \in 212..216 THEN 2 ^ (b - 212) ELSE 0
        n == SatAdd(s.need - 1, SatAdd(x, d.n))
    IN [s EXCEPT !.k = "short", !.more = TRUE, !.big = @ \/ Known(m, s.p, n), !.huge = @ \/ n = MaxInt]
  ELSE IF d.k # "ok" THEN [s EXCEPT !.k = d.k, !.more = s.need > m.lim - s.p]
  ELSE LET t == d.tag.t  c == TLen(d.tag)  q == s.p + d.n IN
    IF HasBytes(t) THEN
      LET n == SatAdd(s.need - 1, c)
          b == s.big \/ Known(m, q, n) IN
      IF c > m.lim - q THEN [s EXCEPT !.k = "short", !.p = q, !.big = b, !.more = TRUE, !.huge = @ \/ n = MaxInt]
      ELSE [s EXCEPT !.p = q + c, !.need = @ - 1, !.big = b]
    ELSE LET need == SatAdd(s.need - 1, Kids(t, c))
             cnt == SatAdd(s.cnt, Kids(t, c))
         IN [s EXCEPT !.p = q, !.need = need, !.cnt = cnt, !.big = @ \/ Known(m, q, need) \/ cnt > m.maxn, !.huge = @ \/ need = MaxInt]
TWalk(h, m, p, big) ==
  LET w == Loop(LAMBDA s : TWalk1(h, m, s), LAMBDA s : s.k # "run" \/ s.need = 0,
                [k |-> "run", p |-> p, need |-> 1, cnt |-> 1, big |-> big, more |-> FALSE, huge |-> FALSE])
  IN [w EXCEPT !.k = IF @ = "run" THEN "ok" ELSE @]
Message(h, st, base, lim) ==
  LET m == [base |-> base, lim |-> lim, maxs |-> st.maxs, maxn |-> st.maxn] IN
  TWalk(h, m, base, Known(m, base, 1) \/ 1 > m.maxn)

NextBase(st) == IF st.cur = "parsed" THEN st.base + st.size ELSE st.base
DefectErr(k) == CASE k = "reserved" -> {"invalid"} [] k = "ext" -> {"unsupported"} [] OTHER -> {}
\* memory in use at most a small multiple of the data present; for a stream
\* also the buffer, at most twice while it grows
Bound(h, st, e) ==
  LET n == IF h.src = "stream" THEN Min2(e.av, st.maxs) ELSE Len(h.data)
      b == 100 * Min2(n, 10000000) + 20000
      f == IF h.src = "file" THEN Len(h.data) + h.bufsz ELSE 0
      s == IF h.src = "stream" THEN 2 * Min2(st.maxs, 500000000) ELSE 0
  IN e.pk <= b + f + s \/ (h.src = "stream" /\ st.maxs > 500000000)
\* the outcome of a parse: the errors it may raise, whether it may succeed,
\* whether it may say that the message is not there yet
TParse(h, st, e) ==
  LET base == NextBase(st)
      w == Message(h, st, base, e.av)
      gone == CASE e.sf -> {e.se}
                [] h.src # "stream" -> {"invalid"}
                [] e.op = "parse" /\ e.wb -> {"io"}
                [] OTHER -> {}
      errs == IF e.sf THEN {e.se}
              ELSE If(w.big, {"too_big"}) \cup DefectErr(w.k) \cup If(w.more, gone)
                   \cup If(h.m32 /\ w.huge, {"invalid", "too_big"})

  IN [errs |-> errs,
      done |-> w.k = "ok" /\ ~w.big /\ ~e.sf,
      wait |-> h.src = "stream" /\ e.op = "try" /\ e.wb /\ ~e.sf /\ w.more,
      \* nothing is asked for once the message is complete, and no error is
      \* made of input that has not been asked for
      asked |-> e.pv < 0 \/ Message(h, st, base, e.pv).k # "ok",
      base |-> base, size |-> w.p - base]

\* ---- nodes ----
NTag(h, nd) == CASE nd.k = "node" -> DecodeAt(h.data, nd.p, Len(h.data), h.ext).tag
                 [] nd.k = "missing" -> TagOf("missing", Zero8)
                 [] nd.k = "nil" -> NilTag
NBody(h, nd) == nd.p + DecodeAt(h.data, nd.p, Len(h.data), h.ext).n     \* where its contents start
NData(h, nd) == Slice(h, NBody(h, nd), TLen(NTag(h, nd)))
After(h, p, n) == Walk(h.data, p, Len(h.data), n, h.ext).p              \* past n objects from p
NChild(h, nd, i) == [k |-> "node", p |-> After(h, NBody(h, nd), i)]
\* entries of a map from the i-th on, the key at p, that match
Hit(h, p, e) ==
  LET key == [k |-> "node", p |-> p]  tag == NTag(h, key) IN
  CASE e.kd = "int" -> Norm(tag) = Norm(TagOf("int", e.v))
    [] e.kd = "uint" -> Norm(tag) = TagOf("uint", e.v)
    [] e.kd = "str" -> tag.t = "str" /\ NData(h, key) = e.d
Hits(h, p, n, e) ==
  Loop(LAMBDA s : LET v == After(h, s.p, 1) IN
                  [p |-> After(h, v, 1), n |-> s.n - 1, l |-> IF Hit(h, s.p, e) THEN Append(s.l, v) ELSE s.l],
       LAMBDA s : s.n = 0, [p |-> p, n |-> n, l |-> <<>>]).l
\* a subtree in preorder
Pre1(h, l, s) ==
  IF s.i > Len(l) THEN [s EXCEPT !.k = "no"]
  ELSE LET d == DecodeAt(h.data, s.p, Len(h.data), h.ext)  c == TLen(d.tag)  q == s.p + d.n IN
    IF d.k # "ok" \/ l[s.i].g # d.tag THEN [s EXCEPT !.k = "no"]
    ELSE IF HasBytes(d.tag.t) THEN
      IF l[s.i].d # Slice(h, q, c) THEN [s EXCEPT !.k = "no"]
      ELSE [s EXCEPT !.i = @ + 1, !.p = q + c, !.need = @ - 1]
    ELSE [s EXCEPT !.i = @ + 1, !.p = q, !.need = SatAdd(@ - 1, Kids(d.tag.t, c))]
Preorder(h, l, p) ==
  LET w == Loop(LAMBDA s : Pre1(h, l, s), LAMBDA s : s.k # "run" \/ s.need = 0,
                [k |-> "run", i |-> 1, p |-> p, need |-> 1])
  IN w.k = "run" /\ w.i = Len(l) + 1

\* ---- accessors: errors raised (none: success), state after success ----
TTo(st, e, nd) == IF e.to > 0 THEN [st EXCEPT !.regs[e.to] = nd] ELSE st
DataKinds == {"str", "bin", "ext"}
TIdx(h, st, e, nd, t, pos) ==
  LET tag == NTag(h, nd) IN
  RR(IF tag.t # t THEN {"type"} ELSE If(e.i >= TLen(tag), {"data"}),
     IF tag.t = t /\ e.i < TLen(tag) THEN TTo(st, e, NChild(h, nd, pos)) ELSE st, TRUE, TRUE)
TLook(h, st, e, nd) ==
  LET tag == NTag(h, nd)
      hits == IF tag.t = "map" THEN Hits(h, NBody(h, nd), TLen(tag), e) ELSE <<>>
      n == Len(hits)
      errs == IF tag.t # "map" THEN {"type"}
              ELSE If(n > 1 \/ (n = 0 /\ ~e.opt /\ ~e.has), {"data"})
      res == IF n = 1 THEN [k |-> "node", p |-> hits[1]] ELSE [k |-> "missing", p |-> 0]
  IN RR(errs, TTo(st, e, res), e.has => e.r = (n = 1), e.has => ~e.r)
TNum(h, st, e, tag) ==
  RR(If(tag.t \notin {"uint", "int"}, {"type"}) \cup If(tag.t \in {"uint", "int"} /\ ~InRange(e, tag), {"type"}),
     st, e.r = tag.v, e.r = Zero8)
TReal(h, st, e, tag) ==
  LET f == IF e.fn \in {"float", "float_strict", "raw_float"} THEN FB ELSE DB
      K == CASE e.fn \in {"float", "double"} -> {"uint", "int", "float", "double"}
             [] e.fn = "double_strict" -> {"float", "double"}
             [] e.fn = "raw_double" -> {"double"}
             [] OTHER -> {"float"}
  IN IF tag.t \notin K THEN RR({"type"}, st, TRUE, e.r = Zero8)
     ELSE LET v == ToReal(tag, f) IN
          RR({}, st, RSame(e.r, v, f) \/ (~h.dbl /\ f = FB /\ tag.t = "double" /\ RShort(e.r, tag.v)), e.r = Zero8)
TTs(h, st, e, nd) ==
  LET tag == NTag(h, nd)
      t == IF tag.t = "ext" /\ TLen(tag) \in {4, 8, 12} THEN DecTimestamp(NData(h, nd)) ELSE [ok |-> FALSE, s |-> Zero8, ns |-> Zero4]
      is(s, ns) == (e.fn = "nsec" \/ e.s = s) /\ (e.fn = "sec" \/ e.ns = ns)
  IN RR(IF tag.t # "ext" \/ tag.x # -1 THEN {"type"} ELSE If(~t.ok, {"invalid"}), st,
        is(t.s, UExt(t.ns)), is(Zero8, Zero8))
TLenOf(h, st, e, tag) ==
  LET K == CASE e.fn = "bin_size" -> {"bin"} [] e.fn = "data_len" -> DataKinds [] e.fn = "strlen" -> {"str"}
             [] e.fn = "array_length" -> {"array"} [] e.fn = "map_count" -> {"map"}
  IN RR(If(tag.t \notin K, {"type"}), st, e.r = TLen(tag), e.r = 0)
TData(h, st, e, nd) ==
  LET tag == NTag(h, nd)
      K == CASE e.fn = "str" -> {"str"} [] e.fn = "data" -> DataKinds [] e.fn = "bin_data" -> {"bin"}
      ok == tag.t \in K
  IN RR(If(~ok, {"type"}), st,
        ok => /\ e.d = NData(h, nd)
              /\ TLen(tag) > 0 => ~e.null
              /\ (h.src \in {"data", "pool"} /\ TLen(tag) > 0) => e.off = NBody(h, nd),
        e.null)
IsC(fn) == fn \in {"cstr", "utf8_cstr"}
Wrong(fn, s) == (IsC(fn) /\ ~NoNul(s)) \/ (fn \in {"utf8", "utf8_cstr"} /\ ~IsUtf8(s))
TCopy(h, st, e, nd) ==
  LET tag == NTag(h, nd)
      K == IF e.fn = "data" THEN DataKinds ELSE {"str"}
      ok == tag.t \in K
      n == TLen(tag)
      s == IF ok THEN NData(h, nd) ELSE <<>>
      errs == IF ~ok THEN {"type"}
              ELSE IF n > e.cap \/ (IsC(e.fn) /\ n >= e.cap) THEN {"too_big"} \cup If(Wrong(e.fn, s), {"type"})
              ELSE If(Wrong(e.fn, s), {"type"})
  IN RR(errs, st, e.d = s /\ (IF IsC(e.fn) THEN e.z ELSE e.r = n), e.d = <<>> /\ (IF IsC(e.fn) THEN e.z ELSE e.r = 0))
TAlloc(h, st, e, nd) ==
  LET tag == NTag(h, nd)
      K == IF e.fn = "data" THEN DataKinds ELSE {"str"}
      ok == tag.t \in K
      n == TLen(tag)
      s == IF ok THEN NData(h, nd) ELSE <<>>
      errs == If(IsC(e.fn) /\ e.max < 1, {"bug"}) \cup
              (IF ~ok THEN {"type"}
               ELSE If(n > e.max \/ (IsC(e.fn) /\ n >= e.max), {"too_big"}) \cup If(Wrong(e.fn, s), {"type"}))
  IN RR(errs, st, e.d = s /\ (IsC(e.fn) => ~e.null /\ e.z) /\ (n > 0 => ~e.null), e.null)
TEnum(h, st, e, nd, opt) ==
  LET tag == NTag(h, nd)
      c == Len(e.keys)
      i == IF tag.t = "str" THEN FindFrom(e.keys, NData(h, nd), 1) ELSE 0
      r == IF i = 0 THEN c ELSE i - 1
  IN RR(If(~opt /\ r = c, {"type"}), st, e.r = r, e.r = c)
TKind(st, tag, t, v) == RR(If(tag.t # t \/ (v # <<>> /\ tag.v # v), {"type"}), st, TRUE, TRUE)

TNode(h, st, e) ==
  LET nd == st.regs[e.n + 1]
      tag == NTag(h, nd)
  IN CASE e.op = "aat" -> TIdx(h, st, e, nd, "array", e.i)
       [] e.op = "kat" -> TIdx(h, st, e, nd, "map", 2 * e.i)
       [] e.op = "vat" -> TIdx(h, st, e, nd, "map", 2 * e.i + 1)
       [] e.op = "look" -> TLook(h, st, e, nd)
       [] e.op = "dump" ->
            RR({}, st, IF nd.k = "node" THEN Preorder(h, e.l, nd.p) ELSE Len(e.l) = 1 /\ e.l[1].g = tag, e.l = <<>>)
       [] e.op = "ntag" -> RR({}, st, e.tag = tag, e.tag = NilTag)
       [] e.op = "ntype" -> RR({}, st, e.t = tag.t, e.t = "nil")
       [] e.op = "isnil" -> RR({}, st, e.r = (tag.t = "nil"), e.r)
       [] e.op = "ismissing" -> RR({}, st, e.r = (tag.t = "missing"), ~e.r)
       [] e.op = "nnil" -> TKind(st, tag, "nil", <<>>)
       [] e.op = "nmissing" -> TKind(st, tag, "missing", <<>>)
       [] e.op = "ntrue" -> TKind(st, tag, "bool", B8(1))
       [] e.op = "nfalse" -> TKind(st, tag, "bool", B8(0))
       [] e.op = "nbool" -> RR(If(tag.t # "bool", {"type"}), st, e.r = (tag.v = B8(1)), ~e.r)
       [] e.op = "nn" -> TNum(h, st, e, tag)
       [] e.op = "nf" -> TReal(h, st, e, tag)
       [] e.op = "nts" -> TTs(h, st, e, nd)
       [] e.op = "nx" -> RR(If(tag.t # "ext", {"type"}), st, e.r = tag.x, e.r = 0)
       [] e.op = "nl" -> TLenOf(h, st, e, tag)
       [] e.op = "nd" -> TData(h, st, e, nd)
       [] e.op = "nc" -> TCopy(h, st, e, nd)
       [] e.op = "na" -> TAlloc(h, st, e, nd)
       [] e.op = "nu" -> RR(If(tag.t # "str" \/ Wrong(e.fn, NData(h, nd)) \/ (e.fn = "utf8_cstr" /\ ~NoNul(NData(h, nd))), {"type"}), st, TRUE, TRUE)
       [] e.op = "nenum" -> TEnum(h, st, e, nd, FALSE)
       [] e.op = "nenumopt" -> TEnum(h, st, e, nd, TRUE)

TOp(h, st, e) ==
  CASE e.op = "init" -> RR(RSeq([se |-> h.ie]), st, TRUE, TRUE)
    [] e.op \in {"destroy", "destroyj"} -> RR({}, st, TRUE, TRUE)
    [] e.op = "limits" -> RR({}, [st EXCEPT !.maxs = e.maxs, !.maxn = Min2(e.maxn, h.pool)], TRUE, TRUE)
    [] e.op = "root" ->
         IF st.cur = "parsed" THEN RR({}, TTo(st, e, [k |-> "node", p |-> st.base]), TRUE, TRUE) ELSE RR({"bug"}, st, TRUE, TRUE)
    [] e.op = "flag" -> RR({e.er}, st, TRUE, TRUE)
    [] OTHER -> TNode(h, st, e)

\* ---- one observed call ----
IsParse(e) == e.op \in {"parse", "try"}
TLatch(st, e) ==
  LET a == [st EXCEPT !.err = e.e] IN
  IF "to" \in DOMAIN e /\ e.to > 0 THEN TTo(a, e, TNil) ELSE a
TFails(h, errs, e) ==
  /\ e.e \in errs
  /\ e.cb = (IF h.eh /\ e.op # "init" THEN << e.e >> ELSE <<>>)
TFaults(e) == If(e.af > 0, {"memory"})
TStep(h, st, e) ==
  IF \/ e.fae # 0
     \/ e.op = "destroy" /\ ~RFinal(h, e)
     \/ e.op = "init" /\ e.fc # e.fcx
  THEN {}
  ELSE IF st.err # "ok" THEN
    IF /\ e.e = st.err /\ e.cb = <<>>
       /\ IsParse(e) => ~e.r
       /\ ~IsParse(e) => TOp(h, st, e).bad
    THEN {TLatch(st, e)} ELSE {}
  ELSE IF IsParse(e) THEN
    LET p == TParse(h, st, e)
        af == TFaults(e)
        st2 == [st EXCEPT !.base = p.base, !.regs = [i \in 1..16 |-> TNil]]
    IN IF ~p.asked \/ ~Bound(h, st, e) THEN {}
       ELSE IF e.e = "ok" THEN
         IF e.cb # <<>> \/ af # {} THEN {}
         ELSE IF p.done /\ (e.op = "parse" \/ e.r) /\ e.size = p.size
              THEN {[st2 EXCEPT !.cur = "parsed", !.size = p.size]}
         ELSE IF p.wait /\ ~e.r THEN {[st2 EXCEPT !.cur = "prog", !.size = 0]}
         ELSE {}
       ELSE IF TFails(h, p.errs \cup af, e) /\ ~e.r /\ e.size = 0 THEN {[st2 EXCEPT !.err = e.e, !.cur = "none"]}
       ELSE {}
  ELSE LET r == TOp(h, st, e)
           errs == r.errs \cup TFaults(e)
       IN IF errs = {} /\ e.e = "ok" /\ e.cb = <<>> /\ r.good THEN {r.st}
          ELSE IF TFails(h, errs, e) /\ (e.j \/ r.bad) THEN {TLatch(st, e)}
          ELSE {}
=============================================================================
