------------------------------- MODULE Reader -------------------------------
(* The reader as a user sees it: an error latch, a position in the input and  *)
(* the structure announced so far.  h (the header of a program) holds         *)
(*   data, lim  the input and how much of it can be read                      *)
(*   src        "mem", "stream" or "file";  bufsz  size of its buffer         *)
(*   se         the errors that running out of input may give                 *)
(*   trk        structure tracking on;  ext  extension types supported        *)
(* Every operation yields the errors it must raise (none: success), the state *)
(* after success, and whether the returned values are right for success       *)
(* (good) or are the promised defaults (bad).                                 *)
EXTENDS Wire, Utf8, Track, Real

RInit(h) == [k |-> "R", err |-> h.e0, pos |-> 0, stk |-> <<>>, fu |-> {}, fc |-> {}]
RR(errs, st, good, bad) == [errs |-> errs, st |-> st, good |-> good, bad |-> bad]
RSeq(h) == {h.se[i] : i \in 1..Len(h.se)}
RBug(h, c) == IF h.trk /\ c THEN {"bug"} ELSE {}
If(c, s) == IF c THEN s ELSE {}
Slice(h, p, n) == IF n <= Len(h.data) - p THEN SubSeq(h.data, p + 1, p + n) ELSE <<>>
Fits(h, p, n) == n <= h.lim - p

\* ---- headers ----
RDec(h, st) == DecodeAt(h.data, st.pos, h.lim, h.ext)
DecErrs(h, d) ==
  CASE d.k = "ok" -> {}
    [] d.k = "short" -> RSeq(h)
    [] d.k = "reserved" -> {"invalid"}
    [] d.k = "ext" -> {"unsupported"}
\* the kind announced by a first byte
ByteKind(b) ==
  CASE b < 128 \/ b \in 204..207 -> "uint"
    [] b < 144 \/ b \in 222..223 -> "map"
    [] b < 160 \/ b \in 220..221 -> "array"
    [] b < 192 \/ b \in 217..219 -> "str"
    [] b = 192 -> "nil"
    [] b = 193 -> "none"
    [] b \in {194, 195} -> "bool"
    [] b \in 196..198 -> "bin"
    [] b \in 199..201 \/ b \in 212..216 -> "ext"
    [] b = 202 -> "float"
    [] b = 203 -> "double"
    [] OTHER -> "int"
AllKinds == {"nil","bool","int","uint","float","double","str","bin","ext","array","map"}
\* after a header: its element is counted, and what it opens is opened
AfterTag(st, d) ==
  LET a == [st EXCEPT !.pos = @ + d.n, !.stk = ElementDone(@)]
  IN IF HasBytes(d.tag.t) \/ IsCompound(d.tag.t) THEN [a EXCEPT !.stk = Push(@, d.tag.t, TLen(d.tag))] ELSE a
\* read a header of one of the kinds K.  When the header is incomplete or
\* reserved but already known not to be one of K, a type error is as good.
Hdr(h, st, K) ==
  LET d == RDec(h, st) IN
  [d |-> d, tag |-> d.tag, n |-> TLen(d.tag), st |-> AfterTag(st, d),
   errs |-> RBug(h, ~ElementAllowed(st.stk)) \cup
     (IF d.k = "ok" THEN If(d.tag.t \notin K, {"type"})
      ELSE DecErrs(h, d) \cup If(K # AllKinds /\ st.pos < h.lim /\ ByteKind(h.data[st.pos + 1]) \notin K, {"type"}))]

\* ---- the bytes of the open object ----
MoveBytes(st, n) == [st EXCEPT !.pos = @ + Min2(n, MaxInt - @), !.stk = BytesDone(@, n)]
BytesErrs(h, st, n) ==
  RBug(h, ~BytesAllowed(st.stk, n)) \cup If(~Fits(h, st.pos, n), RSeq(h))
StrErrs(h, st, n) ==
  RBug(h, ~StrAllAllowed(st.stk, n)) \cup If(~Fits(h, st.pos, n), RSeq(h))
TooWide(h, n) == If(h.src # "mem" /\ n > h.bufsz, {"too_big"})
CloseErrs(h, st, t) == RBug(h, ~CloseAllowed(st.stk, t, FALSE))
Close(st) == [st EXCEPT !.stk = Pop(@)]

\* ---- tag reader ----
RTag(h, st, e) == LET r == Hdr(h, st, AllKinds) IN RR(r.errs, r.st, e.tag = r.tag, e.tag = NilTag)
RPeek(h, st, e) == LET r == Hdr(h, st, AllKinds) IN RR(r.errs, st, e.tag = r.tag, e.tag = NilTag)
RBytes(h, st, e) ==
  RR(BytesErrs(h, st, e.n), MoveBytes(st, e.n), e.d = Slice(h, st.pos, e.n), e.d = <<>>)
RUtf8(h, st, e) ==
  LET errs == StrErrs(h, st, e.n)  s == Slice(h, st.pos, e.n) IN
  RR(IF errs # {} THEN errs ELSE If(~IsUtf8(s), {"type"}), MoveBytes(st, e.n), e.d = s, e.d = <<>>)
RCstr(h, st, e, u8) ==
  LET errs == StrErrs(h, st, e.n) \cup If(e.n >= e.cap, {"too_big"})  s == Slice(h, st.pos, e.n) IN
  RR(IF errs # {} THEN errs ELSE If(~NoNul(s) \/ (u8 /\ ~IsUtf8(s)), {"type"}),
     MoveBytes(st, e.n), e.d = s /\ e.z, e.d = <<>> /\ e.z)
RInplace(h, st, e) ==
  RR(BytesErrs(h, st, e.n) \cup TooWide(h, e.n), MoveBytes(st, e.n), ~e.null /\ e.d = Slice(h, st.pos, e.n), e.null)
RUtf8Inplace(h, st, e) ==
  LET errs == StrErrs(h, st, e.n) \cup TooWide(h, e.n)  s == Slice(h, st.pos, e.n) IN
  RR(IF errs # {} THEN errs ELSE If(~IsUtf8(s), {"type"}), MoveBytes(st, e.n), ~e.null /\ e.d = s, e.null)
RAlloc(h, st, e, zt) ==
  RR(BytesErrs(h, st, e.n), MoveBytes(st, e.n),
     IF e.n = 0 /\ ~zt THEN e.null ELSE ~e.null /\ e.d = Slice(h, st.pos, e.n) /\ (zt => e.z), e.null)
RSkip(h, st, e) == RR(BytesErrs(h, st, e.n), MoveBytes(st, e.n), TRUE, TRUE)
RDone(h, st, e) == RR(CloseErrs(h, st, e.t), Close(st), TRUE, TRUE)
RDiscard(h, st) ==
  LET w == Walk(h.data, st.pos, h.lim, 1, h.ext) IN
  RR(RBug(h, ~ElementAllowed(st.stk)) \cup DecErrs(h, w),
     [st EXCEPT !.pos = w.p, !.stk = ElementDone(@)], TRUE, TRUE)
RRemain(h, st, e) ==
  RR(RBug(h, st.stk # <<>>), st,
     /\ Len(e.d) = e.n /\ Fits(h, st.pos, e.n) /\ e.d = Slice(h, st.pos, e.n)
     /\ (e.sp >= 0 => e.n = e.sp - st.pos),
     e.n = 0)
TsIs(e, s, ns) == e.s = s /\ (e.op = "etst" \/ e.ns = ns)
TsZero(e) == TsIs(e, Zero8, Zero8)
RTs(h, st, n, e) ==
  IF n \notin {4, 8, 12} THEN RR({"invalid"} \cup RBug(h, ~BytesAllowed(st.stk, n)), st, TRUE, TsZero(e))
  ELSE LET errs == BytesErrs(h, st, n)
           a == MoveBytes(st, n)
           errs2 == IF errs # {} THEN errs ELSE CloseErrs(h, a, "ext")
           t == DecTimestamp(Slice(h, st.pos, n))
       IN IF errs2 # {} THEN RR(errs2, st, TRUE, TsZero(e))
          ELSE RR(If(~t.ok, {"invalid"}), Close(a), TsIs(e, t.s, UExt(t.ns)), TsZero(e))

\* ---- typed reads ----
InRange(e, tag) ==
  CASE tag.t = "uint" -> IF e.s THEN ~IsNeg(tag.v) /\ SLe(e.lo, tag.v) /\ SLe(tag.v, e.hi)
                         ELSE ULe(e.lo, tag.v) /\ ULe(tag.v, e.hi)
    [] tag.t = "int" -> IF e.s THEN SLe(e.lo, tag.v) /\ SLe(tag.v, e.hi)
                        ELSE ~IsNeg(tag.v) /\ ULe(e.lo, tag.v) /\ ULe(tag.v, e.hi)
RNum(h, st, e) ==
  LET r == Hdr(h, st, {"uint", "int"}) IN
  RR(IF r.errs # {} THEN r.errs ELSE If(~InRange(e, r.tag), {"type"}),
     r.st, e.nr \/ e.r = r.tag.v, e.nr \/ e.r = e.df)
Ranged(e) == e.fn \in {"float_range", "double_range"}
RReal(h, st, e) ==
  LET f == IF e.fn \in {"float", "float_strict", "float_range", "raw_float"} THEN FB ELSE DB
      K == CASE e.fn \in {"float", "double", "float_range", "double_range"} ->
                  {"uint", "int", "float", "double"}
             [] e.fn = "double_strict" -> {"float", "double"}
             [] e.fn = "raw_double" -> {"double"}
             [] OTHER -> {"float"}
      r == Hdr(h, st, K)
      v == ToReal(r.tag, f)
      out == Ranged(e) /\ (IsNaN(v, f) \/ ~RLe(e.lo, v, f) \/ ~RLe(v, e.hi, f))
  IN IF r.errs # {} THEN RR(r.errs, st, TRUE, e.r = (IF Ranged(e) THEN e.lo ELSE Zero8))
     ELSE RR(If(out, {"type"}), r.st,
             RSame(e.r, v, f) \/ (~h.dbl /\ f = FB /\ r.tag.t = "double" /\ RShort(e.r, r.tag.v)),
             e.r = (IF Ranged(e) THEN e.lo ELSE Zero8))
RCount(h, st, e) ==
  LET r == Hdr(h, st, {e.t} \cup If(e.nil, {"nil"}))
      isnil == r.tag.t = "nil"
      bad == IF e.nr THEN TRUE ELSE e.r = e.df /\ (e.nil => ~e.has)
  IN IF r.errs # {} THEN RR(r.errs, st, TRUE, bad)
     ELSE IF isnil THEN RR({}, r.st, e.r = Zero8 /\ ~e.has, bad)
     ELSE RR(If(~(ULe(e.lo, r.tag.v) /\ ULe(r.tag.v, e.hi)), {"type"}), r.st,
             e.nr \/ (e.r = r.tag.v /\ (e.nil => e.has)), bad)
RArrayAlloc(h, st, e) ==
  LET r == Hdr(h, st, {"array"} \cup If(e.nil, {"nil"}))
      bad == e.null /\ e.r = Zero8
  IN IF r.errs # {} THEN RR(r.errs, st, TRUE, bad)
     ELSE IF r.tag.t = "nil" THEN RR({}, r.st, bad, bad)
     ELSE IF ~ULe(r.tag.v, e.hi) THEN RR({"type"}, st, TRUE, bad)
     ELSE IF r.n = 0 THEN RR({}, IF e.nil THEN Close(r.st) ELSE r.st, bad, bad)
     ELSE IF h.m32 /\ r.n > MaxInt \div 2 THEN RR({"memory"}, st, TRUE, bad)      \* more than can be addressed
     ELSE RR({}, r.st, ~e.null /\ e.r = r.tag.v /\ r.n < MaxInt \div 4 /\ e.nb = 4 * r.n, bad)
\* the length of a string, blob or extension
IsTimestampTag(tag) == tag.t = "ext" /\ tag.x = -1
RLen(h, st, e) ==
  LET r == Hdr(h, st, {e.t})
      bad == (e.nr \/ e.r = Zero8) /\ e.x = 0
      over == If(~(ULe(e.lo, r.tag.v) /\ ULe(r.tag.v, e.hi)), IF e.fn = "str_max" THEN {"type", "too_big"} ELSE {"type"})
  IN IF r.errs # {} THEN RR(r.errs, st, TRUE, bad)
     ELSE RR(over, r.st, (e.nr \/ e.r = r.tag.v) /\ e.x = r.tag.x, bad)
\* a whole string, blob or extension copied out; errs and wrong are the
\* complaints about its length and about its contents
Blob(h, r, t, lenErrs, wrong, goodOf(_), bad) ==
  LET st2 == r.st
      errs == IF r.errs # {} THEN r.errs ELSE lenErrs \cup If(~Fits(h, st2.pos, r.n), RSeq(h))
      s == Slice(h, st2.pos, r.n)
  IN IF errs # {} THEN RR(errs, st2, TRUE, bad)
     ELSE RR(If(wrong # "none" /\ ((wrong \in {"cstr", "utf8cstr"} /\ ~NoNul(s)) \/ (wrong \in {"utf8", "utf8cstr"} /\ ~IsUtf8(s))), {"type"}),
             Close(MoveBytes(st2, r.n)), goodOf(s), bad)
RBuf(h, st, e) ==
  LET r == Hdr(h, st, {e.t}) IN
  Blob(h, r, e.t, IF e.exact THEN If(r.n # e.cap, {"type"}) ELSE If(r.n > e.cap, {"too_big"}),
       IF e.utf8 THEN "utf8" ELSE "none",
       LAMBDA s : e.r = r.n /\ e.d = s /\ e.x = r.tag.x, e.r = 0 /\ e.x = 0 /\ e.d = <<>>)
RBufCstr(h, st, e) ==
  LET r == Hdr(h, st, {"str"}) IN
  Blob(h, r, "str", If(r.n >= e.cap, {"too_big"}), IF e.utf8 THEN "utf8cstr" ELSE "cstr",
       LAMBDA s : e.d = s /\ e.z, e.d = <<>> /\ e.z)
RBlobAlloc(h, st, e) ==
  LET c == e.fn \in {"cstr", "utf8_cstr"}
      t == IF c THEN "str" ELSE e.fn
      r == Hdr(h, st, {t})
  IN IF c /\ e.max < 1 THEN RR({"bug"}, st, TRUE, e.null)
     ELSE Blob(h, r, t,
          IF c THEN If(r.n >= e.max, {"type", "too_big"}) ELSE If(r.n > e.max, {"type", "too_big"}),
          CASE e.fn = "cstr" -> "cstr" [] e.fn = "utf8_cstr" -> "utf8cstr" [] OTHER -> "none",
          LAMBDA s : IF c THEN ~e.null /\ e.d = s /\ e.z
                     ELSE (IF r.n = 0 THEN e.null ELSE ~e.null) /\ e.d = s /\ e.r = r.n /\ e.x = r.tag.x,
          e.null /\ (c \/ (e.r = 0 /\ e.x = 0)))
RMatch(h, st, e) ==
  LET r == Hdr(h, st, {"str"})
      n == Len(e.d)
      errs == IF r.errs # {} THEN r.errs
              ELSE IF r.n # n THEN {"type"}
              ELSE LET k == Min2(n, h.lim - r.st.pos)       \* as far as there is input
                       same == Slice(h, r.st.pos, k) = Take(e.d, k)
                   IN If(k < n, RSeq(h)) \cup If(~same, {"type"})
  IN RR(errs, Close(MoveBytes(r.st, n)), TRUE, TRUE)
RTagMatch(h, st, e) ==
  LET r == Hdr(h, st, AllKinds) IN
  RR(IF r.errs # {} THEN r.errs ELSE If(Norm(r.tag) # Norm(e.tag), {"type"}),
     r.st, TRUE, TRUE)
RScalar(h, st, K, v) ==     \* nil, true, false
  LET r == Hdr(h, st, K) IN
  RR(IF r.errs # {} THEN r.errs ELSE If(v # <<>> /\ r.tag.v # v, {"type"}), r.st, TRUE, TRUE)
RBool(h, st, e) ==
  LET r == Hdr(h, st, {"bool"}) IN RR(r.errs, r.st, e.r = (r.tag.v[8] = 1), ~e.r)
RTimestamp(h, st, e) ==
  LET r == Hdr(h, st, {"ext"}) IN
  IF r.errs # {} THEN RR(r.errs, st, TRUE, TsZero(e))
  ELSE IF r.tag.x # -1 THEN RR({"type"}, st, TRUE, TsZero(e))
  ELSE RTs(h, r.st, r.n, e)

\* ---- enumerations and keys ----
RECURSIVE FindFrom(_, _, _)
FindFrom(ks, s, i) == IF i > Len(ks) THEN 0 ELSE IF ks[i] = s THEN i ELSE FindFrom(ks, s, i + 1)
\* the key in front: errs, state after it, index (Len(ks) if none)
KeyStr(h, st, ks) ==
  LET r == Hdr(h, st, {"str"})
      errs == IF r.errs # {} THEN r.errs ELSE TooWide(h, r.n) \cup If(~Fits(h, r.st.pos, r.n), RSeq(h))
      i == IF errs # {} THEN 0 ELSE FindFrom(ks, Slice(h, r.st.pos, r.n), 1)
  IN [errs |-> errs, st |-> Close(MoveBytes(r.st, r.n)), i |-> IF i = 0 THEN Len(ks) ELSE i - 1]
KeyOpt(h, st, ks) ==
  LET p == Hdr(h, st, AllKinds) IN
  IF p.errs # {} THEN [errs |-> p.errs, st |-> st, i |-> Len(ks)]
  ELSE IF p.tag.t = "str" THEN KeyStr(h, st, ks)
  ELSE LET d == RDiscard(h, st) IN [errs |-> d.errs, st |-> d.st, i |-> Len(ks)]
REnum(h, st, e) ==
  LET k == KeyStr(h, st, e.keys)  n == Len(e.keys) IN
  RR(IF k.errs # {} THEN k.errs ELSE If(k.i = n, {"type"}), k.st, e.r = k.i, e.r = n)
REnumOpt(h, st, e) ==
  LET k == KeyOpt(h, st, e.keys) IN RR(k.errs, k.st, e.r = k.i, e.r = Len(e.keys))
FdIs(e, set) == \A i \in 1..Len(e.fd) : e.fd[i] = ((i - 1) \in set)
RKeyCstr(h, st, e) ==
  LET k == KeyOpt(h, st, e.keys)  n == Len(e.keys)
      errs == IF k.errs # {} THEN k.errs ELSE If(k.i < n /\ k.i \in st.fc, {"invalid"})
      fc == IF k.i < n THEN st.fc \cup {k.i} ELSE st.fc
  IN RR(errs, [k.st EXCEPT !.fc = fc], e.r = k.i /\ FdIs(e, fc), e.r = n /\ FdIs(e, st.fc))
RKeyUint(h, st, e) ==
  LET p == Hdr(h, st, AllKinds)
      isnum == Norm(p.tag).t = "uint"
      i == IF isnum THEN Min2(TLen(p.tag), e.n) ELSE e.n
      d == IF isnum THEN RR(p.errs, p.st, TRUE, TRUE) ELSE RDiscard(h, st)
      errs == IF e.n = 0 THEN {"bug"} ELSE IF p.errs # {} THEN p.errs ELSE IF d.errs # {} THEN d.errs
              ELSE If(i < e.n /\ i \in st.fu, {"invalid"})
      fu == IF i < e.n THEN st.fu \cup {i} ELSE st.fu
  IN RR(errs, [d.st EXCEPT !.fu = fu], e.r = i /\ FdIs(e, fu), e.r = e.n /\ FdIs(e, st.fu))

ROp(h, st, e) ==
  CASE e.op = "tag" -> RTag(h, st, e)
    [] e.op = "peek" -> RPeek(h, st, e)
    [] e.op = "bytes" -> RBytes(h, st, e)
    [] e.op = "utf8" -> RUtf8(h, st, e)
    [] e.op = "cstr" -> RCstr(h, st, e, FALSE)
    [] e.op = "utf8cstr" -> RCstr(h, st, e, TRUE)
    [] e.op = "inplace" -> RInplace(h, st, e)
    [] e.op = "utf8inplace" -> RUtf8Inplace(h, st, e)
    [] e.op = "balloc" -> RAlloc(h, st, e, FALSE)
    [] e.op = "ballocz" -> RAlloc(h, st, e, TRUE)
    [] e.op = "skip" -> RSkip(h, st, e)
    [] e.op = "should" -> RR({}, st, e.r => (h.src = "mem" \/ e.n <= h.bufsz), TRUE)
    [] e.op = "done" -> RDone(h, st, e)
    [] e.op = "discard" -> RDiscard(h, st)
    [] e.op = "remain" -> RRemain(h, st, e)
    [] e.op = "ts" -> RTs(h, st, e.n, e)
    [] e.op = "flag" -> RR({e.er}, st, TRUE, TRUE)
    [] e.op = "n" -> RNum(h, st, e)
    [] e.op = "f" -> RReal(h, st, e)
    [] e.op = "c" -> RCount(h, st, e)
    [] e.op = "aalloc" -> RArrayAlloc(h, st, e)
    [] e.op = "l" -> RLen(h, st, e)
    [] e.op = "b" -> RBuf(h, st, e)
    [] e.op = "s" -> RBufCstr(h, st, e)
    [] e.op = "a" -> RBlobAlloc(h, st, e)
    [] e.op = "m" -> RMatch(h, st, e)
    [] e.op = "etag" -> RTagMatch(h, st, e)
    [] e.op = "enil" -> RScalar(h, st, {"nil"}, <<>>)
    [] e.op = "ebool" -> RBool(h, st, e)
    [] e.op = "etrue" -> RScalar(h, st, {"bool"}, B8(1))
    [] e.op = "efalse" -> RScalar(h, st, {"bool"}, B8(0))
    [] e.op \in {"ets", "etst"} -> RTimestamp(h, st, e)
    [] e.op = "enum" -> REnum(h, st, e)
    [] e.op = "enumopt" -> REnumOpt(h, st, e)
    [] e.op = "keyuint" -> RKeyUint(h, st, e)
    [] e.op = "keycstr" -> RKeyCstr(h, st, e)
    [] e.op = "keynew" -> RR({}, [st EXCEPT !.fu = {}, !.fc = {}], TRUE, TRUE)
    [] e.op = "init" -> RR(If(h.src = "stream" /\ h.bufsz < 32 /\ st.err = "ok", {"bug"}), st, TRUE, TRUE)
    [] e.op \in {"destroy", "destroyj"} -> RR(RBug(h, st.stk # <<>>), st, TRUE, TRUE)

\* ---- one observed call ----
RFaults(e) == If(e.af > 0, {"memory"}) \cup If(e.sf /\ e.op \in {"init", "destroy", "destroyj"}, {e.se})
\* extension reads may refuse timestamps (the documentation allows both)
RMay(h, st, e) ==
  IF (e.op = "l" /\ e.t = "ext") \/ (e.op = "b" /\ e.t = "ext") \/ (e.op = "a" /\ e.fn = "ext")
  THEN LET d == RDec(h, st) IN If(d.k = "ok" /\ IsTimestampTag(d.tag), {"type"}) ELSE {}
RFinal(h, e) ==
  /\ e.live = 0 /\ e.dbl = 0                        \* nothing leaked or freed twice
  /\ e.td = e.tdx                                   \* teardown ran exactly once if installed
  /\ e.fc = e.fcx                                   \* file closed exactly once, or never
  /\ e.r = e.e /\ e.same                            \* the input was not modified
NoStk(h, st) == IF h.trk THEN st ELSE [st EXCEPT !.stk = <<>>]
RStep(h, st, e) ==
  IF e.fae # 0 \/ (e.op = "destroy" /\ ~RFinal(h, e)) THEN {}
  ELSE IF st.err # "ok" THEN
    IF e.e = st.err /\ e.cb = <<>> /\ ROp(h, st, e).bad
    THEN {IF e.op = "keynew" THEN [st EXCEPT !.fu = {}, !.fc = {}] ELSE st} ELSE {}
  ELSE LET r == ROp(h, st, e)
           errs == r.errs \cup RFaults(e)
           fails == /\ e.e \in errs \cup RMay(h, st, e)
                    /\ e.cb = (IF h.eh /\ e.op # "init" THEN << e.e >> ELSE <<>>)
                    /\ (e.j \/ r.bad)
           works == errs = {} /\ e.e = "ok" /\ e.cb = <<>> /\ r.good
       IN IF works THEN {NoStk(h, r.st)}
          ELSE IF fails THEN {[st EXCEPT !.err = e.e]}
          ELSE {}
=============================================================================
