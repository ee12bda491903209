------------------------------- MODULE Writer -------------------------------
(* The writer as a user sees it: an error latch, a declared structure, and a  *)
(* logical output.  h (the header of a program) holds the fixed facts:        *)
(*   trk  structure tracking on        cap  capacity of a fixed buffer, or -1 *)
(*   flush  a flush function exists    eh   an error handler is installed     *)
(* A call e has op, its arguments, and the environment events that happened   *)
(* during it: af (an allocation failed), sf (the sink failed, with error se). *)
EXTENDS Wire, Utf8, Track

WInit(h) == [err |-> h.e0, stk |-> <<>>, out |-> <<>>, att |-> <<>>, ver |-> 5]

(* a result: the errors this call must raise (none: success) and the state on *)
(* success; att is what may have reached the sink when it fails               *)
Res(errs, st) == [errs |-> errs, st |-> st]

Emit(st, s) ==
  LET i == InBuilder(st.stk) IN
  IF i = 0 THEN [st EXCEPT !.out = @ \o s, !.att = st.out \o s]
  ELSE [st EXCEPT !.stk[i].bytes = @ \o s]
EmitErrs(h, st, s) ==
  IF InBuilder(st.stk) = 0 /\ h.cap >= 0 /\ Len(st.out) + Len(s) > h.cap THEN {"too_big"} ELSE {}
BugIf(h, c) == IF h.trk /\ c THEN {"bug"} ELSE {}

(* one complete element whose encoding is s *)
WElem(h, st, s) ==
  Res(BugIf(h, ~ElementAllowed(st.stk)) \cup EmitErrs(h, st, s),
      LET a == Emit(st, s) IN [a EXCEPT !.stk = ElementDone(@)])
(* an element that opens a string, blob, extension, array or map *)
WStart(h, st, s, t, n) ==
  LET r == WElem(h, st, s) IN
  Res(r.errs, [r.st EXCEPT !.stk = Push(@, t, n)])
WBytes(h, st, d) ==
  Res(BugIf(h, ~BytesAllowed(st.stk, Len(d))) \cup EmitErrs(h, st, d),
      LET a == Emit(st, d) IN [a EXCEPT !.stk = BytesDone(@, Len(d))])
WFinish(h, st, t) ==
  Res(BugIf(h, ~CloseAllowed(st.stk, t, FALSE)), [st EXCEPT !.stk = Pop(@)])

WBuild(h, st, t) ==
  Res(BugIf(h, ~ElementAllowed(st.stk)), [st EXCEPT !.stk = PushBuilder(ElementDone(@), t)])
WComplete(h, st, t) ==
  IF st.stk = <<>> \/ ~CloseAllowed(st.stk, t, TRUE) THEN Res({"bug"}, st)
  ELSE LET f == Last(st.stk)
           a == [st EXCEPT !.stk = Pop(@)]
           s == (IF t = "map" THEN EncMap(B4(f.cnt)) ELSE EncArray(B4(f.cnt))) \o f.bytes
       IN Res(EmitErrs(h, a, s), Emit(a, s))

WStr(h, st, d) == WElem(h, st, EncStrHdr(B4(Len(d)), st.ver) \o d)
WUtf8(h, st, d) ==
  IF IsUtf8(d) THEN WStr(h, st, d)
  ELSE Res({"invalid"} \cup BugIf(h, ~ElementAllowed(st.stk)), st)
WBin(h, st, d) == WElem(h, st, EncBinHdr(B4(Len(d)), st.ver) \o d)
WExt(h, st, x, d) ==
  IF st.ver < 5 THEN Res({"bug"}, st) ELSE WElem(h, st, EncExtHdr(x, B4(Len(d))) \o d)
WTs(h, st, s, ns) ==
  IF st.ver < 5 \/ ~NsOk(ns) THEN Res({"bug"}, st) ELSE WElem(h, st, EncTimestamp(s, ns))
WTag(h, st, tag) ==
  CASE tag.t = "missing" -> Res({"bug"}, st)
    [] tag.t = "ext" /\ st.ver < 5 -> Res({"bug"}, st)
    [] OTHER -> IF HasBytes(tag.t) \/ IsCompound(tag.t)
                THEN WStart(h, st, EncTag(tag, st.ver), tag.t, TLen(tag))
                ELSE WElem(h, st, EncTag(tag, st.ver))

(* n nils in a row, written inside an array (or as whole pairs of a map)      *)
WRep(h, st, n) ==
  LET d == Rep(192, n)
      k == Len(st.stk)
      f == Last(st.stk)
      m == IF f.t = "map" THEN n \div 2 ELSE n
      a == Emit(st, d)
  IN Res(EmitErrs(h, st, d),
         IF k = 0 THEN a
         ELSE [a EXCEPT !.stk[k].cnt = @ + m, !.stk[k].left = IF f.b THEN 0 ELSE @ - m])

(* a scalar written by the generic interface: k is the C type *)
WGen(h, st, e) ==
  CASE e.k \in {"u8","u16","u32","u64"} -> WElem(h, st, EncUint(e.v))
    [] e.k \in {"i8","i16","i32","i64"} -> WElem(h, st, EncInt(e.v))
    [] e.k = "bool" -> WElem(h, st, EncBool(e.v[8] = 1))
    [] e.k = "float" -> WElem(h, st, << 202 >> \o SubSeq(e.v, 5, 8))
    [] e.k = "double" -> WElem(h, st, << 203 >> \o e.v)
    [] e.k = "cstr" -> IF e.null THEN WElem(h, st, << 192 >>) ELSE WStr(h, st, e.d)
Seq2(a, F(_)) == LET b == F(a.st) IN Res(a.errs \cup b.errs, b.st)

WOp(h, st, e) ==
  CASE e.op \in {"u8","u16","u32","u64","uint"} -> WElem(h, st, EncUint(e.v))
    [] e.op \in {"i8","i16","i32","i64","int"} -> WElem(h, st, EncInt(e.v))
    [] e.op = "bool" -> WElem(h, st, EncBool(e.v[8] = 1))
    [] e.op = "true" -> WElem(h, st, << 195 >>)
    [] e.op = "false" -> WElem(h, st, << 194 >>)
    [] e.op = "nil" -> WElem(h, st, << 192 >>)
    [] e.op = "repnil" -> WRep(h, st, e.n)
    [] e.op = "float" -> WElem(h, st, << 202 >> \o SubSeq(e.v, 5, 8))
    [] e.op = "double" -> WElem(h, st, << 203 >> \o e.v)
    [] e.op = "objbytes" -> WElem(h, st, e.d)
    [] e.op = "tag" -> WTag(h, st, e.tag)
    [] e.op = "gen" -> WGen(h, st, e)
    [] e.op = "kv" -> Seq2(WStr(h, st, e.key), LAMBDA s : WGen(h, s, e))
    [] e.op = "ts" -> WTs(h, st, e.s, e.ns)
    [] e.op = "str" -> WStr(h, st, e.d)
    [] e.op = "utf8" -> WUtf8(h, st, e.d)
    [] e.op = "cstr" -> WStr(h, st, e.d)
    [] e.op = "cstrnil" -> IF e.null THEN WElem(h, st, << 192 >>) ELSE WStr(h, st, e.d)
    [] e.op = "utf8cstr" -> WUtf8(h, st, e.d)
    [] e.op = "utf8cstrnil" -> IF e.null THEN WElem(h, st, << 192 >>) ELSE WUtf8(h, st, e.d)
    [] e.op = "bin" -> WBin(h, st, e.d)
    [] e.op = "ext" -> WExt(h, st, e.x, e.d)
    [] e.op = "sarr" -> WStart(h, st, EncArray(e.n), "array", ToInt(e.n))
    [] e.op = "smap" -> WStart(h, st, EncMap(e.n), "map", ToInt(e.n))
    [] e.op = "sstr" -> WStart(h, st, EncStrHdr(e.n, st.ver), "str", ToInt(e.n))
    [] e.op = "sbin" -> WStart(h, st, EncBinHdr(e.n, st.ver), "bin", ToInt(e.n))
    [] e.op = "sext" -> IF st.ver < 5 THEN Res({"bug"}, st)
                        ELSE WStart(h, st, EncExtHdr(e.x, e.n), "ext", ToInt(e.n))
    [] e.op = "bytes" -> WBytes(h, st, e.d)
    [] e.op = "fin" -> WFinish(h, st, e.t)
    [] e.op = "barr" -> WBuild(h, st, "array")
    [] e.op = "bmap" -> WBuild(h, st, "map")
    [] e.op = "carr" -> WComplete(h, st, "array")
    [] e.op = "cmap" -> WComplete(h, st, "map")
    [] e.op = "flushmsg" ->
         Res((IF h.trk /\ st.stk # <<>> THEN {"bug"} ELSE {})
             \cup (IF InBuilder(st.stk) # 0 \/ ~h.flush THEN {"bug"} ELSE {}), st)
    [] e.op = "version" -> Res({}, [st EXCEPT !.ver = e.ver])
    [] e.op = "flag" -> Res({e.er}, st)
    [] e.op = "query" -> Res({}, st)
    [] e.op = "destroy" ->
         Res(IF (h.trk /\ st.stk # <<>>) \/ InBuilder(st.stk) # 0 THEN {"bug"} ELSE {}, st)
    [] e.op = "destroyj" ->      \* destruction left by a jump out of the handler
         Res(IF (h.trk /\ st.stk # <<>>) \/ InBuilder(st.stk) # 0 THEN {"bug"} ELSE {}, st)
    [] e.op = "init" -> Res(IF h.small THEN {"bug"} ELSE {}, st)   \* too small a buffer to flush

(* ---- one observed call ---- *)
(* environment faults add possible errors *)
FaultErrs(e) == (IF e.af > 0 THEN {"memory"} ELSE {}) \cup (IF e.sf THEN {e.se} ELSE {})
(* what must hold of the observation whatever happened before *)
WQuiet(e) == e.fae = 0          \* the flush function never runs in an error state

(* the destination after destruction *)
WFinal(h, st, e) ==
  /\ e.live = 0 /\ e.dbl = 0                        \* nothing leaked or freed twice
  /\ e.td = e.tdx                                   \* teardown ran exactly once if installed
  /\ e.fc = e.fcx                                   \* file closed exactly once, or never
  /\ e.r = e.e
  /\ IF e.e = "ok" THEN e.set /\ e.out = st.out
     ELSE /\ (h.sink = "grow" => ~e.set)
          /\ (h.sink \in {"flush", "file"} => IsPrefixOf(e.out, st.att))

WQuery(h, st, e) ==      \* how much is in a fixed buffer
  e.op = "query" /\ st.err = "ok" /\ h.sink = "fixed" /\ InBuilder(st.stk) = 0
    => e.used = Len(st.out) /\ e.left = h.cap - Len(st.out) /\ e.size = h.cap

(* set of successor states allowed by the observation e (at most one) *)
WStep(h, st, e) ==
  IF ~WQuiet(e) THEN {}
  ELSE IF st.err # "ok" THEN
    IF e.e = st.err /\ e.cb = <<>> /\ (e.op = "destroy" => WFinal(h, st, e)) THEN {st} ELSE {}
  ELSE LET r == WOp(h, st, e)
           errs == r.errs \cup FaultErrs(e)
       IN IF errs = {} THEN
            IF /\ e.e = "ok" /\ e.cb = <<>>
               /\ WQuery(h, st, e)
               /\ (e.op = "destroy" => WFinal(h, r.st, e))
            THEN {r.st} ELSE {}
          ELSE LET s3 == [st EXCEPT !.err = e.e, !.att = r.st.att] IN
            IF /\ e.e \in errs
               /\ e.cb = (IF h.eh /\ e.op # "init" THEN << e.e >> ELSE <<>>)
               /\ (e.op = "destroy" => WFinal(h, s3, e))
            THEN {s3} ELSE {}
=============================================================================
