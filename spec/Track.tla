------------------------------- MODULE Track --------------------------------
(* The declared structure of a message being written or read: a stack of open *)
(* strings, blobs, extensions, arrays and maps with what is left of each.     *)
(* b marks an automatically sized (builder) compound, which also collects the *)
(* bytes and elements written into it.                                        *)
EXTENDS Bytes

Entry(t, left, b) == [t |-> t, left |-> left, key |-> FALSE, b |-> b, cnt |-> 0, bytes |-> <<>>]
CompoundT(t) == t \in {"array", "map"}

(* may an element be read or written here? *)
ElementAllowed(stk) ==
  stk = <<>> \/ LET e == Last(stk) IN
    /\ CompoundT(e.t)
    /\ e.b \/ e.left > 0 \/ e.key
(* one element read or written *)
ElementDone(stk) ==
  IF stk = <<>> \/ ~CompoundT(Last(stk).t) THEN stk
  ELSE LET e == Last(stk) n == Len(stk) IN
    IF e.t = "map" /\ ~e.key THEN [stk EXCEPT ![n].key = TRUE]
    ELSE [stk EXCEPT ![n].key = FALSE,
                     ![n].left = IF e.b THEN 0 ELSE Max2(0, e.left - 1),
                     ![n].cnt = e.cnt + 1]
BytesAllowed(stk, c) ==
  stk # <<>> /\ ~CompoundT(Last(stk).t) /\ Last(stk).left >= c
BytesDone(stk, c) ==
  IF stk = <<>> THEN stk ELSE [stk EXCEPT ![Len(stk)].left = Max2(0, @ - c)]
(* all remaining bytes of an open string *)
StrAllAllowed(stk, c) ==
  stk # <<>> /\ Last(stk).t = "str" /\ Last(stk).left = c
CloseAllowed(stk, t, b) ==
  stk # <<>> /\ LET e == Last(stk) IN e.t = t /\ ~e.key /\ e.left = 0 /\ e.b = b
Pop(stk) == IF stk = <<>> THEN stk ELSE Front(stk)
Push(stk, t, left) == Append(stk, Entry(t, left, FALSE))
PushBuilder(stk, t) == Append(stk, Entry(t, 0, TRUE))
(* index of the innermost builder, 0 if none *)
RECURSIVE BuilderAt(_, _)
BuilderAt(stk, i) == IF i = 0 THEN 0 ELSE IF stk[i].b THEN i ELSE BuilderAt(stk, i - 1)
InBuilder(stk) == BuilderAt(stk, Len(stk))
=============================================================================
