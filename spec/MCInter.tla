------------------------------- MODULE MCInter -------------------------------
(* Objects that are used at the same time.  Each object is a machine of its   *)
(* own (a writer and a reader here, by the modules that specify them); a call *)
(* begins, may hand control to the application a few times (allocation, fill, *)
(* flush, error handler) and ends.  Calls of different objects overlap in     *)
(* every way: between a beginning and its end the other object may begin and  *)
(* end calls.  No step of one object changes the other (Frame), so each is at *)
(* all times where it would be on its own (Alone), whatever the schedule.     *)
(* TLC prints every schedule: who runs after each such point.                 *)
EXTENDS Reader, Writer, TLC, IOUtils

K == IF IOEnv.MC_FULL = "1" THEN 2 ELSE 1          \* callbacks within a call
NC == IF IOEnv.MC_FULL = "1" THEN 3 ELSE 3         \* calls
hw == [trk |-> TRUE, cap |-> -1, flush |-> TRUE, small |-> FALSE, eh |-> TRUE, sink |-> "flush", e0 |-> "ok"]
Msg == << 146, 5, 161, 97 >>
hr == [trk |-> TRUE, ext |-> TRUE, dbl |-> TRUE, eh |-> TRUE, e0 |-> "ok", data |-> Msg, lim |-> 4, src |-> "stream", bufsz |-> 32, se |-> <<"io">>, m32 |-> FALSE]
WProg == << [op |-> "barr"], [op |-> "u8", v |-> B8(200)], [op |-> "carr"] >>
RProg == << [op |-> "tag", tag |-> [t |-> "array", v |-> B8(2), x |-> 0]],
            [op |-> "tag", tag |-> [t |-> "uint", v |-> B8(5), x |-> 0]],
            [op |-> "tag", tag |-> [t |-> "str", v |-> B8(1), x |-> 0]] >>
Prog(i) == IF i = 0 THEN WProg ELSE RProg
Do(i, st, e) == IF i = 0 THEN WOp(hw, st, e) ELSE ROp(hr, st, e)
Fresh(i) == IF i = 0 THEN WInit(hw) ELSE RInit(hr)
Solo(i, n) == FoldLeft(LAMBDA a, e : Do(i, a, e).st, Fresh(i), SubSeq(Prog(i), 1, n))

VARIABLES obj, pc, in, sched
vars == << obj, pc, in, sched >>
Init == obj = [i \in 0..1 |-> Fresh(i)] /\ pc = [i \in 0..1 |-> 0] /\ in = [i \in 0..1 |-> -1] /\ sched = <<>>
Running(i) == pc[i] < NC
\* in[i]: -1 between calls, otherwise the callbacks made in the present call
Begin(i) == in[i] = -1 /\ in' = [in EXCEPT ![i] = 0] /\ UNCHANGED << obj, pc >>
Callback(i) == in[i] \in 0..K-1 /\ in' = [in EXCEPT ![i] = @ + 1] /\ UNCHANGED << obj, pc >>
End(i) ==
  /\ in[i] >= 0 /\ in' = [in EXCEPT ![i] = -1]
  /\ LET r == Do(i, obj[i], Prog(i)[pc[i] + 1]) IN
       /\ Assert(r.errs = {} /\ (i = 1 => r.good), << i, pc[i], r.errs >>)
       /\ obj' = [obj EXCEPT ![i] = r.st]
  /\ pc' = [pc EXCEPT ![i] = @ + 1]
Next == \E i \in 0..1 :
  /\ Running(i)
  /\ Begin(i) \/ Callback(i) \/ End(i)
  /\ sched' = IF in'[i] = -1 THEN sched ELSE Append(sched, ToString(i))      \* ends are no points of their own
  /\ Assert(obj'[1 - i] = obj[1 - i], "Frame")
  /\ (\A j \in 0..1 : pc'[j] = NC) => PrintT(<< "PROG", sched' >>)
Spec == Init /\ [][Next]_vars
Alone == \A i \in 0..1 : obj[i] = Solo(i, pc[i])
=============================================================================
