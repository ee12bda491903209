-------------------------------- MODULE Trace --------------------------------
(* Trace validation: every recorded behaviour of the code must be a behaviour *)
(* of the specification.  Each line of the trace file is one program run on   *)
(* the code: h (its fixed facts, h.k the kind of object) and ev (its calls in *)
(* order with everything a caller can observe).                               *)
EXTENDS Doc, Misc, Same, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)

VARIABLES tid, l, st
vars == << tid, l, st >>

H(i) == Traces[i].h
Ev(i) == Traces[i].ev

Start(h) == CASE h.k = "W" -> WInit(h) [] h.k = "R" -> RInit(h) [] h.k = "T" -> TInit(h) [] h.k = "M" -> MInit(h) [] h.k = "X" -> XInit(h) [] h.k = "S" -> SInit(h)
Step(h, s, e) ==
  IF e.op \in {"assert", "crash", "hang", "unsupported"} THEN {}
  ELSE CASE h.k = "W" -> WStep(h, s, e) [] h.k = "R" -> RStep(h, s, e) [] h.k = "T" -> TStep(h, s, e) [] h.k = "M" -> MStep(h, s, e) [] h.k = "X" -> XStep(h, s, e) [] h.k = "S" -> SStep(h, s, e)

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = Start(H(tid))

Next == /\ l > 0
        /\ LET n == Step(H(tid), st, Ev(tid)[l]) IN
             IF n = {} THEN
               /\ PrintT(<< "REJECT", Traces[tid].id, l, st >>)
               /\ l' = 0 /\ UNCHANGED << tid, st >>
             ELSE
               /\ st' \in n
               /\ l' = IF l = Len(Ev(tid)) THEN -1 ELSE l + 1
               /\ UNCHANGED tid
               /\ (l = Len(Ev(tid)) => PrintT(<< "ACCEPT", Traces[tid].id >>))
Spec == Init /\ [][Next]_vars
=============================================================================
