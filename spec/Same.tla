-------------------------------- MODULE Same --------------------------------
(* The same calls in several build configurations.  An event e holds l, the   *)
(* distinct observations of one call in all of them.  They must agree in      *)
(* everything but what a configuration is free to choose: how much memory is  *)
(* in use and how far ahead the input is read.                                *)
EXTENDS Wire

Free == {"pk", "av", "pv", "wb", "sf", "se", "af", "nb", "sp"}
\* what has reached the destination when a writer fails is also free
Seen(o) == [f \in DOMAIN o \ (Free \cup (IF "out" \in DOMAIN o /\ o.e # "ok" THEN {"out"} ELSE {})) |-> o[f]]

(* A typed read of a string that meets a malformed header may call it the     *)
(* wrong type or malformed; which of the two is free, and what follows is     *)
(* only that the error stays.                                                 *)
Text(o) == \/ o.op \in {"l", "b", "s", "a"} /\ ("fn" \notin DOMAIN o \/ o.fn \in {"str", "str_max", "str_length", "str_buf", "utf8", "cstr", "utf8_cstr"})
           \/ o.op \in {"m", "enum", "enumopt", "keycstr"}
Malformed(o) == o.e \in {"type", "invalid", "unsupported", "io", "eof"}
Vague(o) == [f \in DOMAIN Seen(o) \ {"e", "cb"} |-> o[f]]

SInit(h) == [k |-> "S", over |-> FALSE, dry |-> FALSE]
Dry(o) == "af" \in DOMAIN o /\ o.af > 0
SStep(h, st, e) ==
  IF st.dry \/ \E i \in 1..Len(e.l) : Dry(e.l[i]) THEN {[st EXCEPT !.dry = TRUE]}   \* memory ran out
  ELSE IF st.over THEN IF \A i \in 1..Len(e.l) : e.l[i].e # "ok" THEN {st} ELSE {}
  ELSE IF \A i \in 1..Len(e.l) : Seen(e.l[i]) = Seen(e.l[1]) THEN {st}
  ELSE IF \A i \in 1..Len(e.l) : Text(e.l[i]) /\ Malformed(e.l[i]) /\ Vague(e.l[i]) = Vague(e.l[1]) THEN {[st EXCEPT !.over = TRUE]}
  ELSE {}
=============================================================================
