------------------------------- MODULE Trace -------------------------------
(* Judges a recorded trace of the implementation by the specification.     *)
(* A broken rule is printed; the rest of that run is skipped.              *)
EXTENDS IsoAlloc, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, skip
Nil == [none |-> TRUE]
Say(v, e) == \A x \in v : PrintT("VIOL|" \o x[1] \o "|" \o x[2] \o "|" \o ToString(i) \o "|" \o e.op)
At == i            \* positions are states enough
Init == i = 1 /\ st = Nil /\ skip = TRUE
Crash(e) == PrintT("CRASH|" \o e.what \o "|" \o ToString(i) \o "|" \o e.cmd)
Step ==
  /\ i <= Len(Tr)
  /\ i' = i + 1
  /\ LET e == Tr[i] IN
     IF e.op = "reset" THEN LET s == StartOf(e) v == StartRules(s, e) IN st' = s /\ skip' = (v # {}) /\ Say(v, e)
     ELSE IF skip THEN UNCHANGED <<st, skip>>
     ELSE IF e.op = "crash" THEN st' = st /\ skip' = TRUE /\ Crash(e)
     ELSE LET r == Eff(st, e) IN st' = r.s /\ skip' = (r.v # {}) /\ Say(r.v, e)
Done == i > Len(Tr) /\ PrintT("DONE|" \o ToString(Len(Tr))) /\ UNCHANGED <<i, st, skip>>
Next == Step \/ Done
Spec == Init /\ [][Next]_<<i, st, skip>>
=============================================================================
