-------------------------------- MODULE Hb ---------------------------------
(* Ordering of two accesses in a recorded run: an access is ordered before  *)
(* another one if a chain of program order and synchronisation (a lock      *)
(* released and taken again, a block handed over, a thread started) leads   *)
(* from one to the other. The last two events of a trace are the accesses.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Ts == ndJsonDeserialize(IOEnv.HBT)
VARIABLES i, k, clk, obj
vars == <<i, k, clk, obj>>
T == Ts[i]
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [t \in DOMAIN a |-> Max(a[t], b[t])]
Zero == [t \in 0..4 |-> 0]
Init == i \in 1..Len(Ts) /\ k = 1 /\ clk = [t \in 0..4 |-> [Zero EXCEPT ![t] = 1]] /\ obj = <<>>
Get(o) == IF o \in DOMAIN obj THEN obj[o] ELSE Zero
Put(o, v) == [x \in DOMAIN obj \cup {o} |-> IF x = o THEN v ELSE obj[x]]
(* e: thread, kind (take / give / first / second), object *)
Step ==
  /\ k <= Len(T)
  /\ LET e == T[k] t == e.t IN
     CASE e.k = "take" -> clk' = [clk EXCEPT ![t] = Join(@, Get(e.o))] /\ obj' = obj
       [] e.k = "give" -> obj' = Put(e.o, Join(Get(e.o), clk[t])) /\ clk' = [clk EXCEPT ![t][t] = @ + 1]
       [] e.k = "first" -> obj' = Put("first", [Zero EXCEPT ![t] = clk[t][t]]) /\ clk' = [clk EXCEPT ![t][t] = @ + 1]
       [] e.k = "second" -> /\ UNCHANGED <<clk, obj>>
                            /\ \/ \A u \in 0..4 : Get("first")[u] <= clk[t][u]
                               \/ PrintT("RACE|" \o ToString(i))
  /\ k' = k + 1 /\ i' = i
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
