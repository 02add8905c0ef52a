------------------------------- MODULE Locks -------------------------------
(* Lock-level model of the API: every call is the sequence of locks it was  *)
(* observed to take and release. All interleavings of the calls of a        *)
(* scenario are explored: no call may wait forever, hold a lock at its end, *)
(* release what it does not hold or take a lock twice.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
(* [op |-> name, ev |-> <<[k |-> "L"|"U", l |-> lock]...>>, keep |-> locks it may leave held] *)
Progs == ndJsonDeserialize(IOEnv.LOCKS)
CONSTANT N                        (* threads *)
VARIABLES who, pc, owner
vars == <<who, pc, owner>>
Locks == UNION {{p.ev[i].l : i \in 1..Len(p.ev)} : p \in {Progs[j] : j \in 1..Len(Progs)}}
(* scenarios without regard to order of the threads *)
Init ==
  /\ who \in {w \in [1..N -> 1..Len(Progs)] : \A i \in 1..N - 1 : w[i] <= w[i + 1]}
  /\ pc = [t \in 1..N |-> 1]
  /\ owner = [l \in Locks |-> 0]
Ev(t) == Progs[who[t]].ev[pc[t]]
More(t) == pc[t] <= Len(Progs[who[t]].ev)
Step(t) ==
  /\ More(t)
  /\ IF Ev(t).k = "L" THEN owner[Ev(t).l] = 0 /\ owner' = [owner EXCEPT ![Ev(t).l] = t]
     ELSE owner' = [owner EXCEPT ![Ev(t).l] = 0]
  /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ who' = who
Over == ~ \E t \in 1..N : More(t)
Next == \E t \in 1..N : Step(t)
Spec == Init /\ [][Next]_vars
Stuck == ~Over /\ ~ENABLED Next
Names == [t \in 1..N |-> Progs[who[t]].op]
Say(w) == PrintT("LOCK|" \o w \o "|" \o ToString(Names))
NoDeadlock == Stuck => (Say("deadlock") /\ FALSE)
Owned == \A t \in 1..N : (More(t) /\ Ev(t).k = "U") => (owner[Ev(t).l] = t \/ (Say("released without holding it") /\ FALSE))
Released == \A t \in 1..N : ~More(t) => ((\A l \in Locks : owner[l] # t) \/ (Say("held at return") /\ FALSE))
Twice == \A t \in 1..N : (More(t) /\ Ev(t).k = "L") => (owner[Ev(t).l] # t \/ (Say("taken twice") /\ FALSE))
=============================================================================
