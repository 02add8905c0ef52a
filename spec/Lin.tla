-------------------------------- MODULE Lin --------------------------------
(* Linearisability of recorded concurrent histories of the native API.      *)
(* Every history of the file is an initial state. An operation may take     *)
(* effect once all operations that had returned before it was invoked have; *)
(* a history is accepted (OK) when some order explains all results.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Hs == ndJsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, live, pend, perm, prot, gone
vars == <<h, pos, live, pend, perm, prot, gone>>
Rng(s) == {s[i] : i \in 1..Len(s)}
H == Hs[h]
Init ==
  /\ h \in 1..Len(Hs)
  /\ pos = [t \in 1..Len(Hs[h].ops) |-> 0]
  /\ live = Rng(Hs[h].live0)
  /\ perm = Rng(Hs[h].perm0)
  /\ pend = {} /\ prot = 0 /\ gone = {}
Used == live \cup pend \cup perm
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN H.pages[b] + Sum(S \ {b})
Chunks(S) == {b \in S : H.kind[b] = "c"}
Bigs(S) == {b \in S : H.kind[b] = "b"}
Of(S, z) == {b \in S : H.zone[b] = z}
(* results and effects of one operation *)
Alloc(b) == b # 0 /\ b \notin Used /\ Rng(H.ov[b]) \cap Used = {} /\ live' = live \cup {b} /\ UNCHANGED <<pend, perm, prot, gone>>
Quarantine(b) ==
  /\ b \in live /\ live' = live \ {b}
  /\ pend' = IF H.kind[b] = "s" THEN pend ELSE IF Cardinality(pend) >= H.q THEN {b} ELSE pend \cup {b}
  /\ UNCHANGED <<perm, prot, gone>>
Release(b) == b \in live /\ live' = live \ {b} /\ UNCHANGED <<pend, perm, prot, gone>>
Bury(b) == b \in live /\ live' = live \ {b} /\ perm' = (IF H.kind[b] = "s" THEN perm ELSE perm \cup {b}) /\ UNCHANGED <<pend, prot, gone>>
Same == UNCHANGED <<live, pend, perm, prot, gone>>
Do(t, o) ==
  /\ prot = 0 \/ (o.o = "up" /\ prot = t)
  /\ CASE o.o = "al" -> Alloc(o.b)
       [] o.o = "fr" -> Quarantine(o.a)
       [] o.o = "fs" -> Release(o.a)
       [] o.o = "fp" -> Bury(o.a)
       [] o.o = "fl" -> pend' = {} /\ UNCHANGED <<live, perm, prot, gone>>
       [] o.o = "lkc" -> Cardinality(Chunks(live \cup pend)) = o.r /\ Same
       [] o.o = "lkb" -> Sum(Bigs(live \cup pend)) = o.r /\ Same
       [] o.o = "zlk" -> o.a \notin gone /\ Cardinality(Of(live \cup pend, o.a)) = o.r /\ Same
       [] o.o = "za" -> o.a \notin gone /\ IF o.b = 0 THEN Cardinality(Of(Used, o.a)) >= H.zc[o.a] /\ Same ELSE Alloc(o.b)
       [] o.o = "zd" -> /\ o.a \notin gone /\ gone' = gone \cup {o.a} /\ pend' = {} /\ prot' = prot
                        /\ live' = {b \in live : H.zone[b] # o.a} /\ perm' = {b \in perm : H.zone[b] # o.a}
       [] o.o = "tg" -> o.a \in live /\ o.r = 1 /\ Same         \* a live block's tag is what it was
       [] o.o = "tq" -> o.r >= 0 /\ o.r <= Cardinality({x \in UNION {{<<u, k>> : k \in 1..pos[u]} : u \in 1..Len(pos)} : H.ops[x[1]][x[2]].o \in {"al", "za"}}) + Len(pos) /\ Same
       [] o.o = "cs" -> o.a \in live /\ Same
       [] o.o = "pr" -> prot' = t /\ UNCHANGED <<live, pend, perm, gone>>
       [] o.o = "up" -> prot = t /\ prot' = 0 /\ UNCHANGED <<live, pend, perm, gone>>
Step(t) ==
  /\ pos[t] < Len(H.ops[t])
  /\ LET o == H.ops[t][pos[t] + 1] IN
     /\ \A u \in 1..Len(pos) : pos[u] >= o.pre[u]
     /\ Do(t, o)
  /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ h' = h
All == \A t \in 1..Len(pos) : pos[t] = Len(H.ops[t])
Accepted == All /\ PrintT("OK|" \o ToString(h)) /\ UNCHANGED vars
Next == (\E t \in 1..Len(pos) : Step(t)) \/ Accepted
Spec == Init /\ [][Next]_vars
(* what the specification itself promises in every reachable state *)
Disjoint == live \cap pend = {} /\ live \cap perm = {} /\ pend \cap perm = {}
Apart == \A b \in Used : Rng(H.ov[b]) \cap Used = {}
Bounded == Cardinality(pend) <= H.q
=============================================================================
