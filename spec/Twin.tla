-------------------------------- MODULE Twin --------------------------------
(* Several runs of one program that only allocates, each with other entropy. *)
(* What the allocator decides by chance has to come out differently: the     *)
(* order a zone's chunks are handed out in, the chunks kept as canaries and  *)
(* the secret behind their values, tags, the addresses asked for, the place  *)
(* of a big block's metadata in its page, which allocations are sampled.     *)
(* A choice that repeats (probability below 2^-30 if drawn from entropy, but *)
(* for hints: two repetitions among some thousands of them are let pass)     *)
(* breaks C28. After an `es` event only what is chosen for zones made later  *)
(* counts: the runs had the same entropy up to there.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
Rng(s) == {s[k] : k \in DOMAIN s}
VARIABLES i, c, zs, ord, tags, mo, smp, late, runs, seen, hints, nh, maps
vars == <<i, c, zs, ord, tags, mo, smp, late, runs, seen, hints, nh, maps>>
W == 16            \* choices compared at a time
Every == 64        \* every so many chunks
E0 == [k \in {} |-> 0]
At == i
Init == /\ i = 1 /\ c = [none |-> TRUE] /\ zs = E0 /\ ord = E0 /\ tags = E0 /\ mo = <<>> /\ smp = {} /\ late = FALSE
        /\ runs = 0 /\ seen = {} /\ hints = {} /\ nh = 0 /\ maps = {}
Say(v, e) == \A x \in v : PrintT("VIOL|C28|" \o x \o "|" \o ToString(i) \o "|" \o e.op)
V(what, ok) == IF ok THEN {} ELSE {what}
Diffs(s) == [k \in 1 .. Len(s) - 1 |-> s[k + 1] - s[k]]
(* no step is repeated over more than half of the way *)
Jumpy(d) == \A x \in Rng(d) : 2 * Cardinality({k \in DOMAIN d : d[k] = x}) <= Len(d)
(* the allocations of one event: zones made by it, and the chunk it hands out *)
Zones(e, zb) == LET nz == Get(e, "nz", <<>>)
            IN [r \in {x[1] : x \in Rng(nz)} |-> LET x == CHOOSE y \in Rng(nz) : y[1] = r IN [cs |-> x[3], cap |-> zb \div x[3], can |-> Rng(x[5])]]
CanV(new) == {<<"canary slots", new[r].cs, new[r].can>> : r \in {x \in DOMAIN new : Cardinality(new[x].can) >= 12}}
Repeats(new) == \E r1, r2 \in DOMAIN new : r1 # r2 /\ new[r1].cs = new[r2].cs /\ new[r1].can = new[r2].can /\ Cardinality(new[r1].can) >= 12
SecV(e) == {<<"secret", x[2], x[3]>> : x \in Rng(Get(e, "sv", <<>>))}
(* which tag belongs to which chunk: two zones agree where they both were seen *)
Map(o, t) == [sl \in Rng(o) |-> t[CHOOSE k \in DOMAIN o : o[k] = sl]]
Alike(a, b) == LET both == DOMAIN a \cap DOMAIN b IN Cardinality(both) >= 12 /\ 2 * Cardinality({x \in both : a[x] = b[x]}) > Cardinality(both)
(* every choice, recognisable if it is made again *)
Handed(e) == e.op \in {"a", "za"} /\ Get(e, "v", "n") = "p"
Step ==
  /\ i <= Len(Tr)
  /\ i' = i + 1
  /\ LET e == Tr[i] IN
     IF e.op = "crash" THEN /\ PrintT("CRASH|" \o e.what \o "|" \o ToString(i) \o "|" \o e.cmd) /\ UNCHANGED <<c, zs, ord, tags, mo, smp, late, runs, seen, hints, nh, maps>>
     ELSE IF e.op = "es"
     THEN /\ zs' = E0 /\ ord' = E0 /\ tags' = E0 /\ mo' = <<>> /\ smp' = {} /\ late' = TRUE /\ UNCHANGED <<c, runs, seen, hints, nh, maps>>
     ELSE LET start == e.op = "reset"
              lt == IF start THEN FALSE ELSE late
              cc == IF start THEN [none |-> FALSE, rnd |-> e.rnd, sane |-> e.sane, zb |-> e.zpg * 4096, es |-> e.late] ELSE c
              zs0 == IF start THEN E0 ELSE zs
              new == Zones(e, cc.zb)
              zs1 == new @@ zs0
              first == cc.es = 1 /\ ~lt                       \* the part of a run that is the same in all of them
              hs == {<<x[2], x[3]>> : x \in Rng(Get(e, "hi", <<>>))}
              hn == IF first THEN 0 ELSE Len(Get(e, "hi", <<>>))
              hand == Handed(e)
              inz == hand /\ e.r \in DOMAIN zs1
              smpl == hand /\ cc.sane = 1 /\ e.r \notin DOMAIN zs1 /\ e.pg = 1 /\ e.op = "a" /\ ~lt
              o0 == IF start THEN E0 ELSE ord
              o1 == IF inz THEN LET s == IF e.r \in DOMAIN o0 THEN o0[e.r] ELSE <<>> IN (e.r :> Append(s, e.o \div zs1[e.r].cs)) @@ o0 ELSE o0
              n == IF inz THEN Len(o1[e.r]) ELSE 0
              full == inz /\ cc.rnd = 1 /\ n % Every = W + 1 /\ zs1[e.r].cap >= 4 * n
              d == IF full THEN Diffs(SubSeq(o1[e.r], n - W, n)) ELSE <<>>
              t0 == IF start THEN E0 ELSE tags
              tg == IF inz THEN Get(e, "tg", -1) ELSE -1
              t1 == IF tg >= 0 THEN LET s == IF e.r \in DOMAIN t0 THEN t0[e.r] ELSE <<>> IN (e.r :> Append(s, tg)) @@ t0 ELSE t0
              tful == tg >= 0 /\ Len(t1[e.r]) = W
              m0 == IF start THEN <<>> ELSE mo
              m1 == IF lt \/ first THEN m0 ELSE m0 \o [k \in DOMAIN Get(e, "mo", <<>>) |-> e.mo[k][2]]
              mful == Len(m0) < 6 /\ Len(m1) >= 6
              news == IF first THEN {} ELSE
                      CanV(new) \cup SecV(e)
                 \cup (IF full THEN {<<"order", zs1[e.r].cs, d>>} ELSE {})
                 \cup (IF tful THEN {<<"tags", 0, t1[e.r]>>} ELSE {})
                 \cup (IF mful THEN {<<"metadata", 0, m1>>} ELSE {})
              tm == IF e.op = "end" THEN {Map(o0[r], t0[r]) : r \in {x \in DOMAIN t0 : Len(t0[x]) >= 100 /\ Len(o0[x]) = Len(t0[x])}} ELSE {}
              nm == IF e.op = "end" THEN Cardinality({x \in DOMAIN t0 : Len(t0[x]) >= 100 /\ Len(o0[x]) = Len(t0[x])}) ELSE 0
              again == seen \cap news
              s0 == IF start THEN {} ELSE smp
              s1 == IF smpl THEN s0 \cup {<<e.id, e.o>>} ELSE s0
              ended == e.op = "end" /\ cc.sane = 1 /\ cc.es = 0
              seen1 == seen \cup news \cup (IF ended THEN {<<"sampled", 0, s0>>} ELSE {})
              hints1 == IF first THEN hints ELSE hints \cup hs
              r1 == IF e.op = "end" THEN runs + 1 ELSE runs
              v == V("a zone's chunks are handed out in a regular order", full /\ ~first => Jumpy(d))
              \cup V("chunks of two zones, or in two runs, handed out in the same order", {x \in again : x[1] = "order"} = {})
              \cup V("canaries of two zones, or in two runs, at the same places", {x \in again : x[1] = "canary slots"} = {} /\ ~Repeats(new))
              \cup V("secret of canaries repeated", {x \in again : x[1] = "secret"} = {} /\ Cardinality(SecV(e)) = Len(Get(e, "sv", <<>>)))
              \cup V("tags of two zones, or in two runs, are the same", {x \in again : x[1] = "tags"} = {})
              \cup V("tags of two zones, or in two runs, follow the same pattern", Cardinality(tm) = nm /\ \A a \in tm : \A b \in (maps \cup tm) \ {a} : ~Alike(a, b))
              \cup V("tags of a zone hardly differ", tful /\ ~first => Cardinality(Rng(t1[e.r])) >= 8)
              \cup V("metadata of big blocks at the same places in two runs", {x \in again : x[1] = "metadata"} = {})
              \cup V("metadata of big blocks always at the same place", mful => Cardinality(Rng(m1)) >= 3)
              \cup V("the same address asked for again and again", nh + hn - Cardinality(hints1) <= 2)
              \cup V("the same allocations are sampled in different runs",
                     ended => 2 * Cardinality({x \in seen1 : x[1] = "sampled"}) >= r1)
          IN /\ c' = cc /\ zs' = zs1 /\ ord' = o1 /\ tags' = t1 /\ mo' = m1 /\ smp' = s1 /\ late' = lt /\ runs' = r1 /\ seen' = seen1
             /\ hints' = hints1 /\ nh' = nh + hn /\ maps' = maps \cup tm
             /\ Say(v, e)
Done == i > Len(Tr) /\ PrintT("DONE|" \o ToString(Len(Tr))) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
