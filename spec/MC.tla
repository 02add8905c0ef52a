---------------------------------- MODULE MC ----------------------------------
(***************************************************************************)
(* All behaviours of a small instance of IsoAlloc.                         *)
(*                                                                         *)
(* For every call that a correct program may make next, every observation  *)
(* the implementation could produce is put together (Observations), and    *)
(* those the specification allows are the transitions. The invariants say, *)
(* independently of how Eff is written, what has to hold in every state    *)
(* that can be reached that way; Judge says that the specification is not  *)
(* too permissive: what no implementation may do is rejected in every one  *)
(* of these states, and not too strict: every call has an allowed outcome. *)
(***************************************************************************)
EXTENDS IsoAlloc
CONSTANTS Ids, Handles, MaxZones, MaxBigs, Sizes, ZoneSizes, QCap, BList, BTtl, Pfb, Strong, Ret, PermRe, Ops, Mutate, Zb, StartZones, Tags, Smax, Slack, Page, Limit, Cores
VARIABLES st, last, hist

C == [gran |-> 1, small |-> 2, page |-> Page, zl |-> 1, wf |-> 3, rmax |-> 3, bigmax |-> 5, qw |-> 2, zb |-> Zb, zpg |-> Zb \div Page,
      qcap |-> QCap, ret |-> Ret, waste |-> 1, blist |-> BList, bttl |-> BTtl, tags |-> Tags, san |-> 1, nocan |-> 0, strong |-> Strong,
      bg |-> 1, bmg |-> 1, pfb |-> Pfb, sane |-> IF Smax = 0 THEN 0 ELSE 1, smax |-> Smax, nozero |-> 1, prre |-> PermRe, leak |-> 1, uaf |-> 0, uodds |-> 0, prof |-> 0, cores |-> IF Cores > 1 THEN 1 ELSE 0, mask |-> 1, aon |-> 0, fuzz |-> 0]
Z(cs, can, h) == NewZone(C, <<0, 2, cs, 0, can>>, h, 0)
Start == [c |-> C, blk |-> EmptyF, zon |-> IF StartZones = 0 THEN EmptyF ELSE (1 :> Z(1, <<1>>, 0)), big |-> EmptyF, qu |-> <<>>, bf |-> <<>>,
          hnd |-> EmptyF, smp |-> {}, aux |-> {}, first |-> IF StartZones = 0 THEN {} ELSE {1}, oth |-> {}, up |-> TRUE, known |-> EmptyF, pr |-> Pr0, cpu |-> 0, ptr |-> Ptr0]

-----------------------------------------------------------------------------
(* Observations *)
UsedIds(s) == DOMAIN s.zon \cup DOMAIN s.big \cup UNION {s.big[r].md : r \in DOMAIN s.big} \cup s.aux \cup s.oth \cup s.smp
RECURSIVE Firsts(_, _)
Firsts(S, n) == IF n = 0 THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Firsts(S \ {x}, n - 1)
(* the n smallest region names not in use *)
FreshN(used, n) == Firsts((1 .. Cardinality(used) + n) \ used, n)
GuardRuns(n) == <<<<1, "n">>, <<n, "w">>, <<1, "n">>>>
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o ToSeq(S \ {x})
P(r, o, cs, pg) == [v |-> "p", r |-> r, ru |-> 2, o |-> o, rl |-> 4, al |-> 8, cs |-> cs, cp |-> pg, exp |-> 0]
Tg(s, h) == IF h # 0 /\ C.tags = 1 THEN {[tg |-> t, tgd |-> t, tok |-> 1] : t \in {0, 1}} ELSE {EmptyF}
(* where a block for sz bytes could come from *)
Results(s, sz, h) ==
  LET f == FreshN(UsedIds(s), 2) IN
       {[v |-> "n"], [v |-> "z", cs |-> 0, pr |-> 2]}
  \cup UNION {{P(r, sl * s.zon[r].cs, s.zon[r].cs, Pages(C, s.zon[r].cs)) @@ t : sl \in 0 .. s.zon[r].cap - 1, t \in Tg(s, h)} : r \in DOMAIN s.zon}
  \cup (IF Cardinality(DOMAIN s.zon) >= MaxZones THEN {}
        ELSE {P(f[1], 0, x[1], Pages(C, x[1])) @@ [nz |-> <<<<f[1], 2, x[1], 0, x[2]>>>>, rg |-> <<<<f[1], 1, GuardRuns(C.zpg)>>>>] : x \in {<<1, <<>>>>, <<1, <<1>>>>, <<2, <<>>>>}})
  \cup {P(r, 0, s.big[r].pg * Page, s.big[r].pg) : r \in DOMAIN s.big}
  \cup (IF Cardinality(DOMAIN s.big) >= MaxBigs THEN {}
        ELSE {P(f[1], 0, n * Page, n) @@ [rg |-> <<<<f[1], 1, GuardRuns(n)>>, <<f[2], 1, GuardRuns(1)>>>>] : n \in {Max(Pages(C, sz), 1), Pages(C, sz) + 1}})
  \cup (IF Smax = 0 THEN {} ELSE {P(f[1], 0, Max(sz, 1), 1) @@ [rg |-> <<<<f[1], 1, GuardRuns(1)>>>>]})
(* the mapping changes and releases the specification calls for, added to observation e *)
Complete(s, e) ==
  LET q == CallOp(s, e, e.op)
      repl == ToSeq(q.repl)
      new == FreshN(UsedIds(s) \cup UsedIds(q.s), Len(repl))
      nz == [k \in DOMAIN repl |-> <<new[k], 2, q.s.zon[repl[k]].cs, 0, <<>>>>]
      gone == ToSeq(q.gone \cup q.repl)
      prot == ToSeq({r \in q.prot : r \in DOMAIN q.s.big})
      rel == ToSeq(q.rel)
  IN [nz |-> NzEv(e) \o nz,
      rg |-> RegEv(e) \o [k \in DOMAIN repl |-> <<new[k], 1, GuardRuns(C.zpg)>>]
                      \o [k \in DOMAIN gone |-> <<gone[k], 0, <<>>>>]
                      \o [k \in DOMAIN prot |-> <<prot[k], 0, IF q.s.big[prot[k]].s = "U" THEN GuardRuns(q.s.big[prot[k]].pg) ELSE <<<<q.s.big[prot[k]].pg, "n">>>>>>],
      rel |-> [k \in DOMAIN rel |-> <<rel[k], "p">>]]
     @@ (IF C.tags = 0 THEN EmptyF ELSE LET tv == ToSeq({i \in q.rel : i \in DOMAIN s.blk /\ s.blk[i].h # 0}) IN [tv |-> [k \in DOMAIN tv |-> <<tv[k], 1 - s.blk[tv[k]].tg>>]]) @@ e

LiveIds(s) == {i \in DOMAIN s.blk : s.blk[i].s = "L"}
FreeIds(s) == {i \in Ids : i \notin DOMAIN s.blk}
NextId(s) == IF FreeIds(s) = {} THEN {} ELSE {CHOOSE i \in FreeIds(s) : \A j \in FreeIds(s) : i <= j}
(* the calls a correct program may make: op and arguments *)
Calls(s) ==
  UNION {
    IF "a" \in Ops THEN {[op |-> "a", id |-> i, sz |-> n, pg |-> Pages(C, n), h |-> 0] : i \in NextId(s), n \in Sizes} ELSE {},
    IF "re" \in Ops THEN {[op |-> "re", old |-> o, id |-> i, sz |-> n, pg |-> Pages(C, n), h |-> 0, ov |-> 0, cmp |-> 1] : o \in LiveIds(s) \cup {0}, i \in NextId(s), n \in Sizes} ELSE {},
    IF "za" \in Ops THEN {[op |-> "za", id |-> i, sz |-> s.zon[s.hnd[h]].cs, pg |-> Pages(C, s.zon[s.hnd[h]].cs), h |-> h] : h \in DOMAIN s.hnd, i \in NextId(s)} ELSE {},
    IF "zt" \in Ops THEN {[op |-> "zt", id |-> i, sz |-> s.zon[s.hnd[h]].cs, pg |-> Pages(C, s.zon[s.hnd[h]].cs), h |-> h] : h \in DOMAIN s.hnd, i \in NextId(s)} ELSE {},
    IF "zn" \in Ops THEN {[op |-> "zn", h |-> h, sz |-> n] : h \in {x \in Handles : x \notin DOMAIN s.hnd}, n \in ZoneSizes} ELSE {},
    IF "zd" \in Ops THEN {[op |-> "zd", h |-> h] : h \in DOMAIN s.hnd} ELSE {},
    IF "f" \in Ops THEN {[op |-> "f", id |-> i, h |-> 0, cf |-> s.blk[i].cs] : i \in LiveIds(s)} ELSE {},
    IF "fs" \in Ops THEN {[op |-> "fs", id |-> i, h |-> 0, cf |-> s.blk[i].cs] : i \in LiveIds(s)} ELSE {},
    IF "fp" \in Ops THEN {[op |-> "fp", id |-> i, h |-> 0, ct |-> "p", cf |-> s.blk[i].cs] : i \in LiveIds(s)} ELSE {},
    IF "fz" \in Ops THEN {[op |-> "fz", id |-> i, h |-> s.blk[i].h, cf |-> s.blk[i].cs] : i \in {j \in LiveIds(s) : s.blk[j].h # 0}} ELSE {},
    IF Cores > 1 THEN {[op |-> "cpu", n |-> k] : k \in (0 .. Cores - 1) \ {s.cpu}} ELSE {},
    IF "fl" \in Ops THEN {[op |-> "fl"]} ELSE {}}
Candidates(s, call) ==
  CASE call.op \in {"a", "za", "zt"} -> {x @@ call : x \in Results(s, call.sz, call.h)}
    [] call.op = "re" -> {x @@ call : x \in Results(s, call.sz, 0)}
    [] call.op = "zn" -> LET f == FreshN(UsedIds(s), 1) IN
         (IF call.sz > C.small \/ Cardinality(DOMAIN s.zon) < MaxZones
          THEN {[ok |-> 0, zr |-> 0] @@ call}
               \cup {[ok |-> 1, zr |-> f[1], nz |-> <<<<f[1], 2, cs, 0, can>>>>, rg |-> <<<<f[1], 1, GuardRuns(C.zpg)>>>>] @@ call : cs \in {1, 2}, can \in {<<>>, <<0>>}} ELSE {})
    [] OTHER -> {call}
Observations(s, call) == {Complete(s, x) : x \in Candidates(s, call)}
Allowed(s, call) == {e \in Observations(s, call) : Eff(s, e).v = {}}
(* names of blocks that are gone are free again *)
Tidy(s) == [s EXCEPT !.blk = Drop(@, {i \in DOMAIN @ : @[i].s \notin {"L", "P"}})]

Init == st = Start /\ last = [op |-> "start"] /\ hist = <<>>
Next == \E call \in Calls(st) : \E e \in Allowed(st, call) : st' = Tidy(Eff(st, e).s) /\ last' = e /\ hist' = hist
Spec == Init /\ [][Next]_<<st, last, hist>>
(* what does not matter for what can happen next *)
View == [st EXCEPT !.known = EmptyF, !.first = @ \cap DOMAIN st.zon]
(* stops after Limit seconds *)
InTime == TLCGet("duration") < Limit \/ TLCSet("exit", TRUE)
Bound == InTime /\ \A r \in DOMAIN st.zon : st.zon[r].tot <= WornAt(C, st.zon[r]) + Slack

-----------------------------------------------------------------------------
(* What holds in every reachable state *)
OutB(s, r) == {i \in DOMAIN s.blk : s.blk[i].k = "c" /\ s.blk[i].r = r /\ s.blk[i].s \in {"L", "P"}}
Exclusive ==     \* C01
  \A i, j \in DOMAIN st.blk : (i # j /\ st.blk[i].s \in {"L", "P"} /\ st.blk[j].s \in {"L", "P"}) =>
     /\ (st.blk[i].k = st.blk[j].k /\ st.blk[i].r = st.blk[j].r) => (st.blk[i].k = "c" /\ st.blk[i].sl # st.blk[j].sl)
     /\ st.blk[i].k # st.blk[j].k => st.blk[i].r # st.blk[j].r
Mapped ==        \* C01, C16: what is handed out exists
  \A i \in DOMAIN st.blk : st.blk[i].s \in {"L", "P"} =>
     IF st.blk[i].k = "c" THEN st.blk[i].r \in DOMAIN st.zon ELSE IF st.blk[i].k = "s" THEN st.blk[i].r \in st.smp ELSE st.blk[i].r \in DOMAIN st.big /\ st.big[st.blk[i].r].s = "U"
BigEnough ==     \* C02
  \A i \in DOMAIN st.blk : st.blk[i].s = "L" => st.blk[i].cs >= st.blk[i].sz /\ (st.blk[i].k = "c" => st.zon[st.blk[i].r].cs = st.blk[i].cs)
Counted ==       \* C19
  \A r \in DOMAIN st.zon : st.zon[r].af = Cardinality(OutB(st, r)) + Cardinality(st.zon[r].gs) /\ st.zon[r].occ = {st.blk[i].sl : i \in OutB(st, r)}
Slots ==         \* C01, C08, C10
  \A r \in DOMAIN st.zon : LET z == st.zon[r] IN
     /\ z.can \cap (z.occ \cup z.perm \cup z.fr \cup z.gs) = {} /\ z.perm \cap (z.occ \cup z.fr \cup z.gs) = {} /\ z.fr \cap (z.occ \cup z.gs) = {}
     /\ z.occ \cup z.perm \cup z.can \cup z.fr \subseteq 0 .. z.cap - 1
Pending ==       \* C09
  /\ Len(st.qu) <= C.qcap
  /\ Cardinality(Rng(st.qu)) = Len(st.qu)
  /\ Rng(st.qu) = {i \in DOMAIN st.blk : st.blk[i].s = "P"}
BigList ==       \* C16
  /\ Len(st.bf) <= C.blist /\ Cardinality(Rng(st.bf)) = Len(st.bf)
  /\ Rng(st.bf) = {r \in DOMAIN st.big : st.big[r].s = "F"}
  /\ \A r \in DOMAIN st.big : st.big[r].use <= C.bttl
  /\ \A r \in DOMAIN st.big : st.big[r].s = "U" <=> \E i \in DOMAIN st.blk : st.blk[i].k = "b" /\ st.blk[i].r = r
Private ==       \* C12
  /\ \A h \in DOMAIN st.hnd : st.hnd[h] \in DOMAIN st.zon /\ st.zon[st.hnd[h]].h = h
  /\ \A r \in DOMAIN st.zon : st.zon[r].h # 0 => (st.zon[r].h \in DOMAIN st.hnd /\ st.hnd[st.zon[r].h] = r)
  /\ \A i \in DOMAIN st.blk : (st.blk[i].s \in {"L", "P"} /\ st.blk[i].k = "c") => st.zon[st.blk[i].r].h = st.blk[i].h
Segregated ==    \* C13
  \A i \in DOMAIN st.blk : (st.blk[i].s = "L" /\ st.blk[i].k = "c" /\ st.blk[i].h = 0) =>
     /\ (st.blk[i].sz > C.zl => st.blk[i].cs < C.wf * st.blk[i].sz)
     /\ (C.strong = 1 => st.blk[i].cs = Max(1, st.blk[i].sz))
Samples ==       \* C22
  /\ Cardinality(st.smp) <= C.smax
  /\ st.smp = {st.blk[i].r : i \in {j \in DOMAIN st.blk : st.blk[j].k = "s" /\ st.blk[j].s \in {"L", "P"}}}
  /\ \A i \in DOMAIN st.blk : st.blk[i].k = "s" => st.blk[i].h = 0 /\ st.blk[i].s = "L" /\ st.blk[i].cs <= Page
Pinned ==        \* C29: a zone is used by one core only
  C.cores = 1 => \A r \in DOMAIN st.zon : st.zon[r].cpu \in 0 .. Cores - 1
Retired ==       \* C15: no worn zone stays when idle
  \A r \in DOMAIN st.zon : ~(st.zon[r].h = 0 /\ st.zon[r].af = 0 /\ st.zon[r].cs < C.rmax /\ st.zon[r].tot > WornAt(C, st.zon[r]))

(* what holds of every step *)
PermStays == [][\A r \in DOMAIN st.zon \cap DOMAIN st'.zon : st.zon[r].perm \subseteq st'.zon[r].perm /\ st.zon[r].can = st'.zon[r].can]_st
ZoneSize == [][\A r \in DOMAIN st.zon \cap DOMAIN st'.zon : st.zon[r].cs = st'.zon[r].cs /\ st.zon[r].h = st'.zon[r].h]_st
OnlyIdleGoes == [][\A r \in DOMAIN st.zon \ DOMAIN st'.zon : st.zon[r].h # 0 => last'.op = "zd"]_st
LiveStays == [][\A i \in DOMAIN st.blk : (st.blk[i].s = "L" /\ ~(i \in DOMAIN st'.blk /\ st'.blk[i] = st.blk[i])) =>
                   \/ last'.op \in {"f", "fs", "fp", "fz"} /\ last'.id = i
                   \/ last'.op = "re" /\ last'.old = i
                   \/ last'.op = "zd" /\ st.blk[i].h = last'.h]_st
PendingStays == [][\A i \in DOMAIN st.blk : (st.blk[i].s = "P" /\ ~(i \in DOMAIN st'.blk /\ st'.blk[i].s = "P")) =>
                   \/ last'.op \in {"fl", "zd"}
                   \/ (last'.op = "f" \/ (last'.op = "re" /\ last'.sz = 0)) /\ Len(st.qu) = C.qcap]_st
TagsStay == [][\A i \in DOMAIN st.blk \cap DOMAIN st'.blk : (st.blk[i].s \in {"L", "P"} /\ st'.blk[i].s \in {"L", "P"}) => st.blk[i].tg = st'.blk[i].tg]_st
OnlyHere == [][\A r \in DOMAIN st.zon \cap DOMAIN st'.zon : (C.cores = 1 /\ st'.zon[r].tot > st.zon[r].tot) => st.zon[r].cpu = st.cpu /\ st'.zon[r].cpu = st.zon[r].cpu]_st
RefusedIsNoop == [][(last'.op \in {"a", "za", "zt", "re"} /\ last'.v = "n" /\ ~(last'.op = "re" /\ last'.sz = 0)) => st' = st]_st

-----------------------------------------------------------------------------
(* What no implementation may show, for an allowed observation e of state s *)
Wrong(s, e) ==
  LET gone == {k \in DOMAIN e.rg : e.rg[k][2] = 0 /\ e.rg[k][3] = <<>>}
      news == {k \in DOMAIN e.nz : TRUE}
      without(q, k) == [j \in 1 .. (Len(q) - 1) |-> IF j < k THEN q[j] ELSE q[j + 1]]
      alive == {r \in DOMAIN Eff(s, e).s.zon \cap DOMAIN s.zon : TRUE}
      pend == {i \in DOMAIN s.blk : s.blk[i].s = "P" /\ i \notin {e.rel[k][1] : k \in DOMAIN e.rel}}
      got == IsAlloc(e.op) /\ e.v = "p"
  IN {[e EXCEPT !.rg = without(@, k)] : k \in gone}                                    \* something stays mapped
     \cup {[e EXCEPT !.rg = Append(@, <<r, 0, <<>>>>)] : r \in alive}                  \* a zone disappears
     \cup {[e EXCEPT !.rg = Append(@, <<r, 0, <<>>>>)] : r \in {x \in DOMAIN s.big : x \in DOMAIN Eff(s, e).s.big /\ ~\E k \in DOMAIN e.rg : e.rg[k][1] = x}}
     \cup {[e EXCEPT !.rel = without(@, k)] : k \in {j \in DOMAIN e.rel : e.op # "fp" /\ (e.op = "re" => C.prre = 0)}}           \* a block is not released
     \cup {[e EXCEPT !.rel = Append(@, <<i, "p">>)] : i \in pend}                      \* one too many is
     \cup {[e EXCEPT !.rel = [k \in DOMAIN @ |-> <<@[k][1], "o">>]] : x \in {y \in {1} : \E k \in DOMAIN e.rel : ~(e.rel[k][1] \in DOMAIN s.blk /\ s.blk[e.rel[k][1]].k = "s")}}   \* not sanitized
     \cup {e @@ [lk |-> 1], e @@ [wild |-> 1]}
     \cup {e @@ [bad |-> <<<<i, x>>>>] : i \in LiveIds(s), x \in {"c", "x"}}
     \cup (IF got /\ e.r \in DOMAIN s.zon
           THEN {[e EXCEPT !.o = sl * s.zon[e.r].cs] : sl \in s.zon[e.r].occ \cup s.zon[e.r].perm \cup s.zon[e.r].can}
                \cup {[e EXCEPT !.o = @ + s.zon[e.r].cs * s.zon[e.r].cap], [e EXCEPT !.cs = @ + 1], [e EXCEPT !.al = 4]}
           ELSE {})
     \cup (IF got /\ e.sz > 1 THEN {[e EXCEPT !.cs = e.sz - 1, !.cp = Pages(C, e.sz) - 1]} ELSE {})
     \cup (IF got /\ e.r \in Eff(s, e).s.smp THEN {[e EXCEPT !.rg = [k \in DOMAIN @ |-> IF Len(@[k][3]) = 3 THEN <<@[k][1], 1, <<@[k][3][2]>>>> ELSE @[k]]]} ELSE {})
     \cup (IF Has(e, "tv") /\ e.tv # <<>> /\ e.op # "zd" THEN {[e EXCEPT !.tv = <<>>], [e EXCEPT !.tv = [k \in DOMAIN @ |-> <<@[k][1], s.blk[@[k][1]].tg>>]]} ELSE {})
     \cup (IF Has(e, "tv") THEN {[e EXCEPT !.tv = Append(@, <<i, 1 - s.blk[i].tg>>)] : i \in {j \in LiveIds(s) : s.blk[j].h # 0 /\ j \in LiveIds(Eff(s, e).s)}} ELSE {})
     \cup (IF Has(e, "tgd") /\ got THEN {[e EXCEPT !.tgd = 2], [e EXCEPT !.tok = 0]} ELSE {})
     \cup (IF got THEN {e @@ [pr |-> 2], [e EXCEPT !.exp = 1]} ELSE {})
     \cup {e @@ [raw |-> 1], e @@ [cx |-> <<<<0, 0, "t">>>>], e @@ [uaf |-> <<<<1, 0, 2, 1>>>>]}
     \cup (IF got /\ e.r \in DOMAIN s.zon   \* another core's zone
           THEN {[e EXCEPT !.r = x] : x \in {y \in DOMAIN s.zon : C.cores = 1 /\ s.zon[y].cpu # s.cpu}} ELSE {})
     \cup (IF IsAlloc(e.op) /\ e.v = "p" /\ e.op \notin {"za", "zt"} THEN {[op |-> e.op, id |-> e.id, sz |-> e.sz, pg |-> e.pg, h |-> e.h, v |-> "n", nz |-> <<>>, rg |-> <<>>, rel |-> <<>>] @@ e} ELSE {})
(* experiments: what has to happen to a child that misuses the state *)
ProbesOk(s) ==
  /\ \A r \in DOMAIN s.zon : \A sl \in 0 .. s.zon[r].cap - 1 :
       LET z == s.zon[r]
           e(fl, sig) == [op |-> "pf", fl |-> fl, h |-> z.h, sz |-> 1, tk |-> "s", a |-> 0, b |-> sl, r |-> r, ru |-> 2, o |-> sl * z.cs, rl |-> 4, m8 |-> 0, stg |-> IF sig = 0 THEN 3 ELSE 0, sig |-> sig]
           live == \E i \in LiveIds(s) : s.blk[i].k = "c" /\ s.blk[i].r = r /\ s.blk[i].sl = sl
           ok(x) == Eff(s, x).v = {}
       IN \A fl \in {"F", "FS", "FP"} : IF live THEN ok(e(fl, 0)) /\ ~ok(e(fl, 6)) ELSE ok(e(fl, 6)) /\ ~ok(e(fl, 0)) /\ ~ok(e(fl, 11))
  /\ \A r \in DOMAIN s.zon : \A sl \in s.zon[r].can \cup s.zon[r].perm \cup s.zon[r].fr :
       LET z == s.zon[r]
           e(sig, stg) == [op |-> "pc", tk |-> "s", a |-> 0, b |-> sl, r |-> r, ru |-> 2, o |-> sl * z.cs, rl |-> 4, pos |-> 0, x |-> 1, det |-> "V", da |-> 0, db |-> 0, stg |-> stg, sig |-> sig]
       IN Eff(s, e(6, 0)).v = {} /\ Eff(s, e(0, 3)).v # {} /\ Eff(s, e(0, 9)).v # {}
QueriesOk(s) ==
  LET cs == ChunksOut(s) n == PagesOut(s) + cs \div C.page
      ok(x) == Eff(s, x).v = {}
      lk(a) == [op |-> "lkq", nk |-> a, nb |-> cs % C.page]
  IN ok(lk(n)) /\ ~ok(lk(n + 1)) /\ (n > 0 => ~ok(lk(n - 1)))
     /\ \A h \in DOMAIN s.hnd : LET k == Cardinality(OutB(s, s.hnd[h])) IN ok([op |-> "lkz", h |-> h, n |-> k]) /\ ~ok([op |-> "lkz", h |-> h, n |-> k + 1])
     /\ \A i \in LiveIds(s) : ok([op |-> "q", id |-> i, cs |-> s.blk[i].cs, cp |-> s.blk[i].cs]) /\ ~ok([op |-> "q", id |-> i, cs |-> s.blk[i].cs + 1, cp |-> s.blk[i].cs + 1])
Room(s, call) == \* the instance has room for what the call may need
  Cardinality(DOMAIN s.zon) < MaxZones /\ Cardinality(DOMAIN s.big) < MaxBigs
Judge ==
  /\ ProbesOk(st) /\ QueriesOk(st)
  /\ \A call \in Calls(st) :
       LET al == Allowed(st, call) IN
       /\ Room(st, call) => al # {}
       /\ Mutate = 1 => \A e \in al : \A w \in Wrong(st, e) : (Eff(st, w).v # {} \/ (PrintT(<<"accepted", w>>) /\ FALSE))
=============================================================================
