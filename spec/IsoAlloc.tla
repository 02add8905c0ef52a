------------------------------ MODULE IsoAlloc ------------------------------
(***************************************************************************)
(* The observable behaviour of isoalloc.                                   *)
(*                                                                         *)
(* A state st is a record                                                  *)
(*   c    configuration (the fields of a reset event)                      *)
(*   blk  id -> block: every block handed out under a name                 *)
(*   zon  region -> zone, h = 0 for internal zones, else the handle        *)
(*   big  region -> big mapping [pg pages, use times handed out, md regions*)
(*        that came with it, s "U" used / "F" free / "X" given up]         *)
(*   qu   blocks passed to iso_free and not yet released                   *)
(*   bf   regions of free big mappings, most recently freed first          *)
(*   hnd  handle -> region of its zone                                     *)
(*   smp  regions of sampled blocks                                        *)
(*   aux  other mapped regions that came with zones                        *)
(*   oth  regions mapped at start (roots, lookup tables, ...), first the   *)
(*        zones among them                                                 *)
(*   up   FALSE after shutdown                                             *)
(*   cpu  the core the thread runs on                                      *)
(*   ptr  addresses the program keeps: s {<<block, offset, region and      *)
(*        offset it addresses>>}, miss releases in a row that replaced     *)
(*        none of them                                                     *)
(*                                                                         *)
(* An event e is one API call (or one experiment in a forked child) with   *)
(* everything observed about it. Eff(st, e) gives the state after it and   *)
(* the set of <<property, rule>> the observation breaks: a behaviour is    *)
(* allowed iff every event of it has an empty set. The same operator is    *)
(* explored by TLC over all small behaviours (MC.tla), generates the       *)
(* scripts the implementation is driven with (Gen.tla), and judges the     *)
(* recorded traces of the implementation (Trace.tla).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(e, f) == f \in DOMAIN e
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
OpOf(e) == IF Has(e, "sub") THEN e.sub ELSE e.op
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rng(s) == {s[k] : k \in DOMAIN s}
Drop(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Iv(s) == UNION {s[k][1] .. s[k][2] : k \in DOMAIN s}
EmptyF == [k \in {} |-> 0]
(* one rule: no violation if ok, else the rule fails for each property in P *)
Rule(P, what, ok) == IF ok THEN {} ELSE {<<p, what>> : p \in P}

-----------------------------------------------------------------------------
(* Configuration arithmetic *)
RoundG(c, n) == ((n + c.gran - 1) \div c.gran) * c.gran
Chunk(c, n) == Max(c.gran, RoundG(c, n))
Pages(c, n) == (n + c.page - 1) \div c.page
(* number of chunks of a zone: whole groups of qw chunks, unless fewer fit *)
Cap(c, cs) == LET n == c.zb \div cs IN Min(n, c.qw * Max(1, n \div c.qw))
Shift(n, k) == n * (2 ^ k)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
WornAt(c, z) == Shift(z.cap, Log2(c.ret))          \* retired when its lifetime allocations exceed this
(* may a request of r (rounded) bytes be served by a chunk of cs bytes *)
NotWasteful(c, r, cs) == r <= c.zl \/ cs < c.wf * r
FitsSize(c, r, cs) == cs >= r /\ NotWasteful(c, r, cs) /\ (c.strong = 1 => cs = r)

(* Zones *)
NewZone(c, n, h, cpu) == [cpu |-> cpu, cs |-> n[3], run |-> n[2], win |-> n[4], can |-> Rng(n[5]), h |-> h, tot |-> 0, af |-> 0,
                     cap |-> Cap(c, n[3]), perm |-> {}, occ |-> {}, gs |-> {}, fr |-> {}, ax |-> {}]
Used(z) == Cardinality(z.can) + Cardinality(z.perm) + z.af
Full(z) == Used(z) >= z.cap
Internal(st) == {r \in DOMAIN st.zon : st.zon[r].h = 0}
(* a zone serves the core that created it only *)
Here(st, z) == st.c.cores = 1 => z.cpu = st.cpu
Ptr0 == [s |-> {}, miss |-> 0]
UsableFor(st, r, h) == {x \in DOMAIN st.zon : st.zon[x].h = h /\ ~Full(st.zon[x]) /\ Here(st, st.zon[x]) /\
                           (IF h = 0 THEN FitsSize(st.c, r, st.zon[x].cs) ELSE NotWasteful(st.c, r, st.zon[x].cs))}
Worn(c, z) == z.h = 0 /\ z.af = 0 /\ z.cs < c.rmax /\ z.tot > WornAt(c, z)

(* Big mappings: the first one on the free list that fits with little enough waste is reused *)
BigFits(st, r, pg) == st.big[r].pg >= pg /\ st.big[r].pg - pg <= st.c.waste
BigCands(st, pg) == {r \in Rng(st.bf) : BigFits(st, r, pg)}
SeqWithout(s, x) == SelectSeq(s, LAMBDA y : y # x)
BigOut(st) == {r \in DOMAIN st.big : st.big[r].s = "U"}

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
ChunksOut(st) == SumOver(DOMAIN st.zon, [r \in DOMAIN st.zon |-> st.zon[r].af])
PagesOut(st) == SumOver(BigOut(st), [r \in DOMAIN st.big |-> st.big[r].pg])

-----------------------------------------------------------------------------
(* Observed mapping changes *)
RegEv(e) == Get(e, "rg", <<>>)
NewRegs(e) == {x \in Rng(RegEv(e)) : x[2] = 1}
GoneRegs(e) == {x[1] : x \in {y \in Rng(RegEv(e)) : y[2] = 0 /\ y[3] = <<>>}}
ChangedRegs(e) == {x \in Rng(RegEv(e)) : x[2] = 0 /\ x[3] # <<>>}
NzEv(e) == Get(e, "nz", <<>>)
NzRids(e) == {x[1] : x \in Rng(NzEv(e))}
NzOf(e, r) == CHOOSE x \in Rng(NzEv(e)) : x[1] = r
RunsPages(runs) == IF runs = <<>> THEN 0 ELSE LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE runs[k][1] + S(k - 1) IN S(Len(runs))
Guarded(runs) == Len(runs) >= 3 /\ runs[1][2] = "n" /\ runs[Len(runs)][2] = "n"
AllN(runs) == \A k \in DOMAIN runs : runs[k][2] = "n"
NoHoles(runs) == \A k \in DOMAIN runs : runs[k][2] # "g"

-----------------------------------------------------------------------------
(* Results of an operation, before its mapping changes are compared:       *)
(*  s state, v violations, made: regions the new block came with (zone,    *)
(*  big mapping and metadata, sample), rel: blocks released by it,         *)
(*  gone: regions that must disappear, repl: zones that must be replaced,  *)
(*  prot: regions whose protection may change                              *)
R0(st) == [s |-> st, v |-> {}, made |-> {}, rel |-> {}, gone |-> {}, repl |-> {}, prot |-> {}]

(* ---- release of one block (chunk, big or sampled) ---- *)
(* r: result so far; id: block; perm: permanently *)
ReleaseChunk(r, id, perm) ==
  LET b == r.s.blk[id] z0 == r.s.zon[b.r]
      z == [z0 EXCEPT !.occ = @ \ {b.sl}, !.af = @ - 1, !.perm = IF perm THEN @ \cup {b.sl} ELSE @,
                      !.fr = IF perm THEN @ ELSE @ \cup {b.sl}]
      s1 == [r.s EXCEPT !.blk[id].s = IF perm THEN "R" ELSE "F", !.zon[b.r] = z]
  IN IF Worn(r.s.c, z) THEN [r EXCEPT !.s = s1, !.rel = @ \cup {id}, !.repl = @ \cup {b.r}]
     ELSE [r EXCEPT !.s = s1, !.rel = @ \cup {id}]
ReleaseBig(r, id, perm) ==
  LET b == r.s.blk[id] g == r.s.big[b.r] c == r.s.c
      keep == ~perm /\ Len(r.s.bf) < c.blist /\ g.use < c.bttl
      s1 == [r.s EXCEPT !.blk[id].s = IF perm THEN "R" ELSE "F"]
  IN CASE perm -> [r EXCEPT !.s = [s1 EXCEPT !.big[b.r].s = "X"], !.rel = @ \cup {id}, !.prot = @ \cup {b.r} \cup g.md]
       [] keep -> [r EXCEPT !.s = [s1 EXCEPT !.big[b.r].s = "F", !.bf = <<b.r>> \o @], !.rel = @ \cup {id},
                            !.prot = IF c.pfb = 1 THEN @ \cup {b.r} ELSE @]
       [] OTHER -> [r EXCEPT !.s = [s1 EXCEPT !.big = Drop(@, {b.r})], !.rel = @ \cup {id}, !.gone = @ \cup {b.r} \cup g.md]
ReleaseSample(r, id, perm) ==
  LET b == r.s.blk[id]
  IN [r EXCEPT !.s = [@ EXCEPT !.blk[id].s = "F", !.smp = @ \ {b.r}], !.rel = @ \cup {id}, !.gone = @ \cup {b.r}]
Release(r, id, perm) ==
  LET k == r.s.blk[id].k
  IN IF k = "c" THEN ReleaseChunk(r, id, perm) ELSE IF k = "b" THEN ReleaseBig(r, id, perm) ELSE ReleaseSample(r, id, perm)
(* zones worn out are taken away once the call is through; their blocks are gone with them *)
RECURSIVE ReleaseAll(_, _)
ReleaseAll(r, q) == IF q = <<>> THEN r ELSE ReleaseAll(Release(r, Head(q), FALSE), Tail(q))
FlushPending(r) == ReleaseAll([r EXCEPT !.s.qu = <<>>], r.s.qu)

(* ---- iso_free: released later, unless sampled ---- *)
Quarantine(r, id) ==
  IF r.s.blk[id].k = "s" THEN ReleaseSample(r, id, FALSE)
  ELSE LET r1 == IF Len(r.s.qu) >= r.s.c.qcap THEN FlushPending(r) ELSE r
       IN [r1 EXCEPT !.s = [@ EXCEPT !.blk[id].s = "P", !.qu = Append(@, id)]]

-----------------------------------------------------------------------------
(* ---- allocation: e reports the outcome of a request of (rounded) r bytes, pg pages, from zone handle h ---- *)
BaseBlk(e, k, r, sl, cs) == [s |-> "L", k |-> k, r |-> r, o |-> e.o, sl |-> sl, sz |-> e.sz, cs |-> cs, h |-> 0, tg |-> -1]
PutBlk(s, e, b) == [s EXCEPT !.blk = (e.id :> b) @@ @]

SampleRegion(st, e, r) ==
  /\ st.c.sane = 1 /\ r < st.c.page /\ Cardinality(st.smp) < st.c.smax
  /\ \E x \in NewRegs(e) : x[1] = e.r /\ Len(x[3]) = 3 /\ x[3][2] = <<1, "w">> /\ e.r \notin NzRids(e)

AllocSample(R, e, r) ==
  LET st == R.s b == BaseBlk(e, "s", e.r, 0, e.cs)
      x == CHOOSE y \in NewRegs(e) : y[1] = e.r
  IN [R EXCEPT !.s = PutBlk([st EXCEPT !.smp = @ \cup {e.r}], e, b), !.made = @ \cup {e.r},
       !.v = @ \cup Rule({"C22", "C02"}, "sampled block smaller than requested", e.cs >= e.sz /\ e.cs = r)
               \cup Rule({"C22", "C01", "C02"}, "sampled block not inside its page", e.ru = 2 /\ e.o >= 0 /\ e.o + e.cs <= st.c.page)
               \cup Rule({"C22", "C14"}, "sampled page not guarded", Guarded(x[3]))
               \cup Rule({"C22", "C02"}, "sampled block misaligned", e.al >= 8)]

AllocChunk(R, e, r, h) ==
  LET st0 == R.s c == st0.c
      fresh == e.r \in NzRids(e)
      st == IF fresh THEN [st0 EXCEPT !.zon = (e.r :> NewZone(c, NzOf(e, e.r), 0, st0.cpu)) @@ @] ELSE st0
  IN IF e.r \notin DOMAIN st.zon
     THEN [R EXCEPT !.v = @ \cup {<<p, "block outside of every zone">> : p \in {"C01", "C02", "C12", "C13"}}]
     ELSE
     LET z == st.zon[e.r] sl == e.o \div z.cs
         b == [BaseBlk(e, "c", e.r, sl, z.cs) EXCEPT !.h = h, !.tg = Get(e, "tg", -1)]
         z1 == [z EXCEPT !.occ = @ \cup {sl}, !.af = @ + 1, !.tot = @ + 1, !.fr = @ \ {sl}]
     IN [R EXCEPT !.s = PutBlk([st EXCEPT !.zon[e.r] = z1], e, b), !.made = IF fresh THEN @ \cup {e.r} ELSE @,
          !.v = @
            \cup Rule({"C01"}, "chunk handed out while live or pending", sl \notin z.occ \cup z.gs)
            \cup Rule({"C09", "C01"}, "pending chunk handed out", \A k \in DOMAIN st.qu : ~(st.blk[st.qu[k]].k = "c" /\ st.blk[st.qu[k]].r = e.r /\ st.blk[st.qu[k]].sl = sl))
            \cup Rule({"C01", "C08"}, "permanently freed chunk handed out", sl \notin z.perm)
            \cup Rule({"C01", "C10"}, "reserved chunk handed out", sl \notin z.can)
            \cup Rule({"C01", "C02"}, "chunk outside of the zone", e.ru \in {0, z.run} /\ e.o >= 0 /\ e.o + z.cs <= c.zb)
            \cup Rule({"C13", "C02"}, "chunk not at a multiple of the chunk size", e.o % z.cs = 0)
            \cup Rule({"C02", "C13"}, "reported size is not the chunk size of the zone", e.cs = z.cs)
            \cup Rule({"C02"}, "chunk smaller than the request", z.cs >= e.sz)
            \cup Rule({"C02"}, "chunk beyond the zone's capacity", sl < z.cap)
            \cup Rule({"C02"}, "misaligned", e.al >= 8)
            \cup Rule({"C12", "C01"}, "block from a zone it must not come from", z.h = h)
            \cup Rule({"C29"}, "chunk of a zone that belongs to another core", Here(st, z))
            \cup Rule({"C29"}, "chunk of a zone that belongs to another core", Here(st, z))
  \cup Rule({"C13"}, "chunk wastes too much", NotWasteful(c, r, z.cs))
            \cup Rule({"C13"}, "strong isolation: other chunk size", (c.strong = 1 /\ h = 0) => z.cs = r)
            \cup (IF fresh THEN Rule({"C13", "C15", "C12"}, "new zone although a usable one exists", UsableFor(st0, r, h) = {} /\ h = 0)
                            \cup Rule({"C13"}, "new zone of another size than requested", z.cs = r)
                  ELSE {})
            \cup (IF h # 0 /\ c.tags = 1 THEN Rule({"C20"}, "tagging and untagging a pointer does not give it back", Get(e, "tok", 1) = 1)
                                         \cup Rule({"C20"}, "tagged pointer carries another tag", Has(e, "tgd") => e.tgd = e.tg) ELSE {})]

AllocBig(R, e, pg) ==
  LET st == R.s c == st.c
      news == NewRegs(e)
      fresh == \E x \in news : x[1] = e.r
  IN IF fresh
     THEN LET x == CHOOSE y \in news : y[1] = e.r
              md == {y[1] : y \in news} \ ({e.r} \cup NzRids(e))
              mapped == IF e.ru \in DOMAIN x[3] THEN x[3][e.ru][1] ELSE 0
              g == [pg |-> mapped, use |-> 1, md |-> md, s |-> "U"]
              b == BaseBlk(e, "b", e.r, 0, e.cs)
          IN [R EXCEPT !.s = PutBlk([st EXCEPT !.big = (e.r :> g) @@ @], e, b), !.made = @ \cup {e.r} \cup md,
               !.v = @ \cup Rule({"C16"}, "fitting free big block not reused", BigCands(st, pg) = {})
                       \cup Rule({"C02"}, "big block smaller than the request", mapped >= pg /\ e.cp >= pg)
                       \cup Rule({"C16", "C02"}, "big block of another size", mapped = pg /\ e.cp = pg)
                       \cup Rule({"C02"}, "big block does not start its pages", e.o = 0)
                       \cup Rule({"C14"}, "big block not guarded", c.bg = 1 => Guarded(x[3]))
                       \cup Rule({"C14"}, "big metadata not guarded", c.bmg = 1 => \A y \in news : y[1] \in md => Guarded(y[3]))]
     ELSE IF e.r \notin DOMAIN st.big
     THEN [R EXCEPT !.v = @ \cup {<<p, "big block in memory that is not its own">> : p \in {"C01", "C02", "C16"}}]
     ELSE LET g == st.big[e.r]
              b == BaseBlk(e, "b", e.r, 0, e.cs)
          IN [R EXCEPT !.s = PutBlk([st EXCEPT !.big[e.r] = [g EXCEPT !.s = "U", !.use = @ + 1], !.bf = SeqWithout(@, e.r)], e, b),
               !.prot = IF c.pfb = 1 THEN @ \cup {e.r} ELSE @,
               !.v = @ \cup Rule({"C01", "C16"}, "big block handed out twice", g.s # "U")
                       \cup Rule({"C01", "C08"}, "permanently freed big block handed out", g.s # "X")
                       \cup Rule({"C16", "C09"}, "big block reused that is not free", e.r \in Rng(st.bf))
                       \cup Rule({"C02", "C16"}, "reused big block too small", g.pg >= pg)
                       \cup Rule({"C16"}, "reused big block wastes too much", g.pg - pg <= c.waste)
                       \cup Rule({"C02"}, "big block size reported wrong", e.cp = g.pg /\ e.o = 0)
                       \cup Rule({"C16"}, "big block used too often", g.use < c.bttl)]

(* r: request in bytes after rounding (only when pg is small), h: zone handle *)
AllocR(R, e, r, pg, h) ==
  LET st == R.s c == st.c
      common == Rule({"C02", "C11"}, "returned memory is not accessible", (e.v = "p" => ~Has(e, "pr")))
                \cup Rule({"C23", "C03"}, "former content visible in new block", (c.san = 1 /\ e.v = "p") => Get(e, "exp", 0) = 0)
  IN CASE e.v = "z" -> [R EXCEPT !.v = @ \cup Rule({"C02"}, "zero page for a non-zero request", e.sz = 0 /\ h = 0 /\ c.nozero = 1)
                                         \cup Rule({"C02"}, "zero page has a size", e.cs = 0)
                                         \cup Rule({"C02", "C14"}, "zero page accessible", e.pr = 2)]
       [] e.v = "n" -> [R EXCEPT !.v = @ \cup
              Rule({"C33"}, "NULL although configured to abort", c.aon = 0) \cup
              (IF h = 0 THEN Rule({"C02", "C11"}, "request refused", pg > c.bigmax \/ Get(e, "mayfail", 0) = 1)
               ELSE Rule({"C12", "C02"}, "private zone refuses although it is not full", UsableFor(st, r, h) = {} \/ Get(e, "mayfail", 0) = 1)
                    \cup Rule({"C29"}, "private zone refuses on its own core", c.cores = 0 \/ UsableFor(st, r, h) = {} \/ Get(e, "mayfail", 0) = 1))]
       [] OTHER -> LET q == IF SampleRegion(st, e, r) /\ h = 0 THEN AllocSample(R, e, r)
                            ELSE IF h # 0 \/ (pg <= Pages(c, c.small) /\ r <= c.small) THEN AllocChunk(R, e, r, h)
                            ELSE AllocBig(R, e, pg)
                   IN [q EXCEPT !.v = @ \cup common
                         \cup Rule({"C02"}, "unsatisfiable request answered", pg <= c.bigmax)
                         \cup Rule({"C02"}, "zero-sized request answered with memory", ~(e.sz = 0 /\ h = 0 /\ c.nozero = 1))]
Alloc(R, e, h) == AllocR(R, e, Chunk(R.s.c, e.sz), e.pg, h)

(* calloc may round every element: the larger request is as good *)
Calloc(R, e) ==
  IF e.v = "n"
  THEN [R EXCEPT !.v = @ \cup Rule({"C33"}, "NULL although configured to abort", R.s.c.aon = 0 \/ e.m = 0 \/ e.ov = 1 \/ e.rp >= R.s.c.bigmax)
                         \cup Rule({"C03", "C11"}, "calloc refused", e.ov = 1 \/ e.m = 0 \/ e.rp >= R.s.c.bigmax \/ Get(e, "mayfail", 0) = 1)]
  ELSE LET a == AllocR(R, e, Chunk(R.s.c, e.rs), e.rp, 0)
           b == AllocR(R, e, Chunk(R.s.c, e.sz), e.pg, 0)
           x == IF a.v = R.v \/ b.v # R.v THEN a ELSE b
       IN [x EXCEPT !.v = @ \cup Rule({"C03"}, "calloc with an overflowing product answered", e.ov = 0)
                            \cup Rule({"C03", "C01", "C02"}, "calloc block smaller than the product", e.v = "p" => (e.cs >= e.sz \/ e.cp > e.pg))
                            \cup Rule({"C03"}, "calloc memory not zero", e.v = "p" => Get(e, "z", 1) = 1)]

(* a private zone cannot hold it: the call must not return *)
TooBigForZone(st, e) == e.h # 0 /\ e.h \in DOMAIN st.hnd /\ st.hnd[e.h] \in DOMAIN st.zon /\ e.sz > st.zon[st.hnd[e.h]].cs
StrDup(R, e) ==
  IF e.len < 0 THEN [R EXCEPT !.v = @ \cup Rule({"C05"}, "NULL source duplicated", e.v = "n")]
  ELSE LET q == Alloc(R, e, e.h)
       IN [q EXCEPT !.v = @ \cup Rule({"C05"}, "copy differs from the source", Get(e, "cmp", 1) = 1)
                            \cup Rule({"C05"}, "copy not terminated", Get(e, "nt", 1) = 1)
                            \cup Rule({"C05", "C02"}, "copy does not fit its block", e.v = "p" => (e.cs >= e.sz \/ e.cp >= e.pg))
                            \cup Rule({"C05"}, "duplication refused", (e.v = "n" /\ e.h = 0) => (e.pg > R.s.c.bigmax \/ Get(e, "mayfail", 0) = 1))
                            \cup Rule({"C05", "C02"}, "private zone holds more than its chunks", ~TooBigForZone(R.s, e))]

(* releasing a block is checked against what the caller knew of it *)
FreeChecks(st, e, id) ==
  IF Has(e, "cf") /\ st.blk[id].k # "b" THEN Rule({"C02"}, "size of a live block changed", e.cf = st.blk[id].cs) ELSE {}
Live(st, id) == id \in DOMAIN st.blk /\ st.blk[id].s = "L"

Realloc(R, e) ==
  LET st == R.s IN
  IF e.ov = 1 THEN [R EXCEPT !.v = @ \cup Rule({"C04"}, "overflowing reallocarray answered", e.v = "n")]
  ELSE IF e.sz = 0
  THEN LET q == IF e.old = 0 THEN R ELSE Quarantine(R, e.old)
       IN [q EXCEPT !.v = @ \cup Rule({"C04"}, "realloc to zero does not return NULL", e.v = "n") \cup (IF e.old # 0 THEN FreeChecks(st, e, e.old) ELSE {})]
  ELSE IF e.v = "n" THEN [R EXCEPT !.v = @ \cup Rule({"C33"}, "NULL although configured to abort", st.c.aon = 0 \/ (OpOf(e) = "ra" /\ e.pg >= st.c.bigmax)) \cup Rule({"C04", "C11"}, "realloc refused", e.pg >= st.c.bigmax \/ Get(e, "mayfail", 0) = 1)]
  ELSE LET q == Alloc(R, e, 0)
           q2 == IF e.old = 0 \/ e.old \notin DOMAIN q.s.blk THEN q ELSE Release(q, e.old, st.c.prre = 1)
       IN [q2 EXCEPT !.v = @ \cup Rule({"C04"}, "content not preserved by realloc", Get(e, "cmp", 1) = 1)
                             \cup Rule({"C04", "C02"}, "realloc to too small a block", e.v = "p" => (e.cs >= e.sz \/ e.cp >= e.pg))
                             \cup (IF e.old # 0 THEN FreeChecks(st, e, e.old) ELSE {})]

-----------------------------------------------------------------------------
(* ---- the replaced libc and C++ interfaces ---- *)
(* what the caller asked for is a block of e.sz bytes at a multiple of e.a *)
Aligned(st, e) ==
  IF e.v # "p" THEN {}
  ELSE IF e.a <= st.c.gran THEN Rule({"C21"}, "alignment not honoured", e.okal = 1)
  ELSE Rule({"C21"}, "alignment above the granule not honoured", e.okal = 1)
PosixMemalign(R, e) ==
  IF e.pw = 0 \/ e.a % 8 # 0
  THEN [R EXCEPT !.v = @ \cup Rule({"C21"}, "posix_memalign accepts an invalid alignment", e.rc = 22 /\ e.v = "n")]
  ELSE LET q == Alloc(R, e, 0)
       IN [q EXCEPT !.v = @ \cup Aligned(R.s, e)
             \cup Rule({"C21"}, "posix_memalign rejects a valid alignment", e.rc # 22)
             \cup Rule({"C21"}, "result and status of posix_memalign disagree", (e.rc = 0) <=> (e.v # "n"))]
AlignedAlloc(R, e) == LET q == Alloc(R, e, 0) IN [q EXCEPT !.v = @ \cup Aligned(R.s, e)]
CppNew(R, e) ==
  LET q == Alloc(R, e, 0)
  IN [q EXCEPT !.v = @ \cup Aligned(R.s, e)
        \cup Rule({"C21"}, "throwing operator new returns NULL", (e.throws = 1 /\ e.v = "n") => e.thr = 1)
        \cup Rule({"C21"}, "non-throwing operator new throws", e.throws = 0 => e.thr = 0)]

-----------------------------------------------------------------------------
(* ---- the heap profiler. st.pr counts the calls made through every recognisable call path since the last  *)
(* reset: a, f path -> [n calls, sz size -> calls]; any: calls through other paths; al, fr: all calls ever;  *)
(* sa, sf: sampled calls of earlier rounds (-1: not known); qa, qf: last answers, 0 once calls were made     *)
Pr0 == [a |-> EmptyF, f |-> EmptyF, any |-> FALSE, al |-> 0, fr |-> 0, sa |-> 0, sf |-> 0, qa |-> <<>>, qf |-> <<>>, fresh |-> TRUE]
Note(m, k, sz) ==
  LET o == IF k \in DOMAIN m THEN m[k] ELSE [n |-> 0, sz |-> EmptyF]
      c == IF sz \in DOMAIN o.sz THEN o.sz[sz] ELSE 0
  IN (k :> [n |-> o.n + 1, sz |-> (sz :> c + 1) @@ o.sz]) @@ m
AllocLike(op) == op \in {"a", "c", "re", "ra", "sd", "sn", "sdz", "snz", "za", "zt", "hp", "ha", "hn"}
FreeLike(op) == op \in {"f", "fp", "fzp", "fs", "fz", "re", "ra"}
ProfAfter(st, e) ==
  LET p == st.pr op == OpOf(e)
      big == op \in {"fill", "ch", "fg"}
      p1 == IF AllocLike(op) THEN [p EXCEPT !.al = @ + 1] ELSE p
      p2 == IF FreeLike(op) THEN [p1 EXCEPT !.fr = @ + 1] ELSE p1
      (* a calloc may ask for each element rounded, a private zone for its chunk size *)
      sizes == CASE op = "c" -> e.sz [] OTHER -> IF Has(e, "sz") THEN e.sz ELSE 0
  IN IF op = "trr" THEN [p EXCEPT !.a = EmptyF, !.f = EmptyF, !.any = FALSE, !.qa = <<>>, !.qf = <<>>, !.fresh = TRUE]
     ELSE IF Has(e, "pk")
     THEN [p2 EXCEPT !.a = IF AllocLike(op) THEN Note(@, e.pk, sizes) ELSE @, !.f = IF FreeLike(op) THEN Note(@, e.pk, 0) ELSE @, !.fresh = FALSE]
     ELSE IF AllocLike(op) \/ FreeLike(op) \/ big THEN [p2 EXCEPT !.any = TRUE, !.fresh = FALSE]
     ELSE p2
CallSum(m) == SumOver(DOMAIN m, [k \in DOMAIN m |-> m[k].n])
RECURSIVE SumSeq(_, _)
SumSeq(s, j) == IF s = <<>> THEN 0 ELSE Head(s)[j] + SumSeq(Tail(s), j)
(* a bound may be given as requested or as served *)
WithServed(c, S) == S \cup {Chunk(c, s) : s \in S}
SizesOf(m) == UNION {DOMAIN m[k].sz : k \in DOMAIN m}
TraceRules(c, p, m, es, last, sized) ==
  LET keys == {es[i][1] : i \in DOMAIN es}
      called == DOMAIN m
      exact == Cardinality(keys) = Cardinality(called) /\ Len(es) = Cardinality(keys) /\ Cardinality(called) <= 8   \* no two paths share an entry
      heavy == {k \in called : m[k].n >= 40 /\ (sized \/ k % 10 # 2)}      \* which free a realloc uses inside is its own affair
      few == Cardinality(called) <= 8 /\ ~p.any
      over(k) == {i \in DOMAIN last : last[i][1] = k}
  IN   Rule({"C27"}, "more trace entries than the table holds", Len(es) <= 128)
  \cup Rule({"C27"}, "two trace entries for one call path", \A i, j \in DOMAIN es : i # j => es[i][2] # es[j][2])
  \cup Rule({"C27"}, "trace entry without calls", \A i \in DOMAIN es : es[i][3] >= 1)
  \cup Rule({"C27"}, "more calls traced than made", p.any \/ SumSeq(es, 3) <= CallSum(m))
  \cup Rule({"C27"}, "trace entry from no call path", p.any \/ (0 \notin keys /\ keys \subseteq called))
  \cup Rule({"C27"}, "call path never traced", ~few \/ Cardinality(heavy \ keys) <= 1)
  \cup Rule({"C27"}, "hardly any call traced", ~few \/ CallSum(m) < 200 \/ SumSeq(es, 3) * 4 >= CallSum(m))
  \cup Rule({"C27"}, "trace entries lost or changed without a call", ~p.fresh => \A i \in DOMAIN last : i \in DOMAIN es /\ es[i][1] = last[i][1] /\ es[i][2] = last[i][2] /\ es[i][3] >= last[i][3]
                                                                     /\ (sized => es[i][4] <= last[i][4] /\ es[i][5] >= last[i][5]))
  \cup (IF ~exact \/ p.any THEN {} ELSE
          Rule({"C27"}, "more calls traced for a path than made", \A i \in DOMAIN es : es[i][3] <= m[es[i][1]].n))
  \cup (IF ~sized \/ p.any THEN {} ELSE
          Rule({"C27"}, "size bounds the wrong way round", \A i \in DOMAIN es : es[i][4] <= es[i][5])
     \cup Rule({"C27"}, "size bound that was never requested", \A i \in DOMAIN es : LET S == WithServed(c, IF exact THEN DOMAIN m[es[i][1]].sz ELSE SizesOf(m)) IN
               es[i][4] \in S /\ es[i][5] \in S)
     \cup Rule({"C27"}, "size bounds do not cover the calls", ~exact \/ \A i \in DOMAIN es : \A s \in DOMAIN m[es[i][1]].sz :
               m[es[i][1]].sz[s] >= 40 => (es[i][4] <= Chunk(c, s) /\ s <= es[i][5])))
Traces(R, e) ==
  LET p == R.s.pr
      full == Len(e.ea) >= 128
  IN [R EXCEPT !.s = [@ EXCEPT !.pr.qa = e.ea, !.pr.qf = e.ef, !.pr.fresh = FALSE],
       !.v = @ \cup Rule({"C27"}, "query returns another number of entries than it reports", e.na = Len(e.ea) /\ e.nf = Len(e.ef) /\ e.over = 0)
               \cup Rule({"C27"}, "traces left after a reset", p.fresh => (e.na = 0 /\ e.nf = 0))
               \cup TraceRules(R.s.c, p, p.a, e.ea, p.qa, TRUE) \cup TraceRules(R.s.c, p, p.f, e.ef, p.qf, FALSE)]
ProfFile(st, e) ==
  LET f == e.pf p == st.pr
  IN   Rule({"C27"}, "profile not written", f[1] >= 0 /\ f[2] >= 0 /\ f[3] >= 0 /\ f[4] >= 0)
  \cup Rule({"C27"}, "profile counts more samples than calls", f[2] <= f[1] /\ f[4] <= f[3])
  \cup Rule({"C27"}, "profile traces more calls than sampled", f[6] <= f[2] /\ f[8] <= f[4])
  \cup Rule({"C27"}, "profile traces do not add up to the samples", p.sa = 0 => ((f[5] < 128 => f[6] = f[2]) /\ (f[7] < 128 => f[8] = f[4])))
  \cup Rule({"C27"}, "profile counts calls that were not made", p.any \/ (f[1] <= p.al + 1 /\ f[3] <= p.fr))
  \cup Rule({"C27"}, "profile misses calls", p.any \/ f[1] >= CallSum(p.a))

-----------------------------------------------------------------------------
(* ---- zones ---- *)
ZoneNew(R, e) ==
  LET c == R.s.c IN
  IF e.ok = 0 THEN [R EXCEPT !.v = @ \cup Rule({"C12"}, "private zone refused", e.sz > c.small)]
  ELSE IF e.zr \notin NzRids(e)
  THEN [R EXCEPT !.v = @ \cup {<<"C12", "private zone without memory of its own">>, <<"C13", "private zone without memory of its own">>}]
  ELSE LET z == NewZone(c, NzOf(e, e.zr), e.h, R.s.cpu)
       IN [R EXCEPT !.s = [@ EXCEPT !.zon = (e.zr :> z) @@ @, !.hnd = (e.h :> e.zr) @@ @], !.made = @ \cup {e.zr},
            !.v = @ \cup Rule({"C12"}, "zone for too large chunks", e.sz <= c.small)
                    \cup Rule({"C30"}, "handle is the plain address of the zone's metadata", c.mask = 0 \/ Get(e, "hp", 0) = 0)
                    \cup Rule({"C12", "C13"}, "zone of another chunk size", z.cs = Chunk(c, e.sz))]
ZoneDestroy(R, e) ==
  IF e.h = 0 \/ e.h \notin DOMAIN R.s.hnd THEN R
  ELSE LET q == FlushPending(R) r == R.s.hnd[e.h]
           lost == {i \in DOMAIN q.s.blk : q.s.blk[i].k = "c" /\ q.s.blk[i].r = r /\ q.s.blk[i].s \in {"L", "R", "F"}}
       IN [q EXCEPT !.s = [@ EXCEPT !.hnd = Drop(@, {e.h}), !.blk = Drop(@, lost)], !.repl = @ \cup {r}]

(* ---- many allocations, or allocations each followed by its release ---- *)
AggRules(st, z, a, r, h, iv) ==
  LET c == st.c IN
       Rule({"C01"}, "chunk handed out while live or pending", iv \cap (z.occ \cup z.gs) = {})
  \cup Rule({"C01", "C08"}, "permanently freed chunk handed out", iv \cap z.perm = {})
  \cup Rule({"C01", "C10"}, "reserved chunk handed out", iv \cap z.can = {})
  \cup Rule({"C13", "C02"}, "chunk not at a multiple of the chunk size", a.odd = 0)
  \cup Rule({"C02"}, "chunk smaller than the request", z.cs >= r)
  \cup Rule({"C02", "C13"}, "reported size is not the chunk size of the zone", a.cs = z.cs)
  \cup Rule({"C02"}, "chunk beyond the zone's capacity", \A x \in iv : x < z.cap)
  \cup Rule({"C12", "C01"}, "block from a zone it must not come from", z.h = h)
  \cup Rule({"C13"}, "chunk wastes too much", NotWasteful(c, r, z.cs))
  \cup Rule({"C13"}, "strong isolation: other chunk size", (c.strong = 1 /\ h = 0) => z.cs = r)
RECURSIVE ChurnZ(_, _, _)
ChurnZ(R, e, k) ==
  IF k > Len(e.ag) THEN R
  ELSE LET a == e.ag[k] st == R.s r == Chunk(st.c, e.sz) IN
    IF a.r \notin DOMAIN st.zon THEN [R EXCEPT !.v = @ \cup {<<"C01", "block outside of every zone">>, <<"C02", "block outside of every zone">>}]
    ELSE LET z == st.zon[a.r] iv == Iv(a.iv)
             z1 == [z EXCEPT !.tot = @ + a.n, !.fr = @ \cup iv]
         IN ChurnZ([R EXCEPT !.s = [@ EXCEPT !.zon[a.r] = z1], !.v = @ \cup AggRules(st, z, a, r, e.h, iv)
                      \cup Rule({"C15"}, "worn idle zone not retired", ~Worn(st.c, z1))], e, k + 1)
RECURSIVE FillZ(_, _, _)
FillZ(R, e, k) ==
  IF k > Len(e.ag) THEN R
  ELSE LET a == e.ag[k] st0 == R.s c == st0.c r == Chunk(c, e.sz)
           fresh == a.r \in NzRids(e)
           st == IF fresh THEN [st0 EXCEPT !.zon = (a.r :> NewZone(c, NzOf(e, a.r), 0, st0.cpu)) @@ @] ELSE st0
       IN
    IF a.r \notin DOMAIN st.zon THEN [R EXCEPT !.v = @ \cup {<<"C01", "block outside of every zone">>, <<"C02", "block outside of every zone">>}]
    ELSE LET z == st.zon[a.r] iv == Iv(a.iv)
             z1 == [z EXCEPT !.tot = @ + a.n, !.af = @ + a.n, !.gs = @ \cup iv, !.fr = @ \ iv]
         IN FillZ([R EXCEPT !.s = [st EXCEPT !.zon[a.r] = z1], !.made = IF fresh THEN @ \cup {a.r} ELSE @,
                     !.v = @ \cup AggRules(st, z, a, r, e.h, iv)
                             \cup Rule({"C01"}, "chunk handed out twice", Cardinality(iv) = a.n)
                             \cup (IF fresh THEN Rule({"C13", "C15", "C12"}, "new zone although a usable one exists", UsableFor(st0, r, e.h) = {} /\ e.h = 0)
                                                 \cup Rule({"C13"}, "new zone of another size than requested", z.cs = r) ELSE {})], e, k + 1)
RECURSIVE FreeGrpZ(_, _, _)
FreeGrpZ(R, e, k) ==
  IF k > Len(e.ag) THEN R
  ELSE LET a == e.ag[k] st == R.s IN
    IF a.r \notin DOMAIN st.zon THEN R
    ELSE LET z == st.zon[a.r] iv == Iv(a.iv)
             z1 == [z EXCEPT !.af = @ - a.n, !.gs = @ \ iv, !.perm = IF e.fl = "P" THEN @ \cup iv ELSE @, !.fr = IF e.fl = "P" THEN @ ELSE @ \cup iv]
             w == Worn(st.c, z1)
         IN FreeGrpZ([R EXCEPT !.s = [@ EXCEPT !.zon[a.r] = z1], !.repl = IF w THEN @ \cup {a.r} ELSE @], e, k + 1)

-----------------------------------------------------------------------------
(* ---- queries ---- *)
UsageOk(st, n) ==
  LET nz == Cardinality(DOMAIN st.zon)
      bg == {r \in DOMAIN st.big : st.big[r].s # "X"}
      pg == SumOver(bg, [r \in DOMAIN st.big |-> st.big[r].pg])
      up == PagesOut(st)          \* used and free ones may be rounded separately
  IN n >= 4 * nz + up \div 256 + (pg - up) \div 256 /\ n <= 4 * nz + nz \div 32 + (pg + 7 * Cardinality(bg)) \div 256 + 2

-----------------------------------------------------------------------------
(* ---- the mapping changes of an event against what the operation calls for ---- *)
LiveIn(st, r) == {i \in DOMAIN st.blk : st.blk[i].r = r /\ st.blk[i].s \in {"L", "P"}}
Finish(st, q, e) ==
  LET c == st.c s == q.s
      nzr == NzRids(e) \ q.made                  \* replacements
      css == {NzOf(e, r)[3] : r \in nzr} \cup {s.zon[r].cs : r \in q.repl}
      replOk == \A x \in css : Cardinality({r \in nzr : NzOf(e, r)[3] = x}) = Cardinality({r \in q.repl : s.zon[r].cs = x})
      gone == GoneRegs(e)
      auxOf == UNION {s.zon[r].ax : r \in q.repl}
      must == q.gone \cup q.repl \cup auxOf
      surplus == gone \ (must \cup st.aux)
      newOther == {x \in NewRegs(e) : x[1] \notin q.made \cup NzRids(e)}
      newAux == {x[1] : x \in newOther}
      known == DOMAIN st.zon \cup DOMAIN st.big
      (* a bitmap that certainly belongs to one zone *)
      owner == IF Cardinality(NzRids(e)) = 1 /\ Cardinality(newAux) = 1 THEN NzRids(e) ELSE {}
      zon1 == Drop(s.zon, q.repl)
      zon2 == [r \in DOMAIN zon1 |-> IF r \in owner THEN [zon1[r] EXCEPT !.ax = newAux] ELSE zon1[r]]
      zon3 == [r \in nzr |-> LET z == NewZone(c, NzOf(e, r), 0, s.cpu) IN IF r \in owner THEN [z EXCEPT !.ax = newAux] ELSE z] @@ zon2
      lost == {i \in DOMAIN s.blk : s.blk[i].r \in q.repl /\ s.blk[i].k = "c"}
      s1 == [s EXCEPT !.zon = zon3, !.aux = (@ \cup newAux) \ gone, !.oth = @ \ gone,
                      !.blk = [i \in DOMAIN @ \ {j \in lost : j >= 600000} |-> IF i \in lost /\ @[i].s \in {"F", "R"} THEN [@[i] EXCEPT !.s = "G"] ELSE @[i]]]
      tracked == {i \in q.rel : i \in DOMAIN st.blk \/ Has(e, "id")}
      obs == {x[1] : x \in Rng(Get(e, "rel", <<>>))}
      relOf(i) == (CHOOSE x \in Rng(e.rel) : x[1] = i)[2]
      b(i) == IF i \in DOMAIN s.blk THEN s.blk[i] ELSE st.blk[i]
      permd == {i \in q.rel : b(i).s = "R" \/ OpOf(e) \in {"fp", "fzp"}}
      quiet == c.nocan = 1 /\ c.san = 0
      tvs == Rng(Get(e, "tv", <<>>))
      uafs == Rng(Get(e, "uaf", <<>>))
      held(p) == {i \in q.rel : b(i).r = p[3] /\ b(i).o = p[4]}
      hits == UNION {UNION {held(p) : p \in {y \in s.ptr.s : y[1] = x[1] /\ y[2] = x[2]}} : x \in uafs}
      chances == {i \in q.rel : b(i).k = "c" /\ \E p \in st.ptr.s : i \in held(p) /\ Live(s, p[1]) /\ s.blk[p[1]].k = "c"}
      miss == IF chances \cap hits # {} THEN 0 ELSE st.ptr.miss + Cardinality(chances)
      ptr == [s |-> {p \in s.ptr.s : Live(s, p[1]) /\ ~\E x \in uafs : x[1] = p[1] /\ x[2] = p[2]}, miss |-> miss]
      s2 == [s1 EXCEPT !.ptr = ptr, !.blk = [i \in DOMAIN @ |-> IF \E x \in tvs : x[1] = i THEN [@[i] EXCEPT !.tg = (CHOOSE x \in tvs : x[1] = i)[2]] ELSE @[i]]]
      tagged(i) == c.tags = 1 /\ i < 100000 /\ b(i).h # 0 /\ b(i).h \in DOMAIN s.hnd
      v == Rule({"C15", "C13"}, "zones created do not match zones needed", replOk)
      \cup Rule({"C15"}, "zone retired or destroyed but not unmapped", q.repl \subseteq gone)
      \cup Rule({"C15"}, "bitmap of a removed zone still mapped", auxOf \subseteq gone)
      \cup Rule({"C16", "C22"}, "big block or sample released but not unmapped", q.gone \subseteq gone)
      \cup Rule({"C15", "C01"}, "zone unmapped although in use or not worn", surplus \cap DOMAIN st.zon = {})
      \cup Rule({"C16", "C01"}, "big mapping unmapped although needed", surplus \cap (DOMAIN st.big \cup UNION {st.big[r].md : r \in DOMAIN st.big}) = {})
      \cup Rule({"C22", "C01"}, "sample unmapped although live", surplus \cap st.smp = {})
      \cup Rule({"C01", "C14"}, "allocator structure unmapped", Cardinality(surplus \cap st.oth) <= Cardinality(q.repl \cap st.first))
      \cup Rule({"C15", "C16"}, "unexplained new mapping", Cardinality(newAux) <= Cardinality(NzRids(e)))
      \cup Rule({"C15"}, "bitmaps outnumber zones", Cardinality(s1.aux) <= Cardinality(DOMAIN zon3))
      \cup Rule({"C15", "C16", "C01"}, "part of a mapping unmapped", \A x \in Rng(RegEv(e)) : NoHoles(x[3]))
      \cup Rule({"C14"}, "zone not guarded", \A x \in NewRegs(e) : x[1] \in NzRids(e) =>
               (Guarded(x[3]) /\ NzOf(e, x[1])[2] \in DOMAIN x[3] /\ x[3][NzOf(e, x[1])[2]] = <<c.zpg, "w">>
                /\ \A k \in DOMAIN x[3] : x[3][k][2] = "w" => (k > 1 /\ x[3][k - 1][2] = "n" /\ x[3][k + 1][2] = "n")))
      \cup Rule({"C14"}, "bitmap not guarded", \A x \in newOther : Guarded(x[3]))
      \cup Rule({"C14", "C01"}, "page protections changed", \A x \in ChangedRegs(e) : x[1] \in q.prot)
      \cup Rule({"C08"}, "permanently freed big block accessible", \A x \in ChangedRegs(e) :
               (x[1] \in DOMAIN s.big /\ s.big[x[1]].s = "X") => AllN(x[3]))
      \cup Rule({"C08"}, "permanently freed big block not protected", \A i \in permd : b(i).k = "b" => \E x \in ChangedRegs(e) : x[1] = b(i).r)
      \cup Rule({"C16", "C23"}, "free big block not protected", c.pfb = 1 => \A i \in q.rel \ permd :
               (b(i).k = "b" /\ b(i).r \in Rng(s.bf)) => \E x \in ChangedRegs(e) : x[1] = b(i).r /\ AllN(x[3]))
      \cup Rule({"C01", "C16"}, "live memory given up", \A r \in Rng(Get(e, "dn", <<>>)) :
               \A i \in LiveIn(s, r) : i \in q.rel)
      \cup Rule({"C01", "C15", "C16"}, "memory unmapped that is not the allocator's", Get(e, "wild", 0) = 0)
      \cup Rule({"C30"}, "plain addresses in the allocator's structures", c.mask = 1 => ~Has(e, "raw"))
      \cup Rule({"C31"}, "canary does not begin with a zero byte", \A x \in Rng(Get(e, "cx", <<>>)) : x[3] # "t")
      \cup Rule({"C31"}, "two chunks with the same canary", \A x \in Rng(Get(e, "cx", <<>>)) : x[3] # "d")
      \cup Rule({"C31"}, "two zones with the same canary secret", \A x \in Rng(Get(e, "cx", <<>>)) : x[3] # "s")
      \cup Rule({"C31"}, "canary is nothing but the address", \A x \in Rng(Get(e, "cx", <<>>)) : x[3] # "k")
      \cup Rule({"C32", "C01"}, "stored address changed without such a feature", c.uaf = 0 => uafs = {})
      \cup Rule({"C32"}, "address replaced that was not freed", \A x \in uafs : \E p \in s.ptr.s : p[1] = x[1] /\ p[2] = x[2] /\ held(p) # {})
      \cup Rule({"C32"}, "dangling address replaced by something else than an inaccessible page", \A x \in uafs : x[4] = 1)
      \cup Rule({"C32"}, "more than one address replaced", Cardinality(uafs) = Cardinality(hits))
      \cup Rule({"C32"}, "dangling addresses are never replaced", (c.uaf = 1 /\ c.uodds = 2) => miss < 60)
      \cup Rule({"C18", "C17"}, "lock still held", Get(e, "lk", 0) = (IF OpOf(e) = "pr" /\ Get(c, "thr", 1) = 1 /\ Get(c, "spin", 0) = 0 THEN 1 ELSE 0))
      \cup Rule({"C01", "C04", "C09"}, "content of a live block changed", \A x \in Rng(Get(e, "bad", <<>>)) : x[2] # "c")
      \cup Rule({"C01", "C11"}, "live block became inaccessible", \A x \in Rng(Get(e, "bad", <<>>)) : x[2] # "x")
      \cup Rule({"C09", "C06"}, "pending block released too early", obs \subseteq q.rel)
      \cup Rule({"C09"}, "block not released", quiet \/ (q.rel \ permd) \subseteq obs)
      \cup Rule({"C23"}, "released memory not sanitized", c.san = 1 => \A i \in obs \cap q.rel :
               relOf(i) \in {"p", "g", "n"} \/ b(i).k = "s")
      \cup (IF c.tags = 1 THEN
              Rule({"C20"}, "tag of a live block changed", \A x \in tvs : (x[1] \in DOMAIN st.blk /\ st.blk[x[1]].s = "L") => x[1] \in q.rel)
         \cup Rule({"C20"}, "tag not changed by release", \A i \in q.rel : tagged(i) => \E x \in tvs : x[1] = i /\ x[2] # b(i).tg)
         \cup Rule({"C20"}, "tags changed without a release", tvs # {} => (q.rel # {} \/ OpOf(e) = "fg" \/ OpOf(e) = "fs" \/ OpOf(e) = "ch"))
            ELSE {})
  IN [s |-> s2, v |-> q.v \cup v]

-----------------------------------------------------------------------------
(* ---- experiments ---- *)
Died(e) == e.sig \in {6, 4, 5}
(* what the address (region r, run ru, offset o) is: live/pend/free/res/perm/int/none/zero *)
Where(st, e) ==
  IF e.r \in DOMAIN st.zon
  THEN LET z == st.zon[e.r] sl == e.o \div z.cs IN
       IF e.ru # z.run THEN "none"
       ELSE IF e.o % z.cs # 0 THEN "int"
       ELSE IF sl >= z.cap THEN "none"
       ELSE IF sl \in z.can THEN "res" ELSE IF sl \in z.perm THEN "perm"
       ELSE IF sl \in z.gs THEN "live"
       ELSE IF sl \in z.occ THEN (IF \E i \in DOMAIN st.blk : st.blk[i].k = "c" /\ st.blk[i].r = e.r /\ st.blk[i].sl = sl /\ st.blk[i].s = "L" THEN "live" ELSE "pend")
       ELSE IF sl \in z.fr THEN "free" ELSE "never"
  ELSE IF e.r \in DOMAIN st.big
  THEN LET g == st.big[e.r] ids == {i \in DOMAIN st.blk : st.blk[i].r = e.r /\ st.blk[i].s \in {"L", "P"}} IN
       IF g.s = "X" THEN "perm" ELSE IF g.s = "F" THEN (IF e.o = 0 THEN "free" ELSE "int")
       ELSE IF e.o # 0 \/ ids = {} THEN "int"
       ELSE IF \E i \in ids : st.blk[i].s = "L" THEN "live" ELSE "pend"
  ELSE IF e.r \in st.smp
  THEN IF \E i \in DOMAIN st.blk : st.blk[i].r = e.r /\ st.blk[i].s = "L" /\ st.blk[i].o = e.o THEN "live" ELSE "int"
  ELSE IF Get(e, "tk", "") = "z" THEN (IF e.b = 0 THEN "zero" ELSE "none")
  ELSE "none"
SizeAt(st, e) == IF e.r \in DOMAIN st.zon THEN st.zon[e.r].cs
                 ELSE IF e.r \in DOMAIN st.big THEN st.big[e.r].pg * st.c.page
                 ELSE IF e.r \in st.smp THEN (CHOOSE b \in {st.blk[i] : i \in DOMAIN st.blk} : b.r = e.r).cs ELSE 0
IsBig(st, e) == e.r \in DOMAIN st.big
(* a free of the address: "die", "live" or "any" *)
FreeExp(st, e) ==
  LET w == Where(st, e) IN
  IF w = "zero" THEN (IF e.fl \in {"F", "FP"} \/ (e.fl = "FS" /\ e.sz = 0) \/ (e.fl = "Q") THEN "live" ELSE IF e.fl = "FS" THEN "die" ELSE "any")
  ELSE IF e.fl = "Q" THEN (IF w = "live" THEN "live" ELSE IF w = "none" /\ e.r \notin DOMAIN st.zon /\ e.r \notin DOMAIN st.big /\ e.r \notin st.smp THEN "die" ELSE "any")
  ELSE IF e.fl \in {"FZ", "FZP"} /\ (e.h \notin DOMAIN st.hnd) THEN "any"
  ELSE IF e.fl \in {"FZ", "FZP"} /\ (e.r # st.hnd[e.h]) THEN "die"
  ELSE IF w # "live" THEN (IF e.fl = "R" /\ e.sz = 0 /\ FALSE THEN "any" ELSE "die")
  ELSE IF e.fl = "FS" THEN (IF e.sz > SizeAt(st, e) THEN "die"
                            ELSE IF IsBig(st, e) /\ e.sz <= st.c.small THEN "any" ELSE "live")
  ELSE "live"
ProbeFree(st, e) ==
  LET w == Where(st, e) x == FreeExp(st, e)
      P == IF w \in {"pend", "free"} THEN {"C06"} ELSE IF w = "perm" THEN {"C06", "C07", "C08"} ELSE {"C07"}
      Q == IF w = "perm" THEN P ELSE IF e.fl \in {"FZ", "FZP"} THEN P \cup {"C12"} ELSE P
      late == w = "pend" \/ e.fl = "F" \/ (e.fl = "R" /\ e.sz = 0)
  IN CASE x = "die" -> Rule(IF e.r \in st.smp THEN Q \cup {"C22"} ELSE Q, "invalid or repeated free not detected", e.sig # 0)
                       \cup Rule(Q, "invalid or repeated free ends in another way than an abort", e.sig = 0 \/ Died(e) \/ (e.fl = "R" /\ e.sig \in {11, 7}))
                       \cup Rule(Q, "invalid or repeated free detected too late", e.sig = 0 \/ e.stg = 0 \/ (late /\ e.stg <= 1))
       [] x = "live" -> Rule({"C11", "C07"}, "valid free aborted", e.sig = 0)
       [] OTHER -> {}

(* damage to one byte of a chunk's first or last word, then a detector runs *)
Protected(st, w) == st.c.nocan = 0 /\ w \in {"free", "res", "perm"}
AdjacentLive(st, e, id) ==
  /\ Live(st, id) /\ st.blk[id].r = e.r /\ e.r \in DOMAIN st.zon
  /\ st.blk[id].sl \in {e.o \div st.zon[e.r].cs - 1, e.o \div st.zon[e.r].cs + 1}
(* with FUZZ_MODE every small allocation and every release of a chunk verifies everything *)
FuzzSees(st, e) ==
  /\ st.c.fuzz = 1
  /\ \/ e.det \in {"F", "FS", "FP", "FZ"} /\ Live(st, e.da) /\ st.blk[e.da].k = "c" /\ (e.det = "FZ" => st.blk[e.da].h = e.db)
     \/ e.det = "AL" /\ e.da <= st.c.small /\ e.db >= 1
ProbeCorrupt(st, e) ==
  LET w == Where(st, e)
      sure == \/ e.det \in {"V", "X"}
              \/ e.det = "VZ" /\ e.da \in DOMAIN st.hnd /\ st.hnd[e.da] = e.r
              \/ e.det \in {"F", "FS", "FP"} /\ AdjacentLive(st, e, e.da)
              \/ FuzzSees(st, e)
              \/ e.det = "FZ" /\ AdjacentLive(st, e, e.da) /\ e.db \in DOMAIN st.hnd /\ st.hnd[e.db] = e.r
  IN IF ~Protected(st, w) THEN {}
     ELSE Rule({"C10"}, "damaged chunk handed out", e.stg # 9)
     \cup (IF sure THEN Rule({"C10"}, "damage not detected", e.sig # 0) ELSE {})
     \cup Rule({"C10"}, "damage ends in another way than an abort", e.sig = 0 \/ Died(e))
ProbeMeta(st, e) ==
  LET on == e.id \in DOMAIN st.blk /\ st.blk[e.id].k = "b" /\ st.blk[e.id].r \in DOMAIN st.big /\ st.big[st.blk[e.id].r].s # "X"
      used == on /\ st.big[st.blk[e.id].r].s = "U"
      sure == \/ e.det \in {"V", "X"}
              \/ used /\ e.det \in {"F", "FP", "Q"} /\ e.da = e.id
              \/ used /\ e.det = "FS" /\ e.da = e.id
              \/ FuzzSees(st, e)
  IN IF ~on \/ st.c.nocan = 1 THEN {}
     ELSE Rule({"C10"}, "big block with damaged metadata handed out", e.stg # 9)
     \cup (IF sure THEN Rule({"C10"}, "damage of big block metadata not detected", e.sig # 0) ELSE {})
     \cup Rule({"C10"}, "damage ends in another way than an abort", e.sig = 0 \/ Died(e))
ProbeSample(st, e) ==
  IF ~(Live(st, e.id) /\ st.blk[e.id].k = "s") THEN {}
  ELSE LET b == st.blk[e.id] inside == e.off >= b.o /\ e.off < b.o + b.cs
       IN IF inside THEN Rule({"C22", "C11"}, "write inside a sampled block taken for damage", e.sig = 0)
          ELSE IF Get(st.c, "unin", 0) = 1 THEN {}      \* pages of samples are not filled there
          ELSE Rule({"C22"}, "damage around a sampled block not detected", Died(e) /\ e.stg = 0)
(* reading a block; unw: the program has not written to it yet *)
ReadBlock(st, e) ==
  IF ~Live(st, e.id) THEN {}
  ELSE IF st.c.unin = 1 /\ st.blk[e.id].k = "s" /\ e.unw = 1 THEN Rule({"C35"}, "read of uninitialised memory not detected", e.sig = 6)
  ELSE Rule({"C35", "C11"}, "initialised memory taken for uninitialised", e.sig = 0)
(* touching memory *)
ProbeTouch(st, e) ==
  CASE e.tk = "z" -> Rule({"C02", "C14"}, "zero page accessible", e.sig = 11)
    [] e.tk = "g" -> (LET b == IF e.a \in DOMAIN st.blk THEN st.blk[e.a] ELSE [k |-> "?"] IN
                      IF b.k = "c" THEN Rule({"C14"}, "no guard page at the end of a zone", e.sig = 11)
                      ELSE IF b.k = "s" THEN Rule({"C14", "C22"}, "no guard page at a sampled block", e.sig = 11)
                      ELSE IF b.k = "b" /\ st.c.bg = 1 THEN Rule({"C14"}, "no guard page at a big block", e.sig = 11) ELSE {})
    [] e.tk = "b" -> (IF Live(st, e.a) /\ e.b < st.blk[e.a].cs THEN Rule({"C02", "C01"}, "live block not writable", e.sig = 0) ELSE {})
    [] OTHER -> {}
(* tagged pointers *)
ProbeTag(st, e) ==
  IF e.h \notin DOMAIN st.hnd \/ e.id \notin DOMAIN st.blk \/ st.blk[e.id].h # e.h \/ st.c.tags = 0 THEN {}
  ELSE LET b == st.blk[e.id] good == e.ptg = b.tg z == st.zon[b.r]
           dest == b.o + e.dl out == dest < 0 \/ dest >= st.c.zb
       IN IF e.dl # 0 THEN (IF e.how = "VT" /\ out THEN Rule({"C20"}, "pointer outside of the zone verifies", Died(e)) ELSE {})
          ELSE CASE e.how = "VT" -> (IF good THEN Rule({"C20"}, "pointer with the right tag fails verification", e.sig = 0)
                                     ELSE Rule({"C20"}, "pointer with a wrong tag verifies", Died(e) /\ e.stg = 0))
                 [] e.how = "UT" -> (IF good THEN Rule({"C20"}, "untagging does not give the pointer back", e.same = 1 /\ e.sig = 0)
                                     ELSE Rule({"C20"}, "untagging with a wrong tag gives the block", e.same # 1))
                 [] OTHER -> IF good /\ b.s = "L" THEN Rule({"C20", "C11"}, "free of a rightly tagged pointer fails", e.sig = 0)
                             ELSE IF e.ptg = 0 /\ b.s = "L" THEN {}
                             ELSE Rule({"C20", "C06"}, "free of a wrongly tagged pointer succeeds", e.sig # 0)

(* checked memory functions: fn 0 memcpy, 1 memmove, 2 memset *)
KnownZone(st, r) == r \in DOMAIN st.zon /\ st.known[st.zon[r].win] = r
OverZone(st, r, n) == r \in DOMAIN st.zon /\ n > st.zon[r].cs
InChunk(st, r, o, n) == LET cs == st.zon[r].cs IN n <= cs - (o % cs)
MemOp(st, e) ==
  LET c == st.c
      on == IF e.fn = 2 THEN c.mss = 1 ELSE c.mcs = 1
      dz == e.dr \in DOMAIN st.zon sz == e.fn # 2 /\ e.sr \in DOMAIN st.zon
      over == (dz /\ OverZone(st, e.dr, e.n)) \/ (sz /\ OverZone(st, e.sr, e.n))
      overKnown == (dz /\ KnownZone(st, e.dr) /\ OverZone(st, e.dr, e.n)) \/ (sz /\ KnownZone(st, e.sr) /\ OverZone(st, e.sr, e.n))
      inside == (dz => InChunk(st, e.dr, e.do, e.n)) /\ (sz => InChunk(st, e.sr, e.so, e.n))
      fits == e.n <= e.dl /\ (e.fn = 2 \/ e.n <= e.sl)
  IN (IF on /\ overKnown THEN Rule({"C24"}, "overflowing call not stopped", e.sig # 0 /\ e.stg = 1 /\ Died(e)) ELSE {})
  \cup (IF inside /\ fits THEN Rule({"C24", "C11"}, "in-bounds call stopped", e.sig = 0) ELSE {})
  \cup (IF e.sig = 0 /\ fits THEN Rule({"C24"}, "result of a memory function wrong", e.good = 1 /\ e.ret = 1) ELSE {})

-----------------------------------------------------------------------------
(* ---- one API call ---- *)
PropOf == [a |-> {"C02"}, c |-> {"C03"}, re |-> {"C04"}, ra |-> {"C04"}, sd |-> {"C05"}, sn |-> {"C05"}, sdz |-> {"C05"}, snz |-> {"C05"}]
FreeOf(R, e, perm, now) ==
  IF ~Live(R.s, e.id) THEN R
  ELSE LET q == IF now THEN Release(R, e.id, perm) ELSE Quarantine(R, e.id)
           b == R.s.blk[e.id]
       IN [q EXCEPT !.v = @ \cup FreeChecks(R.s, e, e.id)
              \cup (IF perm /\ Has(e, "ct") THEN Rule({"C08", "C23"}, "permanently freed block not wiped", e.ct \in {"p", "n", "g"}) ELSE {})]

CallOp(st, e, op) ==
  LET R == R0(st) IN
  CASE op = "a"  -> IF Get(e, "late", 0) = 1
                    THEN AllocChunk(R, [e EXCEPT !.ru = 0], Chunk(st.c, e.sz), e.h)
                    ELSE Alloc(R, e, e.h)
    [] op = "c"  -> Calloc(R, e)
    [] op \in {"re", "ra"} -> Realloc(R, e)
    [] op \in {"sd", "sn", "sdz", "snz"} -> StrDup(R, e)
    [] op = "tr" -> Traces(R, e)
    [] op = "trr" -> [R EXCEPT !.s = [@ EXCEPT !.pr.sa = -1]]
    [] op = "hp" -> PosixMemalign(R, e)
    [] op = "ha" -> AlignedAlloc(R, e)
    [] op = "hn" -> CppNew(R, e)
    [] op = "zn" -> ZoneNew(R, e)
    [] op \in {"za", "zt"} -> IF e.h \in DOMAIN st.hnd THEN Alloc(R, e, e.h) ELSE [R EXCEPT !.v = @ \cup Rule({"C12"}, "allocation from no zone", e.v = "n")]
    [] op = "zd" -> ZoneDestroy(R, e)
    [] op = "f"  -> FreeOf(R, e, FALSE, FALSE)
    [] op = "fs" -> FreeOf(R, e, FALSE, TRUE)
    [] op = "fz" -> FreeOf(R, e, FALSE, TRUE)
    [] op \in {"fp", "fzp"} -> FreeOf(R, e, TRUE, TRUE)
    [] op = "fl" -> FlushPending(R)
    [] op = "fn" -> [R EXCEPT !.v = @ \cup Rule({"C02", "C07"}, "NULL or zero page has a size", e.cs = 0)]
    [] op = "q"  -> IF Live(st, e.id) THEN [R EXCEPT !.v = @ \cup
                        (IF st.blk[e.id].k = "b" THEN Rule({"C02"}, "size query wrong", e.cp = st.big[st.blk[e.id].r].pg)
                         ELSE Rule({"C02"}, "size query wrong", e.cs = st.blk[e.id].cs))] ELSE R
    [] op = "cc" -> IF e.h \in DOMAIN st.hnd
                    THEN LET z == st.zon[st.hnd[e.h]] IN [R EXCEPT !.v = @ \cup Rule({"C12"}, "chunk count larger than the zone delivers", e.n <= z.cap - Cardinality(z.can))
                                                                          \cup Rule({"C12"}, "chunk count is zero", e.n > 0)] ELSE R
    [] op = "lkq" -> IF st.c.leak = 0 THEN R ELSE
                     LET cs == ChunksOut(st) IN [R EXCEPT !.v = @ \cup Rule({"C19"}, "leak count wrong", e.nk = PagesOut(st) + cs \div st.c.page /\ e.nb = cs % st.c.page)]
    [] op = "lkz" -> IF st.c.leak = 0 THEN R ELSE
                     [R EXCEPT !.v = @ \cup Rule({"C19"}, "leak count of a zone wrong", e.n = IF e.h \in DOMAIN st.hnd THEN st.zon[st.hnd[e.h]].af ELSE 0)]
    [] op = "mu" -> [R EXCEPT !.v = @ \cup Rule({"C19"}, "memory usage wrong", UsageOk(st, e.n))]
    [] op = "muz" -> [R EXCEPT !.v = @ \cup Rule({"C19"}, "memory usage of a zone wrong", IF e.h \in DOMAIN st.hnd THEN e.n = 4 ELSE e.n = 0)]
    [] op = "ch" -> ChurnZ(R, e, 1)
    [] op = "fill" -> FillZ(R, e, 1)
    [] op = "fg" -> FreeGrpZ(R, e, 1)
    [] op = "cpu" -> [R EXCEPT !.s = [@ EXCEPT !.cpu = e.n]]
    [] op = "wrp" -> [R EXCEPT !.s = [@ EXCEPT !.ptr.s = IF Live(st, e.tgt) THEN @ \cup {<<e.id, e.off, st.blk[e.tgt].r, st.blk[e.tgt].o + e.dl>>} ELSE @]]
    [] op \in {"pr", "up"} -> [R EXCEPT !.prot = {x[1] : x \in ChangedRegs(e)},
              !.v = @ \cup Rule({"C26"}, "protecting or unprotecting changes other memory than the root",
                               Cardinality(ChangedRegs(e)) = 1 /\ \A x \in ChangedRegs(e) : x[1] \in st.oth)
                      \cup Rule({"C26"}, "root not inaccessible while protected", op = "pr" => \A x \in ChangedRegs(e) : AllN(x[3]))
                      \cup Rule({"C26", "C14"}, "root not restored", op = "up" => \A x \in ChangedRegs(e) : Guarded(x[3]) /\ Len(x[3]) = 3 /\ x[3][2][2] = "w")]
    [] OTHER -> R        \* v vz nm wr: nothing changes

IsAlloc(op) == AllocLike(op)
(* windows of the address space and the zone created last in each *)
KnownAfter(st, s, e) ==
  LET nz == NzEv(e)
      gone == DOMAIN st.zon \ DOMAIN s.zon
      k0 == [w \in DOMAIN st.known |-> IF st.known[w] \in gone \/ \E r \in gone : st.zon[r].win = w THEN 0 ELSE st.known[w]]
      RECURSIVE F(_, _)
      F(k, i) == IF i > Len(nz) THEN k ELSE F((nz[i][4] :> nz[i][1]) @@ k, i + 1)
  IN F(k0, 1)

Consts == [zl |-> 1024, wf |-> 8, rmax |-> 16384, bigmax |-> 1048576, page |-> 4096, qw |-> 32]
StartOf(e) ==
  LET c == Consts @@ [zb |-> e.zpg * 4096] @@ [k \in DOMAIN e \ {"nz", "rg", "rel", "dn", "tv", "bad"} |-> e[k]]
      nz == NzEv(e)
      RECURSIVE F(_, _)
      F(k, i) == IF i > Len(nz) THEN k ELSE F((nz[i][4] :> nz[i][1]) @@ k, i + 1)
  IN [c |-> c, blk |-> EmptyF, zon |-> [r \in NzRids(e) |-> NewZone(c, NzOf(e, r), 0, 0)], big |-> EmptyF, qu |-> <<>>, bf |-> <<>>,
      hnd |-> EmptyF, smp |-> {}, aux |-> {}, first |-> NzRids(e), oth |-> {x[1] : x \in Rng(RegEv(e))} \ NzRids(e), up |-> TRUE, known |-> F(EmptyF, 1), pr |-> Pr0, cpu |-> 0, ptr |-> Ptr0]
StartRules(st, e) ==
       Rule({"C14"}, "zone not guarded", \A x \in Rng(RegEv(e)) : x[1] \in NzRids(e) => Guarded(x[3]))
  \cup Rule({"C14"}, "allocator structure not guarded", \A x \in Rng(RegEv(e)) : x[3] = <<>> \/ Guarded(x[3]) \/ AllN(x[3]))
  \cup Rule({"C18"}, "lock held after start", Get(e, "lk", 0) = 0)
  \cup Rule({"C01"}, "memory unmapped that is not the allocator's", Get(e, "wild", 0) = 0)

ShutRules(st, e) ==
       Rule({"C34"}, "memory still mapped after a shutdown that gives everything back", (st.c.dtor = 1 /\ e.op # "fi") =>
               (DOMAIN st.zon \cup st.aux \cup st.oth \cup UNION {{r} \cup st.big[r].md : r \in {x \in DOMAIN st.big : st.big[x].s # "X"}}) \subseteq GoneRegs(e)) \cup
       Rule({"C18"}, "lock still held after shutdown", Get(e, "lk", 0) = 0)
  \cup Rule({"C16"}, "big mappings left after shutdown", \A r \in DOMAIN st.big : st.big[r].s # "X" => ({r} \cup st.big[r].md) \subseteq GoneRegs(e))
  \cup Rule({"C15", "C01", "C34"}, "memory unmapped that is not the allocator's", Get(e, "wild", 0) = 0)

(* may the call end the process: a string too long for a private zone, or a refused request where that is configured *)
MayEnd(st, e) ==
  \/ e.sub \in {"sdz", "snz"} /\ e.args[1] \in DOMAIN st.hnd /\
     LET len == IF e.sub = "sdz" THEN e.args[3] ELSE Min(e.args[3], e.args[4]) IN len + 1 > st.zon[st.hnd[e.args[1]]].cs
  \/ st.c.aon = 1 /\ Has(e, "pg") /\
     IF e.h # 0 THEN e.h \in DOMAIN st.hnd /\ UsableFor(st, Chunk(st.c, e.sz), e.h) = {}
     ELSE e.ov = 0 /\ e.pg > st.c.bigmax

Eff(st, e) ==
  CASE e.op \in {"pf"} -> [s |-> st, v |-> ProbeFree(st, e)]
    [] e.op = "pc" -> [s |-> st, v |-> ProbeCorrupt(st, e)]
    [] e.op = "pm" -> [s |-> st, v |-> ProbeMeta(st, e)]
    [] e.op = "ps" -> [s |-> st, v |-> ProbeSample(st, e)]
    [] e.op = "ur" -> [s |-> st, v |-> ReadBlock(st, e)]
    [] e.op = "pt" -> [s |-> st, v |-> ProbeTouch(st, e)]
    [] e.op = "ptag" -> [s |-> st, v |-> ProbeTag(st, e)]
    [] e.op = "mem" -> [s |-> st, v |-> MemOp(st, e)]
    [] e.op = "try" -> (IF e.sig = 0 THEN [s |-> st, v |-> Finish(st, CallOp(st, e, e.sub), e).v]
                        ELSE [s |-> st, v |-> Rule(IF st.c.aon = 1 THEN {"C11", "C33"} ELSE {"C11"}, "valid call ended the process", Died(e) /\ MayEnd(st, e))])
    [] e.op = "fi" -> (IF e.sig = 0 THEN IF e.sub = "x" THEN [s |-> st, v |-> ShutRules(st, e)] ELSE LET r == Finish(st, CallOp(st, e @@ [mayfail |-> 1], e.sub), e)
                                         IN [s |-> st, v |-> {<<"C25", x[2]>> : x \in r.v} \cup r.v]
                       ELSE [s |-> st, v |-> Rule({"C25"}, "refused system request ends in a crash", Died(e))])
    [] e.op = "init" /\ st.zon = EmptyF -> LET s == StartOf(e @@ st.c) IN [s |-> s, v |-> StartRules(s, e)]
    [] e.op = "end" -> [s |-> st, v |-> {}]
    [] e.op = "x" -> [s |-> [st EXCEPT !.up = FALSE], v |-> ShutRules(st, e) \cup (IF Has(e, "pf") THEN ProfFile(st, e) ELSE {})]
    [] OTHER -> LET f == Finish(st, CallOp(st, e, e.op), e)
                    s0 == [f.s EXCEPT !.known = KnownAfter(st, f.s, e)]
                    s1 == IF st.c.prof = 1 THEN [s0 EXCEPT !.pr = ProfAfter(s0, e)] ELSE s0
                    temp == {i \in DOMAIN s1.blk : i >= 600000 /\ s1.blk[i].s # "L"}
                IN [s |-> IF temp = {} THEN s1 ELSE [s1 EXCEPT !.blk = Drop(@, temp)],
                    v |-> IF Has(e, "via") THEN f.v \cup {<<"C21", x[2]>> : x \in f.v} ELSE f.v]
=============================================================================
