/* Runs small multithreaded programs against the allocator under a controlled scheduler and records histories.
 *
 * conc PROGRAM OUT FIRST_SEED SCHEDULES
 *
 * One thread runs at a time; the accesses of the allocator to shared memory, its atomic operations, lock calls and
 * system calls are the points at which another one may continue. The set-up part runs once, every schedule in a fork. */
#include "conc.h"
#include "api.h"
#include <time.h>
#include <fcntl.h>
#include <sched.h>
#include <semaphore.h>
#define MAXT 5
extern long cf_traces(int);
#define NSLOT 400
#define NBOX 8
#define NZ 8
#define BIGSZ CF.smallmax

/* ---------------------------------------------------------------- scheduler */
enum { S_RUN, S_LOCK, S_SPIN, S_BOX, S_DONE };
static int par, cur, nthr, state[MAXT], in_api[MAXT];
static void *waits[MAXT];
static sem_t sem[MAXT];
static __thread int me;
static uint64_t rs;
static long steps, limit = 3000000, sinceprog;
static int strat, pct_d;
static long pct_at[8], est;
static int prio[MAXT], lowprio;
static int acc_odds;
/* strategy 2 preempts at chosen occurrences of chosen code sites, so that rarely executed code gets its share */
#define NSITE 4096
typedef struct { void *pc; long n; } site_t;
static site_t *sh_site, lsite[NSITE];
static struct { void *pc; long k; } trig[6];
static int ntrig;
static long site_hit(void *pc) {
    uint32_t i = ((uintptr_t) pc * 0x9E3779B97F4A7C15ULL) >> 52;
    for(int k = 0; k < 64; k++, i = (i + 1) & (NSITE - 1)) {
        if(lsite[i].pc == NULL) lsite[i].pc = pc;
        if(lsite[i].pc == pc) return ++lsite[i].n;
    }
    return 0;
}
static void site_merge(void) {
    for(int i = 0; i < NSITE; i++) if(lsite[i].pc) {
        uint32_t j = ((uintptr_t) lsite[i].pc * 0x9E3779B97F4A7C15ULL) >> 52;
        for(int k = 0; k < 64; k++, j = (j + 1) & (NSITE - 1)) {
            if(sh_site[j].pc == NULL) sh_site[j].pc = lsite[i].pc;
            if(sh_site[j].pc == lsite[i].pc) { if(lsite[i].n > sh_site[j].n) sh_site[j].n = lsite[i].n; break; }
        }
    }
}
static void fail(const char *what, const char *detail);
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL >> 16; }
static char *shbuf;          /* shared with the parent: result of this schedule */
#define SHN (1 << 20)
static long *sh_steps;
static int sh_merge;

static int pick(int notme) {
    int c[MAXT], n = 0;
    for(int t = 1; t <= nthr; t++) if(state[t] == S_RUN && !(notme && t == me)) c[n++] = t;
    if(!n) {
        for(int t = 1; t <= nthr; t++) if((state[t] == S_SPIN || state[t] == S_BOX) && !(notme && t == me)) c[n++] = t;
        if(!n) return 0;
        int t = c[rnd() % n];
        state[t] = S_RUN;
        return t;
    }
    if(strat >= 1) {
        int b = c[0];
        for(int i = 1; i < n; i++) if(prio[c[i]] > prio[b]) b = c[i];
        return b;
    }
    return c[rnd() % n];
}
static void run(int t) {
    if(t == me) return;
    cur = t;
    sem_post(&sem[t]);
    while(sem_wait(&sem[me])) ;
}
static void blocked(const char *why) {
    int t = pick(1);
    if(t == 0) {
        if(state[me] == S_SPIN || state[me] == S_BOX) { state[me] = S_RUN; if(++sinceprog > 20000) fail("deadlock", why); return; }
        fail("deadlock", why);
    }
    run(t);
}
static void point_at(int kind, void *pc) {
    if(!par || !me || !in_api[me]) return;
    steps++;
    if(steps > limit) fail("hang", "no end within the step limit");
    long h = site_hit(pc);
    if(strat == 2) {
        int hit = 0;
        for(int i = 0; i < ntrig; i++) if(trig[i].pc == pc && trig[i].k == h) hit = 1;
        if(hit) { prio[me] = --lowprio; }
        int b = me;
        for(int t = 1; t <= nthr; t++) if(state[t] == S_RUN && prio[t] > prio[b]) b = t;
        if(b != me) run(b);
        return;
    }
    if(strat == 1) {
        for(int i = 0; i < pct_d; i++) if(steps == pct_at[i]) prio[me] = --lowprio;
        int t = pick(0);
        if(t && t != me) run(t);
    } else if(rnd() % (kind ? 2 : acc_odds) == 0) {
        int t = pick(0);
        if(t && t != me) run(t);
    }
}

#define point(k) point_at(k, __builtin_return_address(0))
/* ---------------------------------------------------------------- locks */
#define MAXL 64
static struct { void *a; int owner, depth; } lk[MAXL];
static int nlk;
static int lock_id(void *a) {
    for(int i = 0; i < nlk; i++) if(lk[i].a == a) return i;
    if(nlk == MAXL) fail("limit", "too many locks");
    lk[nlk].a = a; lk[nlk].owner = -1;
    return nlk++;
}
/* locks taken and released in the current call of a thread */
static char lseq[MAXT][512];
static int lsn[MAXT];
static void lev(char c, int l) { if(lsn[me] < 500) lsn[me] += sprintf(lseq[me] + lsn[me], "%c%d", c, l); }
static int held(int t) { for(int i = 0; i < nlk; i++) if(lk[i].owner == t) return i + 1; return 0; }

/* ---------------------------------------------------------------- happens before */
typedef struct { uint32_t c[MAXT]; } vc_t;
static vc_t vc[MAXT], lvc[MAXL], bvc[NBOX], forkvc;
static void vjoin(vc_t *a, const vc_t *b) { for(int i = 0; i < MAXT; i++) if(b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
/* synchronisation so far: thread, take/give, object */
#define SYN 6000
static struct { uint8_t t, give; uint16_t o; } syn[SYN];
static int nsyn;
static void slog(int give, int o) { if(nsyn < SYN) { syn[nsyn].t = me; syn[nsyn].give = give; syn[nsyn++].o = o; } }
#define HBN (1 << 16)
typedef struct { uintptr_t g; uint32_t wc, wi, rc[MAXT], ri[MAXT]; void *wpc, *rpc[MAXT]; uint8_t wt, wm, rm[MAXT]; } hb_t;
static hb_t *hb;
static int hbn;
static uint32_t hbl[HBN];
static struct { void *a, *b; uintptr_t addr; int kind, ta, tb, ia, ib; } races[64];
static int nraces;
static int hb_on;
static void race(void *a, void *b, uintptr_t addr, int kind, int ta, int ia) {
    for(int i = 0; i < nraces; i++) if((races[i].a == a && races[i].b == b) || (races[i].a == b && races[i].b == a)) return;
    if(nraces < 64) { races[nraces].a = a; races[nraces].b = b; races[nraces].addr = addr; races[nraces].ta = ta; races[nraces].tb = me; races[nraces].ia = ia; races[nraces].ib = nsyn; races[nraces++].kind = kind; }
}
static void hb_one(uintptr_t g, uint8_t m, int w, void *pc) {
    uint32_t i = (g * 0x9E3779B97F4A7C15ULL) >> 48;
    for(int k = 0; ; k++, i = (i + 1) & (HBN - 1)) {
        if(k > 4000) return;
        if(hb[i].g == g) break;
        if(hb[i].g == 0) { if(hbn > HBN - 100) return; hbl[hbn++] = i; hb[i].g = g; break; }
    }
    hb_t *h = &hb[i];
    vc_t *v = &vc[me];
    if(h->wpc && h->wt != me && (h->wm & m) && h->wc > v->c[h->wt]) race(h->wpc, pc, g << 3, w ? 2 : 1, h->wt, h->wi);
    if(w) {
        for(int t = 0; t < MAXT; t++) if(t != me && h->rpc[t] && (h->rm[t] & m) && h->rc[t] > v->c[t]) race(h->rpc[t], pc, g << 3, 1, t, h->ri[t]);
        if(h->wt == me && h->wc == v->c[me]) h->wm |= m; else h->wm = m;
        h->wt = me; h->wc = v->c[me]; h->wpc = pc; h->wi = nsyn;
    } else {
        if(h->rc[me] == v->c[me]) h->rm[me] |= m; else h->rm[me] = m;
        h->rc[me] = v->c[me]; h->rpc[me] = pc; h->ri[me] = nsyn;
    }
}
static void hb_acc(uintptr_t a, unsigned long n, int w, void *pc) {
    if(!hb_on || !me) return;
    if(n > 4096) n = 4096;
    while(n) {
        int o = a & 7, k = 8 - o < n ? 8 - o : n;
        hb_one(a >> 3, ((1 << k) - 1) << o, w, pc);
        a += k; n -= k;
    }
}
static void hb_clear(uintptr_t a, size_t len) {
    if(!hb_on) return;
    for(int k = 0; k < hbn; k++) { int i = hbl[k]; if((hb[i].g << 3) >= a && (hb[i].g << 3) < a + len) { uintptr_t g = hb[i].g; memset(&hb[i], 0, sizeof(hb_t)); hb[i].g = g; } }
}
static void got(int l) { slog(0, l); vjoin(&vc[me], &lvc[l]); }
static void gave(int l) { slog(1, l); vjoin(&lvc[l], &vc[me]); vc[me].c[me]++; }

/* ---------------------------------------------------------------- hooks of the instrumented code */
void on_access(void *a, unsigned long n, int w, void *pc) {
    if(!par || !me || !in_api[me]) return;
    point_at(0, pc);
    hb_acc((uintptr_t) a, n, w, pc);
}
int vs_mutex_init(void *m, void *at) { int l = lock_id(m); lk[l].owner = -1; *(volatile char *) m = 0; return 0; }
int vs_mutex_destroy(void *m) { return 0; }
int vs_mutex_lock(void *m) {
    int l = lock_id(m);
    point(1);
    *(volatile char *) m = *(volatile char *) m;      /* faults if the lock is not accessible */
    while(lk[l].owner >= 0) {
        if(lk[l].owner == me || !par) fail("deadlock", "a thread locks again what it holds");
        state[me] = S_LOCK; waits[me] = m;
        blocked("every thread waits for a lock");
    }
    lk[l].owner = me;
    got(l); lev('L', l);
    return 0;
}
int vs_mutex_trylock(void *m) {
    int l = lock_id(m);
    point(1);
    *(volatile char *) m = *(volatile char *) m;
    if(lk[l].owner >= 0) return EBUSY;
    lk[l].owner = me; got(l); lev('L', l);
    return 0;
}
int vs_mutex_unlock(void *m) {
    int l = lock_id(m);
    *(volatile char *) m = *(volatile char *) m;
    if(lk[l].owner == me) { lk[l].owner = -1; gave(l); lev('U', l); }
    else if(lk[l].owner >= 0) fail("lock", "a lock is released by a thread that does not hold it");
    else lev('X', l);
    for(int t = 1; t <= nthr; t++) if(state[t] == S_LOCK && waits[t] == m) state[t] = S_RUN;
    point(1);
    return 0;
}
void at_before(void *a) { if(me && in_api[me]) point(1); }
void at_load(void *a, uint64_t v) { got(lock_id(a)); }
static void wake(void) { sinceprog = 0; for(int t = 1; t <= nthr; t++) if(state[t] == S_SPIN) state[t] = S_RUN; }
void at_store(void *a, uint64_t v) {
    int l = lock_id(a);
    if(v == 0) {
        if(lk[l].owner >= 0 && lk[l].owner != me && par) fail("lock", "a lock is released by a thread that does not hold it");
        lev(lk[l].owner == me ? 'U' : 'X', l);
        lk[l].owner = -1;
    }
    gave(l); wake();
}
void at_fail(void *a) {
    if(!par || !me) fail("deadlock", "a lock is taken again");
    if(lk[lock_id(a)].owner == me) fail("deadlock", "a thread locks again what it holds");
    state[me] = S_SPIN;
    if(++sinceprog > 20000) fail("deadlock", "every thread spins");
    blocked("every thread waits for a lock");
}
void at_xchg(void *a, uint64_t old, uint64_t v) {
    if(old && old == v) { at_fail(a); return; }
    int l = lock_id(a);
    if(v) { lk[l].owner = me; got(l); lev('L', l); sinceprog = 0; }
    else { lev('U', l); lk[l].owner = -1; gave(l); wake(); }
}
void at_rmw(void *a) { int l = lock_id(a); got(l); gave(l); }
/* what a big block got when its mapping was made: it keeps that size when it is used again */
static struct { uintptr_t s; long bytes; } bigm[2000];
static int nbigm;
static void bigm_clear(uintptr_t a, size_t n) { for(int i = 0; i < nbigm; i++) if(bigm[i].s >= a && bigm[i].s < a + n) bigm[i--] = bigm[--nbigm]; }
static long bigm_of(uintptr_t p, size_t n) {
    for(int i = 0; i < nbigm; i++) if(bigm[i].s == p) return bigm[i].bytes;
    long b = (n + PG - 1) / PG * PG;
    if(nbigm < 2000) { bigm[nbigm].s = p; bigm[nbigm++].bytes = b; }
    return b;
}
void *vs_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { point(1); void *r = mmap(a, n, p, f, fd, o); if(r != MAP_FAILED) { hb_clear((uintptr_t) r, n); bigm_clear((uintptr_t) r, n); } return r; }
int vs_munmap(void *a, size_t n) { point(1); bigm_clear((uintptr_t) a, n); return munmap(a, n); }
int vs_mprotect(void *a, size_t n, int p) { point(1); return mprotect(a, n, p); }
int vs_madvise(void *a, size_t n, int p) { point(1); return madvise(a, n, p); }

/* ---------------------------------------------------------------- program */
typedef struct { int t; char op[8]; int a, b; long n; } op_t;
static op_t prog[20000];
static int nprog;
typedef struct { void *p; size_t n; int blk, pat, sampled; int zone; void *tp; } slot_t;
static slot_t slot[NSLOT];
static slot_t box[NBOX];
static int boxfull[NBOX];
static zh_t *zone[NZ];
static long zcap[NZ];
static size_t zsz[NZ];
static int zid[NZ], nzid;
static long zcaps[64];

/* ---------------------------------------------------------------- history */
typedef struct { int t, inv, ret; const char *op; int a, b; long r; } ev_t;
static ev_t evs[20000];
static int nev, seqno;
typedef struct { uintptr_t s; size_t n; char kind; int zone; long bytes; } blk_t;
static blk_t blks[20000];
static int nblk;
static int patc, ev0;
static char live0[20000];
static int blk_of(void *p, size_t n, char kind, int z) {
    long by = kind == 'b' ? bigm_of((uintptr_t) p, n) : 0;
    for(int i = 0; i < nblk; i++) if(blks[i].s == (uintptr_t) p && blks[i].n == n && blks[i].kind == kind && blks[i].zone == z && blks[i].bytes == by) return i + 1;
    blks[nblk] = (blk_t) {(uintptr_t) p, n, kind, z, by};
    return ++nblk;
}
static ev_t *ev_begin(const char *op, int a) {
    if(nev >= 20000) fail("limit", "too many events");
    ev_t *e = &evs[nev++];
    *e = (ev_t) {me, ++seqno, 0, op, a, 0, 0};
    return e;
}
static void ev_end(ev_t *e, int b, long r) { e->b = b; e->r = r; e->ret = ++seqno; }

static long outn;
static void out(const char *f, ...) { va_list ap; va_start(ap, f); if(outn < SHN - 4000) outn += vsnprintf(shbuf + outn, SHN - outn, f, ap); va_end(ap); }
static void dump(const char *crash, const char *detail) {
    outn = 0;
    out("{\"crash\":\"%s\",\"detail\":\"%s\",\"nt\":%d,\"q\":%ld,\"ev\":[", crash, detail, nthr, CF.quarantine);
    for(int i = ev0; i < nev; i++) out("%s[%d,%d,%d,\"%s\",%d,%d,%ld]", i > ev0 ? "," : "", evs[i].t, evs[i].inv, evs[i].ret, evs[i].op, evs[i].a, evs[i].b, evs[i].r);
    out("],\"blk\":[");
    for(int i = 0; i < nblk; i++) out("%s[\"%c\",%d,%ld,%ld]", i ? "," : "", blks[i].kind, blks[i].zone, blks[i].bytes, (long) blks[i].n);
    out("],\"live0\":[");
    int fl = 1;
    for(int i = 0; i < nblk; i++) if(live0[i] == 1) { out("%s%d", fl ? "" : ",", i + 1); fl = 0; }
    out("],\"perm0\":[");
    fl = 1;
    for(int i = 0; i < nblk; i++) if(live0[i] == 2) { out("%s%d", fl ? "" : ",", i + 1); fl = 0; }
    out("],\"ov\":[");
    int first = 1;
    for(int i = 0; i < nblk; i++) for(int j = i + 1; j < nblk; j++)
        if(blks[i].s < blks[j].s + blks[j].n && blks[j].s < blks[i].s + blks[i].n) { out("%s[%d,%d]", first ? "" : ",", i + 1, j + 1); first = 0; }
    out("],\"zc\":[");
    for(int i = 0; i < nzid; i++) out("%s%ld", i ? "," : "", zcaps[i]);
    out("],\"race\":[");
    for(int i = 0; i < nraces; i++) {
        out("%s[\"%p\",\"%p\",\"%lx\",%d,%d,%d,%d,%d]", i ? "," : "", races[i].a, races[i].b, races[i].addr, races[i].kind, races[i].ta, races[i].ia, races[i].tb, races[i].ib);
    }
    out("],\"syn\":[");
    int ns = 0;
    for(int i = 0; i < nraces; i++) if(races[i].ib > ns) ns = races[i].ib;
    if(ns < 4000) for(int i = 0; i < ns; i++) out("%s[%d,%d,%d]", i ? "," : "", syn[i].t, syn[i].give, syn[i].o);
    out("]}");
    shbuf[outn] = 0;
}
static void lockdump(const char *op, int t);
static void fail(const char *what, const char *detail) {
    dump(what, detail);
    _exit(40);
}
static void on_sig(int sig, siginfo_t *si, void *u) {
    static char d[100];
    sprintf(d, "signal %d in thread %d", sig, me);
    dump(sig == SIGABRT ? "abort" : sig == SIGALRM ? "hang" : "fault", d);
    _exit(40);
}

/* lock programs seen: "op:L0U0.." in shared memory, read by the parent */
static char *shlock;
#define SHL (1 << 16)
static void note_locks(const char *op) {
    char b[600];
    int n = sprintf(b, "%s:%s\n", op, lseq[me]);
    if(!strstr(shlock, b)) { size_t k = strlen(shlock); if(k + n < SHL - 1) strcpy(shlock + k, b); }
}

static uint8_t pbyte(int pat, size_t i) { return (uint8_t) (pat * 37 + i * 13 + (i >> 8) * 7 + 1); }
#define EACHB(i, n) for(size_t i = 0; i < (n); i += (i < 64 || i + 64 >= (n)) ? 1 : (i + 509 + 64 < (n) ? 509 : (n) - 64 - i))
static void fill(slot_t *s) { uint8_t *p = s->p; EACHB(i, s->n) p[i] = pbyte(s->pat, i); }
static int good(slot_t *s, size_t n) { uint8_t *p = s->p; EACHB(i, n) if(p[i] != pbyte(s->pat, i)) return 0; return 1; }
static char kind_of(void *p, size_t n) {
    if(n > BIGSZ) return 'b';
    if(CF.sanity) { reg_t *r = reg_find((uintptr_t) p); if(r && r->np == 3) return 's'; }
    return 'c';
}
static void enter(const char *op) { in_api[me] = 1; lsn[me] = 0; lseq[me][0] = 0; point(1); }
static int keep_lock;
static void leave(const char *op) {
    point(1);
    in_api[me] = 0;
    note_locks(op);
    if(held(me) && !keep_lock) fail("lock held", op);
}
#define CALL(o, x) do { enter(o); x; leave(o); } while(0)
static void have(slot_t *s, void *p, size_t n, int z, int b) { s->p = p; s->n = n; s->zone = z; s->pat = ++patc; s->blk = b; fill(s); }
static void drop(slot_t *s) { memset(s, 0, sizeof *s); }
#define NEED(s) if(!(s)->p) return
#define CHK(s) if(!good(s, (s)->n)) fail("content", "a live block was overwritten")
static void do_op0(op_t *o) {
    slot_t *s = &slot[o->a % NSLOT];
    void *p = NULL;
    ev_t *e;
#define IS(x) (!strcmp(o->op, x))
    if(IS("A") || IS("CA") || IS("SD")) {
        if(s->p) return;
        size_t n = o->n;
        e = ev_begin("al", 0);
        if(IS("A")) CALL("A", p = iso_alloc(n));
        else if(IS("CA")) CALL("CA", p = iso_calloc(1, n));
        else { char t[300]; memset(t, 'x', 290); if(n > 290) n = 290; t[n - 1] = 0; CALL("SD", p = iso_strdup(t)); if(p && strcmp(p, t)) fail("content", "strdup"); }
        int b = p ? blk_of(p, n, kind_of(p, n), 0) : 0;
        ev_end(e, b, 0);
        if(IS("CA") && p) for(size_t i = 0; i < n; i++) if(((char *) p)[i]) fail("content", "calloc memory is not zero");
        if(p) have(s, p, n, 0, b);
    } else if(IS("FR") || IS("FP") || IS("FS")) {
        NEED(s); CHK(s);
        const char *op = IS("FR") ? "fr" : IS("FP") ? "fp" : "fs";
        slot_t c = *s; drop(s);
        e = ev_begin(op, c.blk);
        if(IS("FR")) CALL("FR", iso_free(c.p)); else if(IS("FP")) CALL("FP", iso_free_permanently(c.p)); else CALL("FS", iso_free_size(c.p, c.n));
        ev_end(e, 0, 0);
    } else if(IS("RE")) {
        NEED(s); CHK(s);
        slot_t c = *s; drop(s);
        size_t n = o->n, m = n < c.n ? n : c.n;
        e = ev_begin("re", c.blk);
        CALL("RE", p = iso_realloc(c.p, n));
        int b = p ? blk_of(p, n, kind_of(p, n), 0) : 0;
        ev_end(e, b, 0);
        if(p) {
                        EACHB(i, c.n) if(i < m && ((uint8_t *) p)[i] != pbyte(c.pat, i)) fail("content", "realloc lost content");
            have(s, p, n, 0, b);
        } else *s = c;
    } else if(IS("FL")) { e = ev_begin("fl", 0); CALL("FL", iso_flush_caches()); ev_end(e, 0, 0); }
    else if(IS("LK")) { long r; e = ev_begin("lk", 0); CALL("LK", r = iso_alloc_detect_leaks()); ev_end(e, 0, r); }
    else if(IS("MU")) { long r; CALL("MU", r = iso_alloc_mem_usage()); (void) r; }
    else if(IS("VE")) { CALL("VE", iso_verify_zones()); }
    else if(IS("CS")) { NEED(s); long r; e = ev_begin("cs", s->blk); CALL("CS", r = iso_chunksz(s->p)); ev_end(e, 0, r); if(r < (long) s->n) fail("size", "iso_chunksz is less than requested"); }
    else if(IS("ZN")) {
        int z = o->a; if(zone[z]) return;
        zh_t *h; CALL("ZN", h = iso_alloc_new_zone(o->n));
        if(!h) fail("zone", "no zone");
        zone[z] = h; zsz[z] = o->n;
        long c; CALL("CC", c = iso_zone_chunk_count(h));
        zid[z] = ++nzid; zcaps[nzid - 1] = c;
    } else if(IS("ZA")) {
        s = &slot[o->b % NSLOT]; int z = o->a; if(!zone[z] || s->p) return;
        e = ev_begin("za", zid[z]);
        CALL("ZA", p = iso_alloc_from_zone(zone[z]));
        int b = p ? blk_of(p, zsz[z], 'c', zid[z]) : 0;
        ev_end(e, b, 0);
        if(p) have(s, p, zsz[z], zid[z], b);
    } else if(IS("ZF") || IS("ZFP")) {
        s = &slot[o->b % NSLOT]; int z = o->a; NEED(s); CHK(s);
        if(!zone[z]) return;
        slot_t c = *s; drop(s);
        e = ev_begin(IS("ZF") ? "fs" : "fp", c.blk);
        if(IS("ZF")) CALL("ZF", iso_free_from_zone(c.p, zone[z])); else CALL("ZFP", iso_free_from_zone_permanently(c.p, zone[z]));
        ev_end(e, 0, 0);
    } else if(IS("ZT")) {
        /* by its tagged address; slot.tp keeps it */
        s = &slot[o->b % NSLOT]; int z = o->a; if(!zone[z] || s->p || !CF.tags) return;
        e = ev_begin("za", zid[z]);
        CALL("ZT", p = iso_alloc_from_zone_tagged(zone[z]));
        void *tp = p; p = (void *) ((uintptr_t) p & 0xffffffffffffffUL);
        int b = p ? blk_of(p, zsz[z], 'c', zid[z]) : 0;
        ev_end(e, b, 0);
        if(p) { have(s, p, zsz[z], zid[z], b); s->tp = tp; }
    } else if(IS("ZX")) {
        /* the tag of a live block verifies, can be taken off and put on again */
        s = &slot[o->b % NSLOT]; int z = o->a; NEED(s); if(!zone[z] || !s->tp || s->zone != zid[z]) return;
        void *q;
        e = ev_begin("tg", s->blk);
        switch(o->n % 4) {
        case 0: CALL("ZX", iso_alloc_verify_ptr_tag(s->tp, zone[z])); q = s->tp; break;
        case 1: CALL("ZX", q = iso_alloc_tag_ptr(s->p, zone[z])); break;
        case 2: CALL("ZX", q = iso_alloc_untag_ptr(s->tp, zone[z])); q = q == s->p ? s->tp : NULL; break;
        default: { uint8_t g; CALL("ZX", g = iso_alloc_get_mem_tag(s->p, zone[z])); q = (void *) ((uintptr_t) s->p | (uintptr_t) g << 56); }
        }
        ev_end(e, 0, q == s->tp);
    } else if(IS("ZFT")) {
        s = &slot[o->b % NSLOT]; int z = o->a; NEED(s); CHK(s);
        if(!zone[z] || !s->tp || s->zone != zid[z]) return;
        slot_t c = *s; drop(s);
        e = ev_begin("fs", c.blk);
        CALL("ZFT", iso_free_from_zone(c.tp, zone[z]));
        ev_end(e, 0, 0);
    } else if(IS("ZD")) {
        int z = o->a; if(!zone[z]) return;
        for(int i = 0; i < NSLOT; i++) if(slot[i].p && slot[i].zone == zid[z]) { CHK(&slot[i]); drop(&slot[i]); }
        zh_t *h = zone[z]; zone[z] = NULL;
        e = ev_begin("zd", zid[z]); CALL("ZD", iso_alloc_destroy_zone(h)); ev_end(e, 0, 0);
    } else if(IS("ZV")) { if(zone[o->a]) CALL("ZV", iso_verify_zone(zone[o->a])); }
    else if(IS("ZLK")) { if(!zone[o->a]) return; long r; e = ev_begin("zlk", zid[o->a]); CALL("ZLK", r = iso_alloc_detect_zone_leaks(zone[o->a])); ev_end(e, 0, r); }
    else if(IS("ZMU")) { if(zone[o->a]) { long r; CALL("ZMU", r = iso_alloc_zone_mem_usage(zone[o->a])); (void) r; } }
    else if(IS("TQ")) { long r; if(!CF.profiler) return; e = ev_begin("tq", 0); CALL("TQ", r = cf_traces(0)); ev_end(e, 0, r); }
    else if(IS("TX")) { long r; if(!CF.profiler) return; CALL("TX", r = cf_traces(1)); (void) r; }
    else if(IS("PR")) { e = ev_begin("pr", 0); keep_lock = 1; CALL("PR", iso_alloc_protect_root()); ev_end(e, 0, 0); }
    else if(IS("UP")) { e = ev_begin("up", 0); CALL("UP", iso_alloc_unprotect_root()); keep_lock = 0; ev_end(e, 0, 0); if(held(me)) fail("lock held", "UP"); }
    else if(IS("PUT")) { NEED(s); int k = o->b % NBOX; if(boxfull[k]) return; box[k] = *s; drop(s); boxfull[k] = 1; slog(1, 100 + k); vjoin(&bvc[k], &vc[me]); vc[me].c[me]++; for(int t = 1; t <= nthr; t++) if(state[t] == S_BOX) state[t] = S_RUN; }
    else if(IS("GET")) {
        int k = o->b % NBOX; if(s->p) return;
        for(int i = 0; i < 40 && !boxfull[k] && par; i++) { state[me] = S_BOX; int t = pick(1); if(!t) { state[me] = S_RUN; break; } run(t); state[me] = S_RUN; }
        if(boxfull[k]) { boxfull[k] = 0; *s = box[k]; slog(0, 100 + k); vjoin(&vc[me], &bvc[k]); }
    } else if(IS("LOOP")) { for(int i = 0; i < o->a; i++) { p = iso_alloc(o->b); iso_free_size(p, o->b); } }
    else if(IS("Y")) { if(par) { in_api[me] = 1; point(1); in_api[me] = 0; } }
    else if(IS("INIT")) { CALL("INIT", iso_alloc_initialize()); }
    else fail("script", o->op);
}
/* frames of this program above every call: the profiler looks at eight return addresses */
static __attribute__((noinline)) void deep(int n, op_t *o) {
    if(n) deep(n - 1, o); else do_op0(o);
    __asm__ volatile("" ::: "memory");
}
static void do_op(op_t *o) { deep(12, o); }
static void *thread(void *arg) {
    me = (int) (intptr_t) arg;
    while(sem_wait(&sem[me])) ;
    for(int i = 0; i < nprog; i++) if(prog[i].t == me) do_op(&prog[i]);
    if(held(me)) fail("lock held", "at the end of a thread");
    state[me] = S_DONE;
    for(int t = 1; t <= nthr; t++) if(state[t] == S_BOX) state[t] = S_RUN;
    int t = pick(0);
    if(t) { cur = t; sem_post(&sem[t]); }
    else {
        for(int i = 1; i <= nthr; i++) if(state[i] != S_DONE) fail("deadlock", "threads remain blocked");
        sem_post(&sem[0]);
    }
    return NULL;
}

static void child(uint64_t seed) {
    struct sigaction sa = {.sa_sigaction = on_sig, .sa_flags = SA_SIGINFO};
    stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
    sigaltstack(&ss, NULL);
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGALRM, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
    alarm(30);
    rs = seed * 0x9E3779B97F4A7C15ULL + 1234567; for(int i = 0; i < 8; i++) rnd();
    rnd_state ^= seed * 0xD1342543DE82EF95ULL; if(!rnd_state) rnd_state = 1;
    int nk = 0;
    for(int i = 0; i < NSITE; i++) if(sh_site[i].pc) nk++;
    strat = seed % 8 == 0 ? 0 : seed % 8 == 1 || !nk ? 1 : 2;
    if(strat == 2) {
        ntrig = 1 + rnd() % 4;
        for(int i = 0; i < ntrig; i++) {
            int r = rnd() % nk;
            for(int j = 0; j < NSITE; j++) if(sh_site[j].pc && r-- == 0) { trig[i].pc = sh_site[j].pc; long m = sh_site[j].n; if(m > 8 && rnd() % 3) m = 8; trig[i].k = 1 + rnd() % m; break; }
        }
    }
    hb_on = 1; nsyn = 0;
    acc_odds = seed % 2 ? 40 : 400;
    if(strat == 0 && seed % 9 == 0) acc_odds = 1 << 30;
    est = *sh_steps > 200 ? *sh_steps : 20000;
    if(strat) {
        pct_d = 1 + rnd() % 5;
        for(int i = 0; i < pct_d; i++) pct_at[i] = 1 + rnd() % est;
        for(int t = 1; t <= nthr; t++) prio[t] = 1000 + rnd() % 1000;
    }
    pthread_t th[MAXT];
    for(int t = 1; t <= nthr; t++) { sem_init(&sem[t], 0, 0); state[t] = S_RUN; vc[t] = vc[0]; vc[t].c[t] = 1; }
    slog(1, 200); vc[0].c[0]++;
    for(int t = 1; t <= nthr; t++) { syn[nsyn].t = t; syn[nsyn].give = 0; syn[nsyn++].o = 200; }
    sem_init(&sem[0], 0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 18);
    for(int t = 1; t <= nthr; t++) if(pthread_create(&th[t], &at, thread, (void *) (intptr_t) t)) _exit(41);
    par = 1;
    int t = pick(0);
    cur = t; sem_post(&sem[t]);
    while(sem_wait(&sem[0])) ;
    par = 0;
    *sh_steps = steps;
    if(sh_merge) site_merge();
    for(int k = 0; k < NBOX; k++) if(boxfull[k]) { for(int i = NSLOT - 1; i >= 0; i--) if(!slot[i].p) { slot[i] = box[k]; boxfull[k] = 0; break; } }
    for(int i = 0; i < NSLOT; i++) if(slot[i].p && !good(&slot[i], slot[i].n)) fail("content", "a live block was overwritten");
    /* final part: everything is counted, verified and given back */
    op_t o = {0, "LK"}; do_op(&o);
    strcpy(o.op, "VE"); do_op(&o);
    for(int i = 0; i < nprog; i++) if(prog[i].t == 9) do_op(&prog[i]);
    for(int i = 0; i < NSLOT; i++) if(slot[i].p) {
        int z = -1; for(int k = 0; k < NZ; k++) if(zone[k] && slot[i].zone == zid[k]) z = k;
        if(z >= 0 && i % 2) { o = (op_t) {0, "ZF", z, i}; do_op(&o); } else { o = (op_t) {0, "FR", i}; do_op(&o); }
    }
    o = (op_t) {0, "FL"}; do_op(&o);
    strcpy(o.op, "LK"); do_op(&o);
    strcpy(o.op, "VE"); do_op(&o);
    if(wild) fail("unmap", "memory the allocator does not own was unmapped or protected");
    dump("", "");
    _exit(0);
}

int main(int argc, char **argv) {
    cfg_init();
    FILE *f = fopen(argv[1], "r");
    char line[200];
    while(f && fgets(line, sizeof line, f)) {
        op_t o = {0};
        char who[8];
        if(sscanf(line, "%7s %7s %d %d %ld", who, o.op, &o.a, &o.b, &o.n) < 2) continue;
        o.t = who[0] == 'T' ? who[1] - '0' : who[0] == 'F' ? 9 : 0;
        if(o.t < 9 && o.t > nthr) nthr = o.t;
        if(o.n == 0 && (!strcmp(o.op, "A") || !strcmp(o.op, "CA") || !strcmp(o.op, "SD") || !strcmp(o.op, "RE") || !strcmp(o.op, "ZN"))) o.n = o.b;
        prog[nprog++] = o;
    }
    FILE *g = fopen(argv[2], "w");
    uint64_t first = strtoull(argv[3], 0, 10);
    int n = atoi(argv[4]);
    shlock = (char *) syscall(SYS_mmap, 0, SHL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shbuf = (char *) syscall(SYS_mmap, 0, SHN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh_steps = (long *) syscall(SYS_mmap, 0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh_site = (site_t *) syscall(SYS_mmap, 0, sizeof lsite, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    hb = (hb_t *) syscall(SYS_mmap, 0, HBN * sizeof(hb_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    /* known lock names, if the build has them */
    struct sigaction sa = {.sa_sigaction = on_sig, .sa_flags = SA_SIGINFO};
    me = 0;
    pid_t p0 = fork();        /* the set-up itself may fail: try it in a child first */
    if(p0 == 0) {
        sigaction(SIGSEGV, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGALRM, &sa, NULL);
        alarm(60);
        for(int i = 0; i < nprog; i++) if(prog[i].t == 0) do_op(&prog[i]);
        _exit(0);
    }
    int st;
    waitpid(p0, &st, 0);
    if(st) { fprintf(g, "{\"seed\":0,\"cnt\":1,\"h\":%s}\n", shbuf[0] ? shbuf : "{\"crash\":\"died\",\"detail\":\"in the set-up\"}"); fclose(g); return 0; }
    memset(shlock, 0, SHL);
    for(int i = 0; i < nprog; i++) if(prog[i].t == 0) do_op(&prog[i]);
    iso_flush_caches();
    for(int i = 0; i < nev; i++) if(!strcmp(evs[i].op, "fp")) live0[evs[i].a - 1] = 2;
    {   /* blocks that are gone are forgotten */
        blk_t nb[NSLOT]; int m = 0; char nl[NSLOT] = {0};
        for(int i = 0; i < nblk; i++) if(live0[i] == 2 && m < NSLOT) { nl[m] = 2; nb[m++] = blks[i]; }
        for(int i = 0; i < NSLOT; i++) if(slot[i].p && m < NSLOT) { nl[m] = 1; nb[m++] = blks[slot[i].blk - 1]; slot[i].blk = m; }
        memcpy(blks, nb, sizeof(blk_t) * m); memset(live0, 0, sizeof live0); memcpy(live0, nl, m); nblk = m; nev = 0; seqno = 0;
    }
    if(held(0)) { fprintf(g, "{\"seed\":0,\"cnt\":1,\"h\":{\"crash\":\"lock held\",\"detail\":\"after the set-up\"}}\n"); fclose(g); return 0; }
    hb_on = 0;
    /* distinct histories */
    typedef struct { uint64_t h; uint64_t seed; int cnt; char *s; } hist_t;
    hist_t *hs = calloc(n + 1, sizeof *hs);
    int nh = 0, nbad = 0;
    for(int k = 0; k < n && nbad < 3; k++) {
        shbuf[0] = 0;
        pid_t p = fork();
        if(p == 0) { sh_merge = k < 12; child(first + k); }
        waitpid(p, &st, 0);
        if(!shbuf[0]) sprintf(shbuf, "{\"crash\":\"died\",\"detail\":\"status %d\"}", st);
        if(strncmp(shbuf, "{\"crash\":\"\"", 11)) nbad++;
        uint64_t h = 1469598103934665603ULL;
        for(char *c = shbuf; *c; c++) h = (h ^ (uint8_t) *c) * 1099511628211ULL;
        int i;
        for(i = 0; i < nh; i++) if(hs[i].h == h) break;
        if(i == nh) { hs[nh++] = (hist_t) {h, first + k, 0, strdup(shbuf)}; }
        hs[i].cnt++;
    }
    for(int i = 0; i < nh; i++) fprintf(g, "{\"seed\":%lu,\"cnt\":%d,\"h\":%s}\n", hs[i].seed, hs[i].cnt, hs[i].s);
    fprintf(g, "{\"locks\":[");
    int firstl = 1;
    for(char *c = strtok(shlock, "\n"); c; c = strtok(NULL, "\n")) { fprintf(g, "%s\"%s\"", firstl ? "" : ",", c); firstl = 0; }
    fprintf(g, "],\"steps\":%ld}\n", *sh_steps);
    fclose(g);
    return 0;
}
