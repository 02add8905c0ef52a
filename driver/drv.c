/* Executes a script of allocator calls against the real implementation and reports, per call, everything
 * about it that can be observed from outside: results, the state of every mapping, contents, tags, locks.
 * It judges nothing: the specification does. usage: drv script trace */
#include "shadow.h"
#include "api.h"
#include <pthread.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/time.h>
#ifdef DRV_HOOK
#include "hook_shim.h"
#endif
#ifdef DRV_PROF
#include "prof_shim.h"
#endif

#define MAXB 700000
#define MAXH 9000
#define CHKMAX 262144
enum { NONE, LIVE, FREED, SEEN, PERM, LOST };
typedef struct {
    uintptr_t p, tp;
    size_t req, us;
    uint64_t seed;
    int rid, h, st, tag, big, grp, nreg0, nreg1, unw;
} blk_t;
static blk_t *B;
static int maxid;
typedef struct { zh_t *z; size_t csz; uintptr_t start; int rid; } hnd_t;
static hnd_t Hn[MAXH];
static int maxh;
static int *pend, npend;        /* freed, release not yet seen */
static int *livel, nlive;       /* live block ids (compacted lazily) */
typedef struct { int rid; uintptr_t s; size_t csz; int nc; int *c; } zone_t;
static zone_t Z[MAXH + 4096];
static int nz;
static void *zeropage;
/* thread local variables of the allocator may come to lie at the start of a page */
__thread char tls_page[4096] __attribute__((aligned(4096)));
static int in_try, in_fi, destroyed, protected_;
static int nofill;
static int *shst;               /* stage, shared with probe children */
static uint8_t scratch[1 << 17] __attribute__((aligned(4096)));

/* ---- output ---- */
static int ofd;
static char *ob;
static size_t on, oc;
static void o_room(size_t n) {
    if(on + n + 64 < oc) return;
    size_t nc = (oc + n) * 2 + 4096;
    char *x = (char *) syscall(SYS_mmap, 0, nc, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for(size_t i = 0; i < on; i++) x[i] = ob[i];
    ob = x;
    oc = nc;
}
static void o_s(const char *s) { o_room(strlen(s)); while(*s) ob[on++] = *s++; }
static void o_i(long v) {
    char t[32]; int n = 0; unsigned long u = v < 0 ? -(unsigned long) v : v;
    o_room(32);
    if(v < 0) ob[on++] = '-';
    do { t[n++] = '0' + u % 10; u /= 10; } while(u);
    while(n) ob[on++] = t[--n];
}
static void k_i(const char *k, long v) { o_s(",\""); o_s(k); o_s("\":"); o_i(v); }
static void k_s(const char *k, const char *v) { o_s(",\""); o_s(k); o_s("\":\""); o_s(v); o_s("\""); }
static int mute;
static void o_flush(void) {
    if(mute) { on = 0; return; }
    size_t d = 0;
    while(d < on) { ssize_t w = write(ofd, ob + d, on - d); if(w <= 0) _exit(96); d += w; }
    on = 0;
}
static long clip(size_t v) { return v > 0x7ffe0000UL ? 0x7ffe0000L : (long) v; }

/* ---- locks ---- */
static int lk_n, lk_dead;
static pthread_mutex_t *lk_held[64];
static void crash_ev(const char *what);
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) a; memset(m, 0, sizeof(*m)); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { (void) m; return 0; }
/* the allocator's own thread runs while the main thread waits for a page */
static __thread int role;
static inline int is_main(void) { if(!role) role = syscall(SYS_gettid) == syscall(SYS_getpid) ? 1 : 2; return role == 1; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    for(int i = 0; i < lk_n; i++) if(lk_held[i] == m) crash_ev("deadlock");
    if(!is_main()) return 0;
    if(lk_n < 64) lk_held[lk_n++] = m;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    for(int i = 0; i < lk_n; i++) if(lk_held[i] == m) return EBUSY;
    if(!is_main()) return 0;
    if(lk_n < 64) lk_held[lk_n++] = m;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if(!is_main()) return 0;
    for(int i = 0; i < lk_n; i++) if(lk_held[i] == m) { lk_held[i] = lk_held[--lk_n]; break; }
    return 0;
}

/* ---- crashes ---- */
static char curline[4096];
static void crash_ev(const char *what) {
    if(in_try || in_fi) _exit(strcmp(what, "deadlock") == 0 ? 77 : 78);
    on = 0;
    o_s("{\"op\":\"crash\",\"what\":\""); o_s(what); o_s("\",\"cmd\":\"");
    for(char *c = curline; *c && *c != '\n'; c++) { char t[2] = {*c, 0}; if(*c != '"' && *c != '\\') o_s(t); }
    o_s("\"}\n");
    o_flush();
    _exit(3);
}
static int ur_id, ur_off, ur_unw;
static void ur_ev(int sig) {
    on = 0;
    o_s("{\"op\":\"ur\""); k_i("id", ur_id); k_i("off", ur_off); k_i("unw", ur_unw); k_i("sig", sig); o_s("}\n");
    o_flush();
}
static void on_sig(int s) {
    if(ur_id && s == SIGABRT) { ur_ev(s); _exit(0); }
    if(in_try || in_fi) { signal(s, SIG_DFL); raise(s); _exit(79); }
    crash_ev(s == SIGABRT ? "abort" : s == SIGSEGV ? "segv" : s == SIGALRM ? "hang" : s == SIGBUS ? "bus" : "signal");
}
static char sig_stk[65536];
static void catch_sigs(void) {
    stack_t ss = {.ss_sp = sig_stk, .ss_size = sizeof(sig_stk)};
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_sig;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int l[] = {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGFPE, SIGALRM};
    for(unsigned i = 0; i < sizeof(l) / sizeof(int); i++) sigaction(l[i], &sa, NULL);
}
static void tick(int s) { alarm(s); }

/* ---- the core the thread runs on, where the allocator asks for it ---- */
static int cpu_now;
int sched_getcpu(void) { return cpu_now; }

/* ---- content ---- */
static inline uint64_t pat(uint64_t seed, size_t i) {
    uint64_t x = (seed + i) * 0x9E3779B97F4A7C15ULL;
    x ^= x >> 29;
    return x | 0x0101010101010101ULL;
}
static uint64_t seedctr = 1000;
static size_t words(blk_t *b) { return b->us / 8; }
static int win_has(blk_t *b, size_t i) { size_t n = words(b); return b->us <= CHKMAX || i < 2048 || i >= n - 2048; }
static void fill(blk_t *b) {
    uint64_t *q = (uint64_t *) b->p;
    size_t n = words(b);
    b->seed = (++seedctr) << 20;
    for(size_t i = 0; i < n; i++) {
        if(!win_has(b, i)) { i = n - 2048 - 1; continue; }
        q[i] = pat(b->seed, i);
    }
    for(size_t j = n * 8; j < b->us; j++) ((uint8_t *) b->p)[j] = 0x55;
}
/* addresses of blocks that the program keeps in other blocks */
typedef struct { int id, tgt, off; uintptr_t v; } ptr_t;
static ptr_t PT[4096];
static int npt;
/* index of the first changed word, or -1 */
static long check(blk_t *b) {
    uint64_t *q = (uint64_t *) b->p;
    size_t n = words(b);
    for(size_t i = 0; i < n; i++) {
        if(!win_has(b, i)) { i = n - 2048 - 1; continue; }
        if(q[i] != pat(b->seed, i)) {
            uint64_t x = pat(b->seed, i);
            uint8_t *y = (uint8_t *) &x;
            for(int k = 0; k < npt; k++) if(B + PT[k].id == b) for(int j = 0; j < 8; j++) {
                long o = PT[k].off + j - (long) i * 8;
                if(o >= 0 && o < 8) y[o] = ((uint8_t *) &PT[k].v)[j];
            }
            if(q[i] != x) return i;
        }
    }
    return -1;
}
static int accessible(uintptr_t p, size_t n) {
    if(n == 0) n = 1;
    for(uintptr_t a = p & ~(PG - 1); a < p + n; a += PG) if(page_prot(a) != P_RW) return 0;
    return 1;
}
static int accessible_ht(uintptr_t p, size_t n) {
    if(n <= CHKMAX) return accessible(p, n);
    return accessible(p, 16384) && accessible(p + n - 16384, 16384) && accessible(p + (n / 2 & ~7UL), 8);
}
/* what a block that is no longer in use holds */
static char content(blk_t *b) {
    reg_t *r = reg_find(b->p);
    if(r == NULL || r->id != b->rid) return 'g';
    if(page_prot(b->p) != P_RW) return 'n';
    uint64_t *q = (uint64_t *) b->p;
    size_t n = words(b);
    uint64_t poison = 0x0101010101010101ULL * (uint8_t) CF.poison;
    int p = 1, o = 1;
    for(size_t i = 0; i < n; i++) {
        if(!win_has(b, i)) { i = n - 2048 - 1; continue; }
        if(i == 0 || i == n - 1) { if(!b->big) continue; }
        if(q[i] != poison) p = 0;
        if(q[i] != pat(b->seed, i)) o = 0;
    }
    return p ? 'p' : o ? 'o' : 'm';
}

/* canaries: the first byte must end a string, no two chunks may share a value */
static struct { uint64_t v; uintptr_t p; } CN[1 << 16];
static struct { uint64_t v; int rid; } SC[1 << 12];
static char cxb[4096]; static int cxn;
static void canary_at(uintptr_t p, size_t csz, int id, int rid) {
    for(int k = 0; k < 2; k++) {
        uint64_t v = *(uint64_t *) (k ? p + csz - 8 : p);
        char w = 0;
        if(v & 0xff) w = 't';
        size_t h = (v * 0x9E3779B97F4A7C15ULL) >> 48;
        for(int j = 0; j < 8; j++, h = (h + 1) & 0xffff) {
            if(CN[h].v == v) { if((CN[h].p ^ p) >> 8) w = 'd'; break; }   /* the lowest byte is the zero one */
            if(CN[h].v == 0 || j == 7) { CN[h].v = v; CN[h].p = p; break; }
        }
        uint64_t sec = (v ^ p) >> 8;
        if(sec == 0) w = 'k';
        h = (sec * 0x9E3779B97F4A7C15ULL) >> 52;
        for(int j = 0; j < 8; j++, h = (h + 1) & 0xfff) {
            if(SC[h].rid && SC[h].v == sec) { if(SC[h].rid != rid) w = 's'; break; }
            if(SC[h].rid == 0 || j == 7) { SC[h].v = sec; SC[h].rid = rid; break; }
        }
        if(w && cxn < 4000) cxn += snprintf(cxb + cxn, 64, "%s[%d,%d,\"%c\"]", cxn ? "," : "", id, k, w);
    }
}
static void canary_of(blk_t *b, int id) {
    if(CF.nocanary || b->big || b->us < 16 || page_prot(b->p) != P_RW) return;
    reg_t *r = reg_find(b->p);
    if(r == NULL || r->id != b->rid || r->present <= 3) return;
    canary_at(b->p, b->us, id, b->rid);
}

/* ---- events ---- */
static void ev(const char *op) {
    if(in_fi) { o_s("{\"op\":\"fi\",\"sub\":\""); o_s(op); o_s("\",\"sig\":0"); k_i("k", in_fi); }
    else if(in_try) { o_s("{\"op\":\"try\",\"sub\":\""); o_s(op); o_s("\",\"sig\":0"); }
    else { o_s("{\"op\":\""); o_s(op); o_s("\""); }
}
static void run_list(reg_t *r) {
    o_s("[");
    int first = 1;
    for(size_t i = 0; i < r->np;) {
        size_t j = i;
        while(j < r->np && r->pp[j] == r->pp[i]) j++;
        if(!first) o_s(",");
        first = 0;
        o_s("["); o_i(j - i); o_s(r->pp[i] == P_RW ? ",\"w\"]" : r->pp[i] == P_RO ? ",\"r\"]" : r->pp[i] == P_NONE ? ",\"n\"]" : ",\"g\"]");
        i = j;
    }
    o_s("]");
}
/* newly mapped zones, seen before anything is written to them */
static char *nzb; static size_t nzn, nzc;
static int sighted;
static int cur_big;
static int cur_copy;             /* the call has written to its result already */
static void nz_add(const char *s) { size_t l = strlen(s); if(nzn + l + 1 > nzc) { nzc = (nzc + l) * 2 + 4096; nzb = realloc(nzb, nzc); } memcpy(nzb + nzn, s, l + 1); nzn += l; }
static void sight(void) {
    for(; sighted < nregs; sighted++) {
        reg_t *r = &regs[sighted];
        if(cur_big || destroyed || protected_) continue;
        for(size_t i = 0; i < r->np;) {
            size_t j = i;
            while(j < r->np && r->pp[j] == r->pp[i]) j++;
            if(r->pp[i] == P_RW && (long) (j - i) == CF.zone_pages && nz < (int) (sizeof(Z) / sizeof(Z[0]))) {
                uintptr_t s = r->start + i * PG;
                size_t csz = iso_chunksz((void *) s);
                zone_t *z = &Z[nz++];
                memset(z, 0, sizeof *z);
                z->rid = r->id; z->s = s; z->csz = csz;
                char t[128];
                int run = 1;
                for(size_t k = 1; k <= i; k++) if(r->pp[k] != r->pp[k - 1]) run++;
                snprintf(t, sizeof t, "%s[%d,%d,%ld,%ld,[", nzn ? "," : "", r->id, run, clip(csz), (long) ((s >> 32) & 0xffff));
                nz_add(t);
                if(csz >= 16 && csz <= 1 << 20) {
                    size_t cap = CF.zone_pages * PG / csz;
                    z->c = malloc(sizeof(int) * (cap + 1));
                    for(size_t k = 0; k < cap; k++) {
                        if(*(uint64_t *) (s + k * csz) != 0 && (!cur_copy || *(uint64_t *) (s + k * csz) == *(uint64_t *) (s + k * csz + csz - 8))) {
                            snprintf(t, sizeof t, "%s%zu", z->nc ? "," : "", k);
                            nz_add(t);
                            z->c[z->nc++] = k;
                            if(!CF.nocanary) canary_at(s + k * csz, csz, 0, z->rid);
                        }
                    }
                    z->c = realloc(z->c, sizeof(int) * (z->nc + 1));
                }
                nz_add("]]");
            }
            i = j;
        }
    }
}
static zone_t *zone_of(int rid) { for(int i = nz - 1; i >= 0; i--) if(Z[i].rid == rid) return &Z[i]; return NULL; }

/* Plain addresses in the allocator's own memory: of zones' chunks, of zones' bitmaps, of big blocks' metadata.
 * Addresses that were passed to iso_free are the exception. */
static uint8_t kind_of[MAXREG + 2];        /* 1: holds blocks, 2: came with a zone, 3: came with a big block */
static uintptr_t fzs[65536]; static int nfzs;
static int raw_scan(void) {
    static struct { uintptr_t s, e; } t[16384];
    int nt = 0, n = 0;
    uintptr_t lo = ~0UL, hi = 0;
    for(int i = first_live; i < nregs && nt < 16000; i++) {
        reg_t *r = &regs[i];
        if(!r->present) continue;
        zone_t *z = zone_of(r->id);
        if(z == NULL && kind_of[r->id] < 2) continue;
        size_t j = 0;
        if(z) { t[nt].s = z->s; t[nt].e = z->s + 1; }
        else {
            while(j < r->np && r->pp[j] != P_RW) j++;
            if(j == r->np) continue;
            t[nt].s = r->start + j * PG;
            t[nt].e = kind_of[r->id] == 3 ? t[nt].s + PG : t[nt].s + 1;
        }
        if(t[nt].s < lo) lo = t[nt].s;
        if(t[nt].e > hi) hi = t[nt].e;
        nt++;
    }
    for(int i = first_live; i < nregs; i++) {
        reg_t *r = &regs[i];
        if(!r->present || kind_of[r->id] == 1 || kind_of[r->id] == 2 || zone_of(r->id)) continue;
        size_t zero = 0;
        for(size_t j = 0; j < r->np && zero < 16; j++) {
            if(r->pp[j] != P_RW) continue;
            uint64_t *q = (uint64_t *) (r->start + j * PG);
            int nonz = 0;
            for(size_t k = 0; k < PG / 8; k++) {
                uintptr_t v = q[k];
                if(v == 0) continue;
                nonz = 1;
                if(v < lo || v >= hi) continue;
                for(int x = 0; x < nt; x++) if(v >= t[x].s && v < t[x].e) {
                    int f = 0;
                    for(int y = 0; y < nfzs; y++) if(fzs[y] == v) f = 1;
                    if(!f) n++;
                    break;
                }
            }
            zero = nonz ? 0 : zero + 1;
        }
    }
    return n;
}

/* What depends on entropy: addresses asked for, position of a big block's metadata in its page, secret of a zone's canaries */
static int twin;
static void twin_ev(void) {
    int any = 0;
    for(int i = first_live; i < nregs; i++) {
        reg_t *r = &regs[i];
        if(r->op != cur_op) continue;
        o_s(any ? ",[" : ",\"hi\":[["); any = 1;
        o_i(r->id); o_s(","); o_i((r->hint >> 12) & 0xfffffff); o_s(","); o_i(r->hint >> 40); o_s("]");
    }
    if(any) o_s("]");
    any = 0;
    for(int i = first_live; cur_op && i < nregs; i++) {
        reg_t *r = &regs[i];
        if(r->op != cur_op || kind_of[r->id] != 3) continue;
        for(size_t j = 0; j < r->np; j++) if(r->pp[j] == P_RW) {
            uint8_t *q = (uint8_t *) (r->start + j * PG);
            int k = 0;
            while(k < (int) PG && !q[k]) k++;
            o_s(any ? ",[" : ",\"mo\":[["); any = 1;
            o_i(r->id); o_s(","); o_i(k); o_s("]");
            break;
        }
    }
    if(any) o_s("]");
    any = 0;
    for(int i = 0; i < nz && !CF.nocanary; i++) if(Z[i].nc && regs[Z[i].rid - 1].op == cur_op) {
        uintptr_t a = Z[i].s + Z[i].c[0] * Z[i].csz;
        uint64_t v = (*(uint64_t *) (a + Z[i].csz - 8) ^ a) >> 8;
        o_s(any ? ",[" : ",\"sv\":[["); any = 1;
        o_i(Z[i].rid); o_s(","); o_i(v & 0xfffffff); o_s(","); o_i((v >> 28) & 0xfffffff); o_s("]");
    }
    if(any) o_s("]");
}

static void ev_end(void) {
    sight();
    if(nzn) { o_s(",\"nz\":["); o_s(nzb); o_s("]"); nzn = 0; nzb[0] = 0; }
    int any = 0;
    for(int i = first_live; i < nregs; i++) {
        reg_t *r = &regs[i];
        if(!r->chg) continue;
        if(r->op == cur_op && r->present == 0) continue;   /* came and went */
        o_s(any ? "," : ",\"rg\":["); any = 1;
        o_s("["); o_i(r->id); o_s(","); o_i(r->op == cur_op); o_s(",");
        if(r->present == 0) o_s("[]"); else run_list(r);
        o_s("]");
    }
    if(any) o_s("]");
    any = 0;
    for(int i = first_live; i < nregs; i++) if(regs[i].dn && regs[i].present) {
        o_s(any ? "," : ",\"dn\":["); any = 1; o_i(regs[i].id);
    }
    if(any) o_s("]");
    if(wild) k_i("wild", wild);
    /* stored addresses that have been replaced */
    any = 0;
    for(int i = 0; i < npt; i++) {
        blk_t *b = &B[PT[i].id];
        if(b->st != LIVE) { PT[i--] = PT[--npt]; continue; }
        if(!accessible(b->p + PT[i].off, 8)) continue;
        uintptr_t v;
        memcpy(&v, (void *) (b->p + PT[i].off), 8);
        if(v == PT[i].v) continue;
        reg_t *r = reg_find(v);
        if(r == NULL) continue;
        o_s(any ? ",[" : ",\"uaf\":[["); any = 1;
        o_i(PT[i].id); o_s(","); o_i(PT[i].off); o_s(","); o_i(PT[i].tgt); o_s(","); o_i(page_prot(v) == P_NONE && r->present == 1); o_s("]");
        PT[i].v = v;
    }
    if(any) o_s("]");
    for(int i = first_live; i < nregs; i++) {
        reg_t *r = &regs[i];
        if(r->op != cur_op || cur_op == 0 || kind_of[r->id] || zone_of(r->id)) continue;
        if(nz && regs[Z[nz - 1].rid - 1].op == cur_op) kind_of[r->id] = 2;
        else if(cur_big) kind_of[r->id] = 3;
    }
    if(twin) twin_ev();
    if(CF.mask && !destroyed && !protected_ && !lk_n) { int n = raw_scan(); if(n) k_i("raw", n); }
    /* contents of live blocks */
    any = 0;
    int nbad = 0;
    for(int i = 0; i < nlive; i++) {
        blk_t *b = &B[livel[i]];
        if(b->st != LIVE) continue;
        char k = 0;
        if(!accessible_ht(b->p, b->us)) k = 'x';
        else if(check(b) >= 0) k = 'c';
        if(k && nbad < 20) {
            nbad++;
            o_s(any ? ",[" : ",\"bad\":[["); any = 1;
            o_i(livel[i]); o_s(k == 'x' ? ",\"x\"]" : ",\"c\"]");
        }
        if(k == 'c') fill(b);
        if(k == 'x') b->st = LOST;
    }
    { int w = 0; for(int i = 0; i < nlive; i++) if(B[livel[i]].st == LIVE) livel[w++] = livel[i]; nlive = w; }
    if(any) o_s("]");
    /* pending blocks that have been released */
    any = 0;
    int w = 0;
    for(int i = 0; i < npend; i++) {
        blk_t *b = &B[pend[i]];
        char c = content(b);
        int rel = 0;
        if(c == 'g' || c == 'n') rel = 1;
        else if(b->big) { reg_t *r = reg_find(b->p); rel = r->dn || c != 'o'; }
        else rel = *(uint64_t *) b->p != pat(b->seed, 0) || c == 'p';
        if(rel && b->st == FREED) {
            o_s(any ? ",[" : ",\"rel\":[["); any = 1;
            o_i(pend[i]); o_s(",\""); char t[2] = {c, 0}; o_s(t); o_s("\"]");
            b->st = SEEN;
            if(c != 'g' && c != 'n') canary_of(b, pend[i]);
        } else if(b->st == FREED) pend[w++] = pend[i];
    }
    npend = w;
    if(any) o_s("]");
    if(cxn) { o_s(",\"cx\":["); o_s(cxb); o_s("]"); cxn = 0; cxb[0] = 0; }
    /* tags */
    if(CF.tags && !destroyed && !protected_) {
        any = 0;
        for(int i = 1; i <= maxid; i++) {
            blk_t *b = &B[i];
            if(b->h && b->grp == 0 && b->st != NONE && Hn[b->h].z && b->rid == Hn[b->h].rid) {
                int t = iso_alloc_get_mem_tag((void *) b->p, Hn[b->h].z);
                if(t != b->tag) {
                    o_s(any ? ",[" : ",\"tv\":[["); any = 1;
                    o_i(i); o_s(","); o_i(t); o_s("]");
                    b->tag = t;
                }
            }
        }
        if(any) o_s("]");
    }
    if(lk_n) k_i("lk", lk_n);
    o_s("}\n");
    o_flush();
    mm_reset();
    cur_op++;
}
static void add_live(int id) { livel[nlive++] = id; }
static blk_t *blk(int id) {
    if(id <= 0 || id >= MAXB) { fprintf(stderr, "bad id %d\n", id); _exit(95); }
    if(id > maxid && id < 100000) maxid = id;
    return &B[id];
}
/* report the result p of a request for req bytes and take the block over */
static void res(int id, void *vp, size_t req, int h) {
    uintptr_t p = (uintptr_t) vp, s, e;
    int pr;
    blk_t *b = blk(id);
    memset(b, 0, sizeof *b);
    k_i("id", id);
    k_i("sz", clip(req));
    k_i("pg", clip((req + PG - 1 < req ? (size_t) 1 << 44 : (req + PG - 1)) / PG));
    sight();
    if(p == 0) { o_s(",\"v\":\"n\""); return; }
    if(vp == zeropage && zeropage) { o_s(",\"v\":\"z\""); k_i("cs", iso_chunksz(vp)); k_i("pr", page_prot(p)); return; }
    o_s(",\"v\":\"p\"");
    if(h && CF.tags && (p >> 56)) { b->tp = p; p &= 0x00ffffffffffffffUL; k_i("tgd", b->tp >> 56); }
    reg_t *r = reg_find(p);
    if(r == NULL) { o_s(",\"r\":0"); b->st = LOST; return; }
    int run = reg_run(r, p, &s, &e, &pr);
    k_i("r", r->id); k_i("ru", run); k_i("o", clip(p - s)); k_i("rl", clip((e - s) / PG)); k_i("al", p & (0 - p) & 4095 ? (long) (p & (0 - p) & 4095) : 4096);
    if(pr != P_RW) { k_i("pr", pr); b->st = LOST; return; }
    size_t cs = iso_chunksz((void *) p);
    k_i("cs", clip(cs)); k_i("cp", clip(cs / PG));
    b->p = p; b->req = req; b->h = h; b->rid = r->id; kind_of[r->id] = 1; b->st = LIVE;
    b->us = cs;
    if(cs > e - p) b->us = e - p;
    b->us &= ~7UL;
    b->big = cur_big;
    b->tag = -1;
    if(h && CF.tags) { b->tag = iso_alloc_get_mem_tag((void *) p, Hn[h].z); k_i("tg", b->tag); }
    /* former contents still visible */
    long ex = 0;
    for(int i = maxid, n = 0; i > 0 && n < 20000; i--, n++) {
        blk_t *f = &B[i];
        if(f == b || f->rid != b->rid || f->seed == 0 || f->p + f->us <= p || f->p >= p + b->us || f->st == LIVE) continue;
        uintptr_t lo = f->p > p ? f->p : p, hi = f->p + f->us < p + b->us ? f->p + f->us : p + b->us;
        for(uintptr_t a = lo; a + 8 <= hi; a += 8) {
            size_t k = (a - f->p) / 8;
            if(win_has(f, k) && k != 0 && *(uint64_t *) a == pat(f->seed, k)) ex++;
        }
        f->seed = 0;
    }
    if(ex) k_i("exp", ex);
}
static void take(int id) {
    blk_t *b = &B[id];
    if(b->st == LIVE) { fill(b); add_live(id); }
}
static int is_zero(uintptr_t p, size_t n) {
    if(!accessible(p, n)) return 0;
    for(size_t i = 0; i < n; i++) if(((volatile uint8_t *) p)[i]) return 0;
    return 1;
}
static void to_freed(int id) {
    blk_t *b = &B[id];
    if(b->st != LIVE) return;
    b->st = FREED;
    pend[npend++] = id;
    if(!b->big) { zone_t *z = zone_of(b->rid); if(z && z->s == b->p && nfzs < 65536) fzs[nfzs++] = b->p; }
}
static void set_big(size_t sz) { cur_big = sz > (size_t) CF.smallmax; }

/* guard-page backed source string: len characters, terminated or running into the guard */
static char *gstr(size_t len, int term) {
    size_t tot = (len + 1 + PG - 1) / PG * PG;
    char *m = (char *) syscall(SYS_mmap, 0, tot + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    syscall(SYS_mprotect, m + tot, PG, PROT_NONE);
    char *s = m + tot - len - (term ? 1 : 0);
    for(size_t i = 0; i < len; i++) s[i] = 'a' + (i * 7 + i / 26 + len) % 26;
    if(term) s[len] = 0;
    return s;
}

/* ---- aggregated operations ---- */
typedef struct { int rid; size_t csz; uintptr_t s; long n, odd; uint8_t *bits; size_t nb; } agg_t;
static agg_t AG[64];
static int nag;
static long agn;
static void agg_add(uintptr_t p) {
    uintptr_t s, e; int pr;
    reg_t *r = reg_find(p);
    if(!r) { agn++; return; }
    reg_run(r, p, &s, &e, &pr);
    int i;
    for(i = 0; i < nag; i++) if(AG[i].rid == r->id && AG[i].s == s) break;
    if(i == nag) {
        agg_t *a = &AG[nag++];
        memset(a, 0, sizeof *a);
        a->rid = r->id; a->s = s; a->csz = iso_chunksz((void *) p);
        a->nb = a->csz >= 16 ? (e - s) / a->csz + 1 : 1;
        a->bits = calloc(1, a->nb);
    }
    agg_t *a = &AG[i];
    a->n++;
    agn++;
    if(a->csz < 16 || (p - s) % a->csz || (p - s) / a->csz >= a->nb) a->odd++;
    else a->bits[(p - s) / a->csz] = 1;
}
static void agg_fields(void) {
    k_i("n", agn);
    o_s(",\"ag\":[");
    for(int i = 0; i < nag; i++) {
        agg_t *a = &AG[i];
        if(i) o_s(",");
        o_s("{\"r\":"); o_i(a->rid); k_i("cs", clip(a->csz)); k_i("n", a->n); k_i("odd", a->odd);
        o_s(",\"iv\":[");
        int f = 1;
        for(size_t k = 0; k < a->nb;) {
            if(!a->bits[k]) { k++; continue; }
            size_t j = k;
            while(j < a->nb && a->bits[j]) j++;
            if(!f) o_s(",");
            f = 0;
            o_s("["); o_i(k); o_s(","); o_i(j - 1); o_s("]");
            k = j;
        }
        o_s("]}");
        free(a->bits);
    }
    o_s("]");
    nag = 0;
    agn = 0;
}
static long seen_gen;
static int mm_changed(void) { int c = mm_gen != seen_gen; seen_gen = mm_gen; return c; }
#define mm_changed_fast mm_changed
static int tmpid = MAXB - 1;

static void do_churn(long n, size_t sz, int h) {
    size_t asz = h ? Hn[h].csz : sz;
    set_big(asz);
    mm_changed();
    for(long i = 0; i < n; i++) {
        if((i & 1023) == 0) tick(20);
        mm_changed();
        void *p = h ? iso_alloc_from_zone(Hn[h].z) : iso_alloc(sz);
        int chg = mm_changed_fast();
        if(p == NULL || chg || nag >= 60) {
            /* report what happened so far, then this allocation on its own */
            if(agn) { ev("ch"); k_i("sz", clip(asz)); k_i("h", h); 
                                agg_fields(); o_s("}\n"); }
            int id = tmpid--;
            ev("a"); k_i("h", h); res(id, p, asz, h); take(id); ev_end();
            if(p == NULL) return;
            blk_t *b = &B[id];
            if(b->st != LIVE) return;
            ev("fs"); k_i("id", id); k_i("fsz", clip(asz)); k_i("h", h);
            if(h) iso_free_from_zone(p, Hn[h].z); else iso_free_size(p, asz);
            to_freed(id);
            ev_end();
            continue;
        }
        *(volatile uint64_t *) p = 0x1111111111111111ULL;
        int had = *(volatile uint64_t *) p != 0; (void) had;
        uintptr_t s, e; int pr;
        reg_t *r = reg_find((uintptr_t) p);
        if(r) reg_run(r, (uintptr_t) p, &s, &e, &pr);
        int rid = r ? r->id : 0; 
        size_t off = r ? (uintptr_t) p - s : 0, cs = 0;
        long rl = r ? (e - s) / PG : 0;
        cs = iso_chunksz(p);
        if(h) iso_free_from_zone(p, Hn[h].z); else iso_free_size(p, asz);
        if(mm_changed()) {
            if(agn) { ev("ch"); k_i("sz", clip(asz)); k_i("h", h); agg_fields(); o_s("}\n"); }
            int id = tmpid--;
            ev("a"); k_i("h", h); k_i("id", id); k_i("sz", clip(asz)); k_i("pg", clip((asz + PG - 1) / PG)); o_s(",\"v\":\"p\"");
            k_i("r", rid); k_i("ru", 0); k_i("o", clip(off)); k_i("rl", rl); k_i("al", 32); k_i("cs", clip(cs)); k_i("cp", clip(cs / PG)); o_s(",\"late\":1}\n");
            blk_t *b = blk(id);
            memset(b, 0, sizeof *b);
            b->p = (uintptr_t) p; b->us = cs & ~7UL; b->rid = rid; b->st = FREED; b->req = asz; b->h = 0; b->big = cur_big;
            pend[npend++] = id;
            ev("fs"); k_i("id", id); k_i("fsz", clip(asz)); k_i("h", h);
            ev_end();
        } else agg_add((uintptr_t) p);
    }
    if(agn) { ev("ch"); k_i("sz", clip(asz)); k_i("h", h); agg_fields(); ev_end(); }
}
static int ngrp[1000][2];
static int nextg = 100000;
static void fi_ev(int g, size_t sz, int h, int last) {
    ev("fill"); k_i("g", g); k_i("sz", clip(sz)); k_i("h", h); agg_fields();
    if(last) ev_end(); else o_s("}\n");
}
static void do_fill(int g, long n, size_t sz, int h) {
    size_t asz = h ? Hn[h].csz : sz;
    set_big(asz);
    ngrp[g][0] = nextg;
    mm_changed();
    for(long i = 0; i < n; i++) {
        if((i & 1023) == 0) tick(20);
        mm_changed();
        void *p = h ? iso_alloc_from_zone(Hn[h].z) : iso_alloc(sz);
        int chg = mm_changed_fast();
        if(chg && agn) {
            /* the changes belong to this call: report the others first */
            ev("fill"); k_i("g", g); k_i("sz", clip(asz)); k_i("h", h); agg_fields(); o_s("}\n");
        }
        sight();
        if(p == NULL) {
            if(agn) fi_ev(g, asz, h, 0);
            ev("a"); k_i("h", h); res(tmpid--, NULL, asz, h); ev_end();
            break;
        }
        blk_t *b = blk(nextg++);
        memset(b, 0, sizeof *b);
        uintptr_t s, e; int pr;
        reg_t *r = reg_find((uintptr_t) p);
        if(!r) crash_ev("foreign result");
        reg_run(r, (uintptr_t) p, &s, &e, &pr);
        b->p = (uintptr_t) p; b->req = asz; b->h = h; b->rid = r->id; kind_of[r->id] = 1; b->st = pr == P_RW ? LIVE : LOST; b->grp = g;
        b->us = iso_chunksz(p);
        if(b->us > e - b->p) b->us = e - b->p;
        b->us &= ~7UL;
        b->big = cur_big;
        if(b->st == LIVE) { fill(b); add_live(nextg - 1); }
        agg_add(b->p);
        if(chg || nag >= 60) fi_ev(g, asz, h, 1);
    }
    ngrp[g][1] = nextg;
    if(agn) fi_ev(g, asz, h, 1);
    else if(0) ev_end();
}
/* how: 0 sized, 1 zone, 2 permanently; step/phase choose a subset; from the block at index from */
static void do_freegrp(int g, const char *fl, int h, long from, long cnt) {
    int a = ngrp[g][0], z = ngrp[g][1];
    long k = 0;
    for(int i = a; i < z; i++) {
        blk_t *b = &B[i];
        if(b->st != LIVE) continue;
        if(k++ < from) continue;
        if(cnt >= 0 && k > from + cnt) break;
        if((k & 1023) == 0) tick(20);
        void *p = (void *) b->p;
        mm_changed();
        agg_add(b->p);
        b->st = strcmp(fl, "P") == 0 ? PERM : SEEN;
        if(strcmp(fl, "Z") == 0) iso_free_from_zone(p, Hn[h].z);
        else if(strcmp(fl, "P") == 0) iso_free_permanently(p);
        else iso_free_size(p, b->req);
        if(mm_changed()) {
            ev("fg"); k_i("g", g); k_s("fl", fl); k_i("h", h);
            agg_fields();
            ev_end();
        }
    }
    if(agn) { ev("fg"); k_i("g", g); k_s("fl", fl); k_i("h", h); agg_fields(); ev_end(); }
}

/* ---- probes ---- */
static void stage(int n) { *shst = n; }
static void child_begin(void) { in_try = 1; on = 0; stage(0); tick(20); }
/* wait for a child: the signal that ended it, 0 if it came through; *code its exit code */
static int reap(pid_t pid, int *code) {
    int st;
    *code = 0;
    while(waitpid(pid, &st, 0) < 0) if(errno != EINTR) return 999;
    if(WIFSIGNALED(st)) return WTERMSIG(st);
    *code = WEXITSTATUS(st);
    if(*code == 77) return 1077;   /* waits for a lock it holds */
    if(*code == 78 || *code == 79) return 1078;
    return 0;
}
static uintptr_t target(const char *tk, long a, long b) {
    static int dataseg[16];
    zone_t *z;
    blk_t *k;
    switch(tk[0]) {
    case 'b': return blk(a)->p + b;
    case 's': k = blk(a); z = zone_of(k->rid); return z ? z->s + b * z->csz : 0;
    case 'c': k = blk(a); z = zone_of(k->rid); return z && z->nc ? z->s + (size_t) z->c[b % z->nc] * z->csz : 0;
    case 'S': k = blk(a); z = zone_of(k->rid); return z ? z->s + b : 0;              /* byte offset in the zone of a */
    case 'g': { uintptr_t s, e; int pr; k = blk(a); reg_t *r = reg_find(k->p); if(!r) return 0; reg_run(r, k->p, &s, &e, &pr); return b >= 0 ? e + b : s + b; }
    case 'm': { k = blk(a); /* a region that came with the block, not holding it */
        for(int i = k->nreg0; i < k->nreg1; i++) if(regs[i].id != k->rid && regs[i].present) { reg_t *r = &regs[i]; for(size_t j = 0; j < r->np; j++) if(r->pp[j] == P_RW) return r->start + j * PG + b; }
        return 0; }
    case 'R': { int n = 0; for(int i = 0; i < nregs; i++) if(regs[i].present) { if(n++ == a) { for(size_t j = 0; j < regs[i].np; j++) if(regs[i].pp[j] == P_RW) return regs[i].start + j * PG + b; } } return 0; }
    case 't': return ((uintptr_t) &z & ~31UL) - 512 + b;
    case 'H': return (uintptr_t) ob + 4096 + b;
    case 'd': return ((uintptr_t) dataseg & ~31UL) + 32 + b;
    case 'z': return (uintptr_t) zeropage + b;
    case 'w': return (uintptr_t) a * 4096 + b;
    }
    return 0;
}
static void where(uintptr_t t) {
    uintptr_t s, e; int pr;
    reg_t *r = reg_find(t);
    if(!r) { k_i("r", 0); k_i("o", 0); k_i("ru", 0); k_i("rl", 0); return; }
    int run = reg_run(r, t, &s, &e, &pr);
    k_i("r", r->id); k_i("o", clip(t - s)); k_i("ru", run); k_i("rl", clip((e - s) / PG));
}
static volatile void *sink;
static void free_by(const char *fl, void *t, int h, size_t size) {
    if(!strcmp(fl, "F")) iso_free(t);
    else if(!strcmp(fl, "FS")) iso_free_size(t, size);
    else if(!strcmp(fl, "FP")) iso_free_permanently(t);
    else if(!strcmp(fl, "FZ")) iso_free_from_zone(t, Hn[h].z);
    else if(!strcmp(fl, "FZP")) iso_free_from_zone_permanently(t, Hn[h].z);
    else if(!strcmp(fl, "R")) sink = iso_realloc(t, size);
    else if(!strcmp(fl, "Q")) sink = (void *) iso_chunksz(t);
}
/* end of a probing child: release what is pending, then look at everything */
static void child_end(void) {
    stage(1);
    iso_flush_caches();
    stage(2);
    iso_verify_zones();
    stage(3);
    _exit(0);
}
static void probe_free(const char *fl, int h, size_t size, const char *tk, long a, long b) {
    uintptr_t t = target(tk, a, b);
    if(t == 0) return;
    pid_t pid = fork();
    if(pid == 0) { child_begin(); free_by(fl, (void *) t, h, size); child_end(); }
    int code, sig = reap(pid, &code);
    ev("pf"); k_s("fl", fl); k_i("h", h); k_i("sz", clip(size)); k_s("tk", tk); k_i("a", a); k_i("b", b); where(t); k_i("m8", t & 7); k_i("stg", *shst); k_i("sig", sig);
    ev_end();
}
/* detectors of damage */
static void detect(const char *det, long a, long b, uintptr_t victim) {
    if(!strcmp(det, "V")) iso_verify_zones();
    else if(!strcmp(det, "VZ")) iso_verify_zone(Hn[a].z);
    else if(!strcmp(det, "X")) iso_alloc_destroy();
    else if(!strcmp(det, "F")) { iso_free((void *) blk(a)->p); stage(1); iso_flush_caches(); }
    else if(!strcmp(det, "FS")) iso_free_size((void *) blk(a)->p, blk(a)->us);
    else if(!strcmp(det, "FP")) iso_free_permanently((void *) blk(a)->p);
    else if(!strcmp(det, "FZ")) iso_free_from_zone((void *) blk(a)->p, Hn[b].z);
    else if(!strcmp(det, "Q")) sink = (void *) iso_chunksz((void *) blk(a)->p);
    else if(!strcmp(det, "AL")) {
        for(long i = 0; i < b; i++) {
            if((i & 255) == 0) tick(20);
            uintptr_t p = (uintptr_t) iso_alloc(a);
            if(p == victim) { stage(9); _exit(0); }
        }
    } else if(!strcmp(det, "AZ")) {
        for(long i = 0; i < b; i++) {
            uintptr_t p = (uintptr_t) iso_alloc_from_zone(Hn[a].z);
            if(p == 0) break;
            if(p == victim) { stage(9); _exit(0); }
        }
    }
}
static void probe_corrupt(const char *tk, long a, long b, int pos, int x, const char *det, long da, long db) {
    uintptr_t t = target(tk, a, b);
    if(t == 0 || page_prot(t) != P_RW) return;
    zone_t *z = NULL;
    reg_t *r = reg_find(t);
    if(r) z = zone_of(r->id);
    if(!z) return;
    uintptr_t at = pos < 8 ? t + pos : t + z->csz - 16 + pos;
    pid_t pid = fork();
    if(pid == 0) {
        child_begin();
        *(volatile uint8_t *) at ^= x;
        detect(det, da, db, t);
        stage(3);
        _exit(0);
    }
    int code, sig = reap(pid, &code);
    ev("pc"); k_s("tk", tk); k_i("a", a); k_i("b", b); where(t); k_i("pos", pos); k_i("x", x); k_s("det", det); k_i("da", da); k_i("db", db); k_i("stg", *shst); k_i("sig", sig);
    ev_end();
}
/* damage the first or last used word of the page that came with a big block */
static void probe_meta(int id, int tail, int pos, const char *det, long da, long db) {
    uintptr_t t = target("m", id, 0);
    if(t == 0 || page_prot(t) != P_RW) return;
    uint64_t *q = (uint64_t *) t;
    uintptr_t first = 0, last = 0;
    for(uint8_t *c = (uint8_t *) q; c < (uint8_t *) q + PG; c++) if(*c) { if(!first) first = (uintptr_t) c; last = (uintptr_t) c; }
    if(!first) return;
    uintptr_t victim = blk(id)->p;
    pid_t pid = fork();
    if(pid == 0) {
        child_begin();
        if(tail) *(volatile uint8_t *) (last - pos) ^= 0x40; else *(volatile uint8_t *) (first + pos) ^= 0x40;
        detect(det, da, db, victim);
        stage(3);
        _exit(0);
    }
    int code, sig = reap(pid, &code);
    ev("pm"); k_i("id", id); k_i("tail", tail); k_i("pos", pos); k_s("det", det); k_i("da", da); k_i("db", db); k_i("stg", *shst); k_i("sig", sig);
    ev_end();
}
/* change a byte of a sampled block's page, then free the block */
static void probe_sample(int id, long off, const char *fl) {
    blk_t *b = blk(id);
    if(b->st != LIVE) return;
    uintptr_t s, e; int pr;
    reg_t *r = reg_find(b->p);
    if(!r) return;
    reg_run(r, b->p, &s, &e, &pr);
    if(e - s != PG) return;
    pid_t pid = fork();
    if(pid == 0) {
        child_begin();
        *(volatile uint8_t *) (s + off) ^= 0x21;
        free_by(fl, (void *) b->p, 0, b->req);
        child_end();
    }
    int code, sig = reap(pid, &code);
    ev("ps"); k_i("id", id); k_i("off", off); k_s("fl", fl); where(b->p); k_i("stg", *shst); k_i("sig", sig);
    ev_end();
}
/* touch a byte: does it fault */
static void probe_touch(const char *tk, long a, long b) {
    uintptr_t t = target(tk, a, b);
    if(t == 0) return;
    pid_t pid = fork();
    if(pid == 0) { child_begin(); *(volatile uint8_t *) t = 1; _exit(0); }
    int code, sig = reap(pid, &code);
    ev("pt"); k_s("tk", tk); k_i("a", a); k_i("b", b); where(t); k_i("sig", sig);
    ev_end();
}
/* tagged pointer operations. how: VT verify, UT untag (match reported), FZ free tagged; x: xor applied to the tag; old: use the
 * pointer tagged when the block was handed out, else tag it now */
static void probe_tag(const char *how, int id, int h, int x, int old, long delta) {
    blk_t *b = blk(id);
    uintptr_t tp = old ? b->tp : (uintptr_t) iso_alloc_tag_ptr((void *) b->p, Hn[h].z);
    if(tp == 0) return;
    int hastp = (tp >> 56) != 0;
    tp ^= (uintptr_t) x << 56;
    tp += delta;
    shst[1] = -1;
    pid_t pid = fork();
    if(pid == 0) {
        child_begin();
        if(!strcmp(how, "VT")) iso_alloc_verify_ptr_tag((void *) tp, Hn[h].z);
        else if(!strcmp(how, "UT")) { void *u = iso_alloc_untag_ptr((void *) tp, Hn[h].z); shst[1] = (uintptr_t) u == b->p; _exit(0); }
        else if(!strcmp(how, "FZ")) iso_free_from_zone((void *) tp, Hn[h].z);
        else if(!strcmp(how, "FZP")) iso_free_from_zone_permanently((void *) tp, Hn[h].z);
        child_end();
    }
    int code, sig = reap(pid, &code);
    ev("ptag"); k_s("how", how); k_i("id", id); k_i("h", h); k_i("x", x); k_i("old", old); k_i("dl", delta); k_i("ptg", tp >> 56); k_i("has", hastp); k_i("same", shst[1]); k_i("stg", *shst); k_i("sig", sig);
    ev_end();
}
/* checked memory functions. fn 0 memcpy, 1 memmove, 2 memset */
#ifdef DRV_MEM
void *hk_memcpy(void *, const void *, size_t);
void *hk_memmove(void *, const void *, size_t);
void *hk_memset(void *, int, size_t);
static void mem_loc(const char *pre, int id, long off, uintptr_t a) {
    char t[8];
    uintptr_t s = 0, e = 0; int pr = 0;
    reg_t *r = reg_find(a);
    if(r) reg_run(r, a, &s, &e, &pr);
    strcpy(t, pre); strcat(t, "id"); k_i(t, id);
    strcpy(t, pre); strcat(t, "r"); k_i(t, r ? r->id : 0);
    strcpy(t, pre); strcat(t, "o"); k_i(t, r ? clip(a - s) : clip((size_t) off));
    strcpy(t, pre); strcat(t, "l"); k_i(t, r ? clip((e - a)) : (long) (sizeof(scratch) - off));
}
static uint8_t *bufA, *bufB;
static void probe_mem(int fn, int did, long doff, int sid, long soff, size_t n, int c) {
    uintptr_t d = did ? blk(did)->p + doff : (uintptr_t) scratch + doff, s = sid ? blk(sid)->p + soff : (uintptr_t) scratch + soff;
    if(!bufA) { bufA = (uint8_t *) syscall(SYS_mmap, 0, 16 << 20, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); bufB = bufA + (8 << 20); }
    shst[1] = shst[2] = 0;
    /* context of 64 bytes around, where it is accessible */
    long pre = 64, post = 64;
    while(pre && page_prot(d - pre) != P_RW && did) pre--;
    while(post && page_prot(d + n + post - 1) != P_RW && did) post--;
    if(!did) { if(doff < pre) pre = doff; if((long) (sizeof(scratch) - doff - n) < post) post = sizeof(scratch) - doff - n; }
    pid_t pid = fork();
    if(pid == 0) {
        child_begin();
        void *ret;
        int ok = (did ? accessible(d, n) : n <= sizeof(scratch) - doff) && (fn == 2 || (sid ? accessible(s, n) : n <= sizeof(scratch) - soff));
        if(ok && n < (4 << 20)) {
            for(long i = -pre; i < (long) n + post; i++) bufA[i + pre] = *(volatile uint8_t *) (d + i);
            for(size_t i = 0; i < n; i++) bufB[i] = fn == 2 ? (uint8_t) c : *(volatile uint8_t *) (s + i);
            for(size_t i = 0; i < n; i++) bufA[pre + i] = bufB[i];
        }
        stage(1);
        ret = fn == 0 ? hk_memcpy((void *) d, (void *) s, n) : fn == 1 ? hk_memmove((void *) d, (void *) s, n) : hk_memset((void *) d, c, n);
        stage(2);
        shst[1] = ret == (void *) d;
        int good = 1;
        if(ok) for(long i = -pre; i < (long) n + post; i++) if(bufA[i + pre] != *(volatile uint8_t *) (d + i)) good = 0;
        shst[2] = good;
        _exit(0);
    }
    int code, sig = reap(pid, &code);
    ev("mem"); k_i("fn", fn); mem_loc("d", did, doff, d); mem_loc("s", sid, soff, s); k_i("n", clip(n)); k_i("ret", shst[1]); k_i("good", shst[2]); k_i("stg", *shst); k_i("sig", sig);
    ev_end();
}
#endif

static int toks(char *l, char **t) { int n = 0; for(char *p = strtok(l, " \n"); p && n < 20; p = strtok(NULL, " \n")) t[n++] = p; return n; }
#define I(k) (k < n ? strtol(t[k], NULL, 0) : 0)
#define U(k) (k < n ? strtoul(t[k], NULL, 0) : 0)

static void exec_line(char *line);
static void k_req(char **t, int n);
static void on_fault(const char *kind, const char *sub, char **t, int n, int k, int sig) {
    o_s("{\"op\":\""); o_s(kind); o_s("\",\"sub\":\""); o_s(sub); o_s("\""); k_i("sig", sig); k_i("k", k);
    o_s(",\"args\":[");
    for(int i = 1; i < n; i++) { if(i > 1) o_s(","); o_i(clip(strtoul(t[i], NULL, 0))); }
    o_s("]");
    if(CF.abortnull && !strcmp(kind, "try")) k_req(t, n);
    ev_end();
}
/* what an allocation asks for */
static void k_req(char **t, int n) {
    const char *c = t[0];
    int h = 0, ov = 0;
    size_t sz = 0, rp = 0;
    if(!strcmp(c, "A")) sz = U(2);
    else if(!strcmp(c, "C")) { size_t r; ov = __builtin_mul_overflow(U(2), U(3), &sz); if(ov || U(3) + 31 < U(3) || __builtin_mul_overflow(U(2), (U(3) + 31) & ~31UL, &r) || r > (1UL << 45)) r = 1UL << 45; rp = (r + PG - 1) / PG; }
    else if(!strcmp(c, "R")) sz = U(3);
    else if(!strcmp(c, "RA")) ov = __builtin_mul_overflow(U(3), U(4), &sz);
    else if(!strcmp(c, "SD")) sz = I(2) + 1;
    else if(!strcmp(c, "SN")) sz = (U(3) < U(2) ? U(3) : U(2)) + 1;
    else { h = I(1); sz = h ? Hn[h].csz : 0; }
    k_i("h", h); k_i("sz", clip(sz)); k_i("ov", ov); k_i("rp", clip(rp)); k_i("pg", clip((sz + PG - 1 < sz ? (size_t) 1 << 44 : sz + PG - 1) / PG));
}
static const char *opname(const char *c) {
    static const struct { const char *c, *o; } m[] = {{"A", "a"}, {"C", "c"}, {"R", "re"}, {"RA", "ra"}, {"SD", "sd"}, {"SN", "sn"}, {"SDZ", "sdz"}, {"SNZ", "snz"}, {"ZN", "zn"}, {"ZA", "za"}, {"ZT", "zt"}, {"ZD", "zd"}, {"F", "f"}, {"FS", "fs"}, {"FP", "fp"}, {"FZ", "fz"}, {"FZP", "fzp"}, {"FL", "fl"}, {"V", "v"}, {"VZ", "vz"}, {"INIT", "init"}, {0, 0}};
    for(int i = 0; m[i].c; i++) if(!strcmp(m[i].c, c)) return m[i].o;
    return c;
}
static void track(int id, int n0) { B[id].nreg0 = n0; B[id].nreg1 = nregs; }
static int sfree(int id) {     /* chunk size right before it is freed */
    blk_t *b = blk(id);
    if(b->st != LIVE) return 0;
    k_i("cf", clip(iso_chunksz((void *) b->p)));
    return 1;
}
#ifdef DRV_HOOK
#include "hook_ops.h"
#endif
#ifdef DRV_PROF
#include "prof_ops.h"
#endif
static void op(char **t, int n) {
    const char *c = t[0];
    cur_big = 0;
    cur_copy = c[0] == 'R' || c[0] == 'S' || c[0] == 'H' || !strcmp(c, "YR");
    int n0 = nregs;
    if(!strcmp(c, "A") || !strcmp(c, "AN")) {    /* AN: the program does not write to the block (as long as it is a sample) */
        size_t sz = U(2); set_big(sz);
        void *p = iso_alloc(sz);
        ev("a"); res(I(1), p, sz, 0); k_i("h", 0); track(I(1), n0);
        blk_t *b = &B[I(1)];
        if(c[1] && b->st == LIVE && !b->big && regs[b->rid - 1].op == cur_op && !zone_of(b->rid)) b->unw = 1;
        else take(I(1));
        ev_end();
    } else if(!strcmp(c, "C")) {
        size_t m = U(2), s = U(3);
        void *p = iso_calloc(m, s);
        set_big(p ? iso_chunksz(p) : m * s);
        int ov = __builtin_mul_overflow(m, s, &(size_t){0});
        ev("c"); k_i("ov", ov); k_i("m", clip(m)); k_i("es", clip(s)); { size_t rs; if(ov || s + 31 < s || __builtin_mul_overflow(m, (s + 31) & ~31UL, &rs) || rs > (1UL << 45)) rs = 1UL << 45; k_i("rs", clip(rs)); k_i("rp", clip((rs + PG - 1) / PG)); } res(I(1), p, ov ? 0 : m * s, 0); k_i("h", 0);
        if(B[I(1)].st == LIVE) k_i("z", ov ? 0 : is_zero(B[I(1)].p, m * s));
        track(I(1), n0); take(I(1)); ev_end();
    } else if(!strcmp(c, "R") || !strcmp(c, "RA")) {
        int oid = I(1), nid = I(2), ra = !strcmp(c, "RA");
        size_t m = ra ? U(3) : 1, sz = ra ? U(4) : U(3);
        int ov = __builtin_mul_overflow(m, sz, &(size_t){0});
        size_t tot = m * sz;
        set_big(tot);
        blk_t *b = oid ? blk(oid) : NULL, o;
        void *old = b ? (void *) b->p : NULL;
        if(b && b->st != LIVE) return;
        memset(&o, 0, sizeof o);
        ev(ra ? "ra" : "re"); k_i("old", oid); k_i("ov", ov);
        if(b) { o = *b; sfree(oid); }
        void *p = ra ? iso_reallocarray(old, m, sz) : iso_realloc(old, sz);
        if(b && (p != NULL || (tot == 0 && !ov))) to_freed(oid);
        res(nid, p, ov ? 0 : tot, 0); k_i("h", 0);
        blk_t *nb = &B[nid];
        if(b && nb->st == LIVE) {
            size_t k = o.us < tot ? o.us : tot, w = k / 8, bad = 0;
            uint64_t *q = (uint64_t *) nb->p;
            for(size_t i = 0; i < w; i++) {
                if(!win_has(&o, i)) { i = words(&o) - 2048 - 1; continue; }
                if((i + 1) * 8 > nb->us) break;
                if(q[i] != pat(o.seed, i)) { bad++; break; }
            }
            if(!bad && k % 8 && win_has(&o, w)) { uint64_t v = pat(o.seed, w); for(size_t i = 0; i < k % 8; i++) if(((uint8_t *) (q + w))[i] != ((uint8_t *) &v)[i]) bad = 1; }
            k_i("cmp", bad == 0);
        }
        track(nid, n0); take(nid); ev_end();
    } else if(!strcmp(c, "SD") || !strcmp(c, "SDZ") || !strcmp(c, "SN") || !strcmp(c, "SNZ")) {
        int zn = c[2] == 'Z', snd = c[1] == 'N', k = zn ? 2 : 1, h = zn ? I(1) : 0;
        long id = I(k), len = I(k + 1);
        size_t nn = snd ? U(k + 2) : 0;
        char *s = NULL;
        /* a source for strndup need not be terminated within n characters */
        if(len >= 0) s = gstr(len, !(snd && nn <= (size_t) len));
        size_t cp = len < 0 ? 0 : snd ? (nn < (size_t) len ? nn : (size_t) len) : (size_t) len;
        set_big(cp + 1);
        char *p = snd ? (zn ? iso_strndup_from_zone(Hn[h].z, s, nn) : iso_strndup(s, nn)) : (zn ? iso_strdup_from_zone(Hn[h].z, s) : iso_strdup(s));
        ev(opname(c)); k_i("h", h); k_i("len", len); k_i("cp", cp);
        blk_t *nb = blk(id);
        res(id, p, len < 0 ? 0 : cp + 1, h);
        if(nb->st == LIVE) {
            int ok = accessible(nb->p, cp + 1);
            for(size_t i = 0; ok && i < cp; i++) if(((char *) nb->p)[i] != s[i]) ok = 0;
            k_i("cmp", ok);
            k_i("nt", accessible(nb->p, cp + 1) && ((char *) nb->p)[cp] == 0);
        }
        track(id, n0); take(id); ev_end();
    } else if(!strcmp(c, "ZN")) {
        int h = I(1); size_t sz = U(2);
        zh_t *z = iso_alloc_new_zone(sz);
        ev("zn"); k_i("h", h); k_i("sz", clip(sz)); k_i("ok", z != NULL); k_i("hp", z != NULL && page_prot((uintptr_t) z) != 0);
        sight();
        memset(&Hn[h], 0, sizeof(Hn[h]));
        if(h > maxh) maxh = h;
        Hn[h].z = z;
        if(z && nz && Z[nz - 1].rid > n0) { Hn[h].rid = Z[nz - 1].rid; Hn[h].csz = Z[nz - 1].csz; Hn[h].start = Z[nz - 1].s; }
        k_i("zr", Hn[h].rid);
        ev_end();
    } else if(!strcmp(c, "ZA") || !strcmp(c, "ZT")) {
        int h = I(1), id = I(2);
        void *p = c[1] == 'T' ? iso_alloc_from_zone_tagged(Hn[h].z) : iso_alloc_from_zone(Hn[h].z);
        ev(opname(c)); k_i("h", h); res(id, p, Hn[h].csz, h);
        blk_t *b = &B[id];
        track(id, n0);
        if(b->st == LIVE && CF.tags && h) {
            uintptr_t tp = (uintptr_t) iso_alloc_tag_ptr((void *) b->p, Hn[h].z);
            if(c[1] == 'T') b->tp = (uintptr_t) p; else b->tp = tp;
            k_i("tok", (tp & 0x00ffffffffffffffUL) == b->p && (int) (tp >> 56) == b->tag && (uintptr_t) iso_alloc_untag_ptr((void *) tp, Hn[h].z) == b->p && (c[1] != 'T' || b->tp == tp));
            iso_alloc_verify_ptr_tag((void *) b->tp, Hn[h].z);
        }
        take(id); ev_end();
    } else if(!strcmp(c, "ZD")) {
        int h = I(1);
        iso_alloc_destroy_zone(h ? Hn[h].z : NULL);
        ev("zd"); k_i("h", h);
        for(int i = 1; i <= maxid; i++) if(h && B[i].h == h && B[i].st != NONE) { if(B[i].st == FREED) continue; B[i].st = LOST; B[i].h = 0; }
        for(int i = 100000; h && i < nextg; i++) if(B[i].h == h && B[i].st == LIVE) B[i].st = LOST;
        if(h) { Hn[h].z = NULL; Hn[h].rid = 0; }
        ev_end();
    } else if(!strcmp(c, "F") || !strcmp(c, "FS") || !strcmp(c, "FP") || !strcmp(c, "FZ") || !strcmp(c, "FZP") || !strcmp(c, "FZT")) {
        int z = c[1] == 'Z', h = z ? I(1) : 0, id = z ? I(2) : I(1);
        size_t sz = !strcmp(c, "FS") ? U(2) : 0;
        ev(!strcmp(c, "FZT") ? "fz" : opname(c)); k_i("id", id); k_i("h", h); k_i("fsz", clip(sz));
        void *p = NULL;
        if(id) {
            blk_t *b = blk(id);
            if(b->st != LIVE) { on = 0; return; }
            sfree(id);
            p = (void *) b->p;
            if(!strcmp(c, "FZT") && b->tp) p = (void *) b->tp;
            to_freed(id);
            if(!strcmp(c, "FP") || !strcmp(c, "FZP")) { b->st = PERM; npend--; }
        }
        free_by(!strcmp(c, "FZT") ? "FZ" : c, p, h, sz);
        if(id && B[id].st == PERM) { canary_of(&B[id], id); char cc[2] = {content(&B[id]), 0}; k_s("ct", cc); }
        ev_end();
    } else if(!strcmp(c, "FN")) {   /* frees of NULL and of the zero-size address */
        iso_free(NULL); iso_free_size(NULL, 0); iso_free_size(NULL, 70000); iso_free_permanently(NULL);
        if(I(1)) { iso_free_from_zone(NULL, Hn[I(1)].z); iso_free_from_zone_permanently(NULL, Hn[I(1)].z); }
        iso_free_from_zone(NULL, NULL);
        size_t q = iso_chunksz(NULL);
        if(zeropage) { iso_free(zeropage); iso_free(zeropage); iso_free_size(zeropage, 0); iso_free_permanently(zeropage); q += iso_chunksz(zeropage); }
        ev("fn"); k_i("cs", q); ev_end();
    } else if(!strcmp(c, "FL")) { iso_flush_caches(); ev("fl"); ev_end();
    } else if(!strcmp(c, "V")) { iso_verify_zones(); ev("v"); ev_end();
    } else if(!strcmp(c, "VZ")) { iso_verify_zone(I(1) ? Hn[I(1)].z : NULL); ev("vz"); k_i("h", I(1)); ev_end();
    } else if(!strcmp(c, "Q")) {
        blk_t *b = blk(I(1));
        if(b->st != LIVE) return;
        size_t s = iso_chunksz((void *) b->p);
        ev("q"); k_i("id", I(1)); k_i("cs", clip(s)); k_i("cp", clip(s / PG)); ev_end();
    } else if(!strcmp(c, "CC")) { size_t s = iso_zone_chunk_count(Hn[I(1)].z); ev("cc"); k_i("h", I(1)); k_i("n", clip(s)); ev_end();
    } else if(!strcmp(c, "LK")) { uint64_t s = iso_alloc_detect_leaks(); ev("lkq"); k_i("n", clip(s)); k_i("nk", clip(s / PG)); k_i("nb", s % PG); ev_end();
    } else if(!strcmp(c, "LKZ")) { uint64_t s = iso_alloc_detect_zone_leaks(I(1) ? Hn[I(1)].z : NULL); ev("lkz"); k_i("h", I(1)); k_i("n", clip(s)); ev_end();
    } else if(!strcmp(c, "MU")) { uint64_t s = iso_alloc_mem_usage(); ev("mu"); k_i("n", clip(s)); ev_end();
    } else if(!strcmp(c, "MUZ")) { uint64_t s = iso_alloc_zone_mem_usage(I(1) ? Hn[I(1)].z : NULL); ev("muz"); k_i("h", I(1)); k_i("n", clip(s)); ev_end();
    } else if(!strcmp(c, "NM")) { iso_alloc_name_zone(I(1) ? Hn[I(1)].z : NULL, "test zone"); ev("nm"); k_i("h", I(1)); ev_end();
    } else if(!strcmp(c, "PR")) { iso_alloc_protect_root(); protected_ = 1; ev("pr"); ev_end();
    } else if(!strcmp(c, "UP")) { iso_alloc_unprotect_root(); protected_ = 0; ev("up"); ev_end();
    } else if(!strcmp(c, "CH")) do_churn(I(1), U(2), I(3));
    else if(!strcmp(c, "FI")) do_fill(I(1), I(2), U(3), I(4));
    else if(!strcmp(c, "FG")) do_freegrp(I(1), n > 2 ? t[2] : "S", I(3), n > 4 ? I(4) : 0, n > 5 ? I(5) : -1);
    else if(!strcmp(c, "X")) { iso_alloc_destroy(); destroyed = 1; ev("x"); ev_end(); }
    else if(!strcmp(c, "INIT")) { iso_alloc_initialize(); zeropage = CF.nozero ? iso_alloc(0) : NULL; ev("init"); ev_end(); }
    else if(!strcmp(c, "PF")) probe_free(t[1], I(2), U(3), t[4], I(5), I(6));
    else if(!strcmp(c, "PC")) probe_corrupt(t[1], I(2), I(3), I(4), I(5), t[6], I(7), I(8));
    else if(!strcmp(c, "PM")) probe_meta(I(1), I(2), I(3), t[4], I(5), I(6));
    else if(!strcmp(c, "PS")) probe_sample(I(1), I(2), t[3]);
    else if(!strcmp(c, "PT")) probe_touch(t[1], I(2), I(3));
    else if(!strcmp(c, "PTAG")) probe_tag(t[1], I(2), I(3), I(4), I(5), I(6));
#ifdef DRV_MEM
    else if(!strcmp(c, "MEM")) probe_mem(I(1), I(2), I(3), I(4), I(5), U(6), I(7));
#endif
#ifdef DRV_HOOK
    else if(c[0] == 'H') hook_op(t, n, n0);
#endif
#ifdef DRV_PROF
    else if(c[0] == 'Y') prof_op(t, n);
#endif
    else if(!strcmp(c, "UW")) { blk_t *b = blk(I(1)); if(b->st == LIVE && b->unw) { b->unw = 0; take(I(1)); } }   /* first write */
    else if(!strcmp(c, "UR")) {    /* read from a block that may not have been written to */
        blk_t *b = blk(I(1));
        if(b->st != LIVE || b->us == 0) return;
        ur_id = I(1); ur_off = I(2) % (int) b->us; ur_unw = b->unw;
        (void) *(volatile uint8_t *) (b->p + ur_off);
        ur_ev(0);
        ur_id = 0;
    }
    else if(!strcmp(c, "ES")) {    /* the entropy drawn from here on */
        rnd_state = strtoull(getenv("DRV_SEED2") ? getenv("DRV_SEED2") : "1", 0, 0) | 1;
        ev("es"); ev_end();
    }
    else if(!strcmp(c, "CPU")) { cpu_now = I(1); ev("cpu"); k_i("n", cpu_now); ev_end(); }
    else if(!strcmp(c, "WRP")) {   /* keep the address of a block in another one */
        blk_t *b = blk(I(1)), *g = blk(I(3));
        long off = I(2), dl = I(4);
        if(b->st != LIVE || g->st != LIVE || off + 8 > (long) b->us || npt >= 4000) return;
        for(int i = 0; i < npt; i++) if(PT[i].id == I(1) && PT[i].off < off + 8 && off < PT[i].off + 8) return;
        uintptr_t v = g->p + dl;
        memcpy((void *) (b->p + off), &v, 8);
        PT[npt].id = I(1); PT[npt].off = off; PT[npt].tgt = I(3); PT[npt++].v = v;
        ev("wrp"); k_i("id", I(1)); k_i("off", off); k_i("tgt", I(3)); k_i("dl", dl > 1000000 ? 1000000000 : dl); ev_end();
    }
    else if(!strcmp(c, "WR")) { /* write one byte of a live block, for tests of the tests */ blk_t *b = blk(I(1)); ((volatile uint8_t *) b->p)[I(2)] ^= 1; ev("wr"); ev_end(); }
    else { fprintf(stderr, "unknown command %s\n", c); _exit(94); }
}
static void exec_line(char *line) {
    char *t[24], buf[4096];
    strcpy(buf, line);
    strcpy(curline, line);
    int n = toks(buf, t);
    if(n == 0 || t[0][0] == '#') return;
    tick(20);
    if(!strcmp(t[0], "T")) {          /* in a child: the call may legitimately end the process */
        pid_t pid = fork();
        if(pid == 0) { child_begin(); op(t + 1, n - 1); stage(1); _exit(0); }
        int code, sig = reap(pid, &code);
        if(sig) on_fault("try", opname(t[1]), t + 1, n - 1, 0, sig);
        return;
    }
    if(!strcmp(t[0], "PI")) {         /* the k-th system request in the call fails, for every k */
        int max = I(1);
        for(int k = 1; k <= max; k++) {
            pid_t pid = fork();
            if(pid == 0) {
                child_begin(); in_try = 0; in_fi = k;
                fi_k = k; fi_hit = 0;
                op(t + 2, n - 2);
                int hit = fi_hit;
                fi_k = 0;
                stage(1);
                if(!destroyed) { iso_flush_caches(); iso_verify_zones(); }
                stage(2);
                _exit(hit ? 10 : 11);
            }
            int code, sig = reap(pid, &code);
            if(sig) on_fault("fi", opname(t[2]), t + 2, n - 2, k, sig);
            if(!sig && code == 11) break;
        }
        return;
    }
    /* a refused request ends the process: try it in a child first */
    static const char *al[] = {"A", "C", "R", "RA", "SD", "SN", "SDZ", "SNZ", "ZA", "ZT"};
    if(CF.abortnull) for(int i = 0; i < 10; i++) if(!strcmp(t[0], al[i])) {
        pid_t pid = fork();
        if(pid == 0) { child_begin(); mute = 1; op(t, n); stage(1); _exit(0); }
        int code, sig = reap(pid, &code);
        if(sig) { on_fault("try", opname(t[0]), t, n, 0, sig); return; }
    }
    op(t, n);
}

static int drv_main(int argc, char **argv);
#define DEEP(n, f) static __attribute__((noinline)) int deep##n(int c, char **v) { int r = f(c, v); __asm__ volatile("" ::: "memory"); return r; }
DEEP(0, drv_main) DEEP(1, deep0) DEEP(2, deep1) DEEP(3, deep2) DEEP(4, deep3) DEEP(5, deep4) DEEP(6, deep5) DEEP(7, deep6) DEEP(8, deep7) DEEP(9, deep8)
int main(int argc, char **argv) { return deep9(argc, argv); }
static int drv_main(int argc, char **argv) {
    if(argc < 3) return 2;
    cfg_init();
    if(CF.cpupin) { unsigned cpu = 0; syscall(SYS_getcpu, &cpu, NULL, NULL); cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
    ofd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    if(ofd < 0) return 2;
    B = (blk_t *) syscall(SYS_mmap, 0, MAXB * sizeof(blk_t), 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pend = (int *) syscall(SYS_mmap, 0, MAXB * 8UL, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    livel = (int *) syscall(SYS_mmap, 0, MAXB * 8UL, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shst = (int *) syscall(SYS_mmap, 0, PG, 3, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    o_room(65536);
    nz_add("");
    catch_sigs();
    FILE *f = fopen(argv[1], "r");
    if(!f) return 2;
    cur_op = 0;
    twin = getenv("DRV_TWIN") != NULL;
    tick(20);
    strcpy(curline, "start");
    if(CF.autoinit) { zeropage = CF.nozero ? iso_alloc(0) : NULL; }
    ev("reset");
    k_s("cfg", getenv("DRV_CFG") ? getenv("DRV_CFG") : "base");
    k_i("gran", CF.granule); k_i("small", CF.smallmax); k_i("zpg", CF.zone_pages); k_i("qcap", CF.quarantine); k_i("ret", CF.retire);
    k_i("waste", CF.big_waste); k_i("blist", CF.big_list); k_i("bttl", CF.big_ttl); k_i("cdiv", CF.canary_div); k_i("smax", CF.san_max);
    k_i("tags", CF.tags); k_i("san", CF.sanitize); k_i("nocan", CF.nocanary); k_i("strong", CF.strong); k_i("bg", CF.bigguard); k_i("bmg", CF.bigmetaguard);
    k_i("pfb", CF.protfree); k_i("sane", CF.sanity); k_i("nozero", CF.nozero); k_i("prre", CF.permrealloc); k_i("aon", CF.abortnull); k_i("leak", CF.leak); k_i("thr", CF.threads);
    k_i("mcs", CF.memcpys); k_i("mss", CF.memsets); k_i("prof", CF.profiler); k_i("thr", CF.threads); k_i("spin", CF.spin); k_i("dtor", CF.dtorclean); k_i("auto", CF.autoinit);
    k_i("cores", CF.cores); k_i("mask", CF.mask); k_i("uaf", CF.uaf); k_i("uodds", CF.uodds); k_i("fuzz", CF.fuzz); k_i("unin", CF.unin); k_i("rnd", CF.rnd); k_i("late", getenv("DRV_SEED2") != NULL);
    o_s(",\"def\":[");
    for(int i = 0; i < CF.ndef; i++) { if(i) o_s(","); o_i(CF.def[i]); }
    o_s("]");
    ev_end();
    static char line[4096];
    while(fgets(line, sizeof line, f)) exec_line(line);
    on = 0;
    ev("end"); o_s("}\n"); o_flush();
    if(destroyed) _exit(0);
    alarm(30);
    strcpy(curline, "exit");
    return 0;   /* destructor runs: an abort there is reported by the handler */
}
