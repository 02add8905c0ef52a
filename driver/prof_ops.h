/* calls through recognisable call paths, and the profiler's queries. A path is a pair of functions: which
 * trampoline (p0..p159) and which kind of call (qA qC qR qZ qF qP) */
typedef struct { int kind; void *p; size_t a, b; zh_t *z; void *r; } pcall_t;
#define QF(n, body) static __attribute__((noinline, section("pkind"))) void q##n(pcall_t *c) { body; __asm__ volatile("" ::: "memory"); }
QF(A, c->r = iso_alloc(c->a))
QF(C, c->r = iso_calloc(c->a, c->b))
QF(R, c->r = iso_realloc(c->p, c->a))
QF(Z, c->r = iso_alloc_from_zone(c->z))
QF(F, iso_free(c->p))
QF(P, iso_free_permanently(c->p))
static void (*const kinds[])(pcall_t *) = {qA, qC, qR, qZ, qF, qP};
#define PF1(n) static __attribute__((noinline, section("ppath"))) void p##n(pcall_t *c) { kinds[c->kind](c); __asm__ volatile("" ::: "memory"); }
#define PF10(n) PF1(n##0) PF1(n##1) PF1(n##2) PF1(n##3) PF1(n##4) PF1(n##5) PF1(n##6) PF1(n##7) PF1(n##8) PF1(n##9)
PF10(1) PF10(2) PF10(3) PF10(4) PF10(5) PF10(6) PF10(7) PF10(8) PF10(9) PF10(10) PF10(11) PF10(12) PF10(13) PF10(14) PF10(15) PF10(16)
#define PN1(n) p##n,
#define PN10(n) PN1(n##0) PN1(n##1) PN1(n##2) PN1(n##3) PN1(n##4) PN1(n##5) PN1(n##6) PN1(n##7) PN1(n##8) PN1(n##9)
static void (*const paths[])(pcall_t *) = {PN10(1) PN10(2) PN10(3) PN10(4) PN10(5) PN10(6) PN10(7) PN10(8) PN10(9) PN10(10) PN10(11) PN10(12) PN10(13) PN10(14) PN10(15) PN10(16)};
#define NPATH ((int) (sizeof(paths) / sizeof(paths[0])))
extern char __start_ppath[], __stop_ppath[], __start_pkind[], __stop_pkind[];
static int which(void (*const *f)(pcall_t *), int n, char *lo, char *hi, uint64_t a) {
    if(a < (uintptr_t) lo || a > (uintptr_t) hi) return -1;
    int best = -1;
    for(int i = 0; i < n; i++) if((uintptr_t) f[i] < a && (best < 0 || (uintptr_t) f[i] > (uintptr_t) f[best])) best = i;
    return best;
}
static int key_of(uint64_t *cs) {
    int p = -1, k = -1;
    for(int i = 0; i < BACKTRACE_DEPTH; i++) {
        if(k < 0) k = which(kinds, 6, __start_pkind, __stop_pkind, cs[i]);
        if(p < 0) p = which(paths, NPATH, __start_ppath, __stop_ppath, cs[i]);
    }
    return k < 0 || p < 0 ? 0 : (p + 1) * 10 + k;
}
static void callp(int path, pcall_t *c) { paths[path % NPATH](c); }
/* the profile written at exit */
static void read_profile(void) {
    long al = -1, as = -1, fr = -1, fs = -1, na = 0, nf = 0, sa = 0, sf = 0, x;
    FILE *f = fopen("iso_alloc_profiler.data", "r");
    char l[512], *q;
    while(f && fgets(l, sizeof l, f)) {
        if(sscanf(l, "allocated=%ld", &x) == 1) al = x;
        else if(sscanf(l, "alloc_sampled=%ld", &x) == 1) as = x;
        else if(sscanf(l, "freed=%ld", &x) == 1) fr = x;
        else if(sscanf(l, "free_sampled=%ld", &x) == 1) fs = x;
        else if(!strncmp(l, "alloc_backtrace", 15) && (q = strstr(l, "calls="))) { na++; sa += strtol(q + 6, 0, 0); }
        else if(!strncmp(l, "free_backtrace", 14) && (q = strstr(l, "calls="))) { nf++; sf += strtol(q + 6, 0, 0); }
    }
    if(f) fclose(f);
    o_s(",\"pf\":["); o_i(al); o_s(","); o_i(as); o_s(","); o_i(fr); o_s(","); o_i(fs); o_s(","); o_i(na); o_s(","); o_i(sa); o_s(","); o_i(nf); o_s(","); o_i(sf); o_s("]");
}
static void prof_op(char **t, int n) {
    const char *c = t[0];
    int n0 = nregs;
    pcall_t q;
    memset(&q, 0, sizeof q);
    if(!strcmp(c, "YA")) {          /* YA path id size */
        q.kind = 0; q.a = U(3); set_big(q.a);
        callp(I(1), &q);
        ev("a"); k_i("pk", (I(1) % NPATH + 1) * 10); res(I(2), q.r, q.a, 0); k_i("h", 0); track(I(2), n0); take(I(2)); ev_end();
    } else if(!strcmp(c, "YC")) {   /* YC path id n size */
        size_t m = U(3), s = U(4);
        q.kind = 1; q.a = m; q.b = s;
        set_big(m * s);
        callp(I(1), &q);
        ev("c"); k_i("pk", (I(1) % NPATH + 1) * 10 + 1); k_i("ov", 0); k_i("m", clip(m)); k_i("es", clip(s)); { size_t rs = m * ((s + 31) & ~31UL); k_i("rs", clip(rs)); k_i("rp", clip((rs + PG - 1) / PG)); }
        res(I(2), q.r, m * s, 0); k_i("h", 0);
        if(B[I(2)].st == LIVE) k_i("z", is_zero(B[I(2)].p, m * s));
        track(I(2), n0); take(I(2)); ev_end();
    } else if(!strcmp(c, "YR")) {   /* YR path old new size */
        int oid = I(2), nid = I(3); size_t sz = U(4);
        blk_t *b = oid ? blk(oid) : NULL;
        if(b && b->st != LIVE) return;
        set_big(sz);
        q.kind = 2; q.p = b ? (void *) b->p : NULL; q.a = sz;
        ev("re"); k_i("pk", (I(1) % NPATH + 1) * 10 + 2); k_i("old", oid); k_i("ov", 0);
        if(b) sfree(oid);
        callp(I(1), &q);
        if(b && (q.r != NULL || sz == 0)) to_freed(oid);
        res(nid, q.r, sz, 0); k_i("h", 0);
        track(nid, n0); take(nid); ev_end();
    } else if(!strcmp(c, "YZ")) {   /* YZ path h id */
        int h = I(2);
        q.kind = 3; q.z = Hn[h].z;
        callp(I(1), &q);
        ev("za"); k_i("pk", (I(1) % NPATH + 1) * 10 + 3); k_i("h", h); res(I(3), q.r, Hn[h].csz, h); track(I(3), n0); take(I(3)); ev_end();
    } else if(!strcmp(c, "YF") || !strcmp(c, "YP")) {   /* YF path id */
        int id = I(2), perm = c[1] == 'P';
        blk_t *b = blk(id);
        if(b->st != LIVE) return;
        ev(perm ? "fp" : "f"); k_i("pk", (I(1) % NPATH + 1) * 10 + 4 + perm); k_i("id", id); k_i("h", 0); k_i("fsz", 0);
        sfree(id);
        q.kind = 4 + perm; q.p = (void *) b->p;
        to_freed(id);
        if(perm) { b->st = PERM; npend--; }
        callp(I(1), &q);
        if(perm) { char cc[2] = {content(b), 0}; k_s("ct", cc); }
        ev_end();
    } else if(!strcmp(c, "YQ")) {   /* both queries */
        static iso_alloc_traces_t at[160]; static iso_free_traces_t ft[160];
        memset(at, 0xa5, sizeof at); memset(ft, 0xa5, sizeof ft);
        size_t na = iso_get_alloc_traces(at), nf = iso_get_free_traces(ft);
        ev("tr"); k_i("na", clip(na)); k_i("nf", clip(nf));
        long over = 0;
        for(size_t i = (na < 160 ? na : 160) * sizeof(at[0]); i < sizeof at; i++) if(((uint8_t *) at)[i] != 0xa5) over++;
        for(size_t i = (nf < 160 ? nf : 160) * sizeof(ft[0]); i < sizeof ft; i++) if(((uint8_t *) ft)[i] != 0xa5) over++;
        k_i("over", over);
        o_s(",\"ea\":[");
        for(size_t i = 0; i < na && i < 160; i++) { o_s(i ? ",[" : "["); o_i(key_of(at[i].callers)); o_s(","); o_i(at[i].backtrace_hash); o_s(","); o_i(clip(at[i].call_count)); o_s(","); o_i(clip(at[i].lower_bound_size)); o_s(","); o_i(clip(at[i].upper_bound_size)); o_s("]"); }
        o_s("],\"ef\":[");
        for(size_t i = 0; i < nf && i < 160; i++) { o_s(i ? ",[" : "["); o_i(key_of(ft[i].callers)); o_s(","); o_i(ft[i].backtrace_hash); o_s(","); o_i(clip(ft[i].call_count)); o_s("]"); }
        o_s("]");
        ev_end();
    } else if(!strcmp(c, "YRST")) { iso_alloc_reset_traces(); ev("trr"); ev_end();
    } else if(!strcmp(c, "YX")) { iso_alloc_destroy(); destroyed = 1; ev("x"); read_profile(); ev_end();
    } else { fprintf(stderr, "unknown command %s\n", c); _exit(94); }
}
