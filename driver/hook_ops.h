/* calls through the replaced libc and C++ interfaces: same events as the native calls, marked with "via" */
static void hook_op(char **t, int n, int n0) {
    const char *c = t[0];
    if(!strcmp(c, "HM")) {               /* HM id size how */
        size_t sz = U(2); int how = I(3); set_big(sz);
        void *p = how == 0 ? hk_malloc(sz) : how == 1 ? hk___libc_malloc(sz) : hk___malloc_hook(sz, NULL);
        ev("a"); k_i("via", 1); res(I(1), p, sz, 0); k_i("h", 0); track(I(1), n0); take(I(1)); ev_end();
    } else if(!strcmp(c, "HC")) {        /* HC id n size how */
        size_t m = U(2), s = U(3); int how = I(4);
        void *p = how ? hk___libc_calloc(m, s) : hk_calloc(m, s);
        set_big(p ? iso_chunksz(p) : m * s);
        int ov = __builtin_mul_overflow(m, s, &(size_t){0});
        ev("c"); k_i("via", 1); k_i("ov", ov); k_i("m", clip(m)); k_i("es", clip(s));
        { size_t rs; if(ov || s + 31 < s || __builtin_mul_overflow(m, (s + 31) & ~31UL, &rs) || rs > (1UL << 45)) rs = 1UL << 45; k_i("rs", clip(rs)); k_i("rp", clip((rs + PG - 1) / PG)); }
        res(I(1), p, ov ? 0 : m * s, 0); k_i("h", 0);
        if(B[I(1)].st == LIVE) k_i("z", ov ? 0 : is_zero(B[I(1)].p, m * s));
        track(I(1), n0); take(I(1)); ev_end();
    } else if(!strcmp(c, "HR") || !strcmp(c, "HRA")) {   /* HR old new size how; HRA old new n size how */
        int oid = I(1), nid = I(2), ra = !strcmp(c, "HRA"), how = ra ? I(5) : I(4);
        size_t m = ra ? U(3) : 1, sz = ra ? U(4) : U(3), tot = m * sz;
        int ov = __builtin_mul_overflow(m, sz, &(size_t){0});
        set_big(tot);
        blk_t *b = oid ? blk(oid) : NULL, o;
        void *old = b ? (void *) b->p : NULL;
        if(b && b->st != LIVE) return;
        memset(&o, 0, sizeof o);
        ev(ra ? "ra" : "re"); k_i("via", 1); k_i("old", oid); k_i("ov", ov);
        if(b) { o = *b; sfree(oid); }
        void *p = ra ? (how ? hk___libc_reallocarray(old, m, sz) : hk_reallocarray(old, m, sz)) : how == 0 ? hk_realloc(old, sz) : how == 1 ? hk___libc_realloc(old, sz) : hk___realloc_hook(old, sz, NULL);
        if(b && (p != NULL || (tot == 0 && !ov))) to_freed(oid);
        res(nid, p, ov ? 0 : tot, 0); k_i("h", 0);
        blk_t *nb = &B[nid];
        if(b && nb->st == LIVE) {
            size_t k = o.us < tot ? o.us : tot, bad = 0;
            uint64_t *q = (uint64_t *) nb->p;
            for(size_t i = 0; i < k / 8; i++) {
                if(!win_has(&o, i)) { i = words(&o) - 2048 - 1; continue; }
                if((i + 1) * 8 > nb->us) break;
                if(q[i] != pat(o.seed, i)) { bad++; break; }
            }
            k_i("cmp", bad == 0);
        }
        track(nid, n0); take(nid); ev_end();
    } else if(!strcmp(c, "HF")) {        /* HF id how */
        int id = I(1), how = I(2);
        ev("f"); k_i("via", 1); k_i("id", id); k_i("h", 0); k_i("fsz", 0);
        void *p = NULL;
        if(id) { blk_t *b = blk(id); if(b->st != LIVE) { on = 0; return; } sfree(id); p = (void *) b->p; to_freed(id); }
        if(how == 0) hk_free(p); else if(how == 1) hk___libc_free(p); else hk___free_hook(p, NULL);
        ev_end();
    } else if(!strcmp(c, "HP")) {        /* HP id align size how */
        size_t a = U(2), sz = U(3); int how = I(4);
        size_t eff = sz < a && a && !(a & (a - 1)) ? a : sz;
        set_big(eff);
        void *p = (void *) 0x5a5a;
        int rc = how ? hk___posix_memalign(&p, a, sz) : hk_posix_memalign(&p, a, sz);
        ev("hp"); k_i("via", 1); k_i("a", clip(a)); k_i("pw", a && !(a & (a - 1))); k_i("rc", rc);
        if(rc && p == (void *) 0x5a5a) p = NULL;           /* the result is unspecified then */
        k_i("okal", p == NULL || a == 0 || (uintptr_t) p % a == 0);
        res(I(1), p, eff, 0); k_i("h", 0); track(I(1), n0); take(I(1)); ev_end();
    } else if(!strcmp(c, "HA")) {        /* HA how id align size: 0 aligned_alloc 1 memalign 2 __libc_memalign 3 hook */
        int how = I(1); size_t a = U(3), sz = U(4); set_big(sz);
        void *p = how == 0 ? hk_aligned_alloc(a, sz) : how == 1 ? hk_memalign(a, sz) : how == 2 ? hk___libc_memalign(a, sz) : hk___memalign_hook(a, sz, NULL);
        ev("ha"); k_i("via", 1); k_i("a", clip(a)); k_i("okal", p == NULL || (uintptr_t) p % a == 0);
        res(I(2), p, sz, 0); k_i("h", 0); track(I(2), n0); take(I(2)); ev_end();
    } else if(!strcmp(c, "HU")) {        /* HU id */
        int id = I(1);
        if(id == 0) { ev("fn"); k_i("via", 1); k_i("cs", hk_malloc_usable_size(NULL) + (zeropage ? hk_malloc_usable_size(zeropage) : 0)); ev_end(); return; }
        blk_t *b = blk(id);
        if(b->st != LIVE) return;
        size_t s = hk_malloc_usable_size((void *) b->p);
        ev("q"); k_i("via", 1); k_i("id", id); k_i("cs", clip(s)); k_i("cp", clip(s / PG)); ev_end();
    } else if(!strcmp(c, "HN")) {        /* HN flav id size align */
        int f = I(1), th; size_t sz = U(3), a = f >= 4 ? U(4) : 8; set_big(sz);
        void *p = cpp_new(f, sz, a, &th);
        ev("hn"); k_i("via", 1); k_i("fv", f); k_i("a", clip(a)); k_i("thr", th); k_i("throws", f == 0 || f == 1 || f == 4 || f == 5);
        k_i("okal", p == NULL || (uintptr_t) p % a == 0);
        res(I(2), p, sz, 0); k_i("h", 0); track(I(2), n0); take(I(2)); ev_end();
    } else if(!strcmp(c, "HD")) {        /* HD flav id */
        int f = I(1), id = I(2), sized = f == 2 || f == 3;
        ev(sized ? "fs" : "f"); k_i("via", 1); k_i("id", id); k_i("h", 0); k_i("fsz", 0);
        void *p = NULL; size_t sz = 0;
        if(id) { blk_t *b = blk(id); if(b->st != LIVE) { on = 0; return; } sfree(id); p = (void *) b->p; sz = b->req; to_freed(id); }
        cpp_delete(f, p, sz, 8);
        ev_end();
    } else if(!strcmp(c, "HX")) { cpp_handler(I(1)); ev("hx"); ev_end(); }
    else { fprintf(stderr, "unknown command %s\n", c); _exit(94); }
}
