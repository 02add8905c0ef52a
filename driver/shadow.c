#include "shadow.h"

reg_t *regs;
int nregs;
int first_live;   /* regions below this index are gone */
int cur_op;
int wild;
int live_regions;
int sys_calls;
long mm_gen;
int fi_k, fi_hit, fi_kind;
int place_mode;
uint64_t rnd_state = 88172645463325252ULL;
static int sh_init;

static void die(const char *m) { (void) !write(2, m, strlen(m)); _exit(97); }

/* the allocator may initialise itself before main */
static void setup(void) {
    if(sh_init) return;
    sh_init = 1;
    regs = (reg_t *) syscall(SYS_mmap, 0, MAXREG * sizeof(reg_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    const char *s = getenv("DRV_SEED");
    if(s) rnd_state = strtoull(s, NULL, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    if(rnd_state == 0) rnd_state = 1;
    s = getenv("DRV_PLACE");
    if(s) place_mode = atoi(s);
    s = getenv("DRV_FAULT");
    if(s) fi_k = atoi(s);
}

void mm_reset(void) {
    wild = 0;
    sys_calls = 0;
    for(int i = first_live; i < nregs; i++) { regs[i].dn = 0; regs[i].chg = 0; }
    while(first_live < nregs && regs[first_live].present == 0) first_live++;
}

static reg_t *last_hit;
reg_t *reg_find(uintptr_t a) {
    if(last_hit && last_hit->present && a >= last_hit->start && a < last_hit->start + last_hit->np * PG && last_hit->pp[(a - last_hit->start) / PG]) return last_hit;
    for(int i = nregs - 1; i >= first_live; i--) {
        reg_t *r = &regs[i];
        if(r->present && a >= r->start && a < r->start + r->np * PG && r->pp[(a - r->start) / PG]) { last_hit = r; return r; }
    }
    return NULL;
}

int page_prot(uintptr_t a) {
    reg_t *r = reg_find(a);
    return r ? r->pp[(a - r->start) / PG] : 0;
}

int reg_run(reg_t *r, uintptr_t a, uintptr_t *s, uintptr_t *e, int *prot) {
    size_t i = (a - r->start) / PG, j = i;
    uint8_t v = r->pp[i];
    while(i > 0 && r->pp[i - 1] == v) i--;
    while(j + 1 < r->np && r->pp[j + 1] == v) j++;
    *s = r->start + i * PG;
    *e = r->start + (j + 1) * PG;
    *prot = v;
    int n = 1;
    for(size_t k = 1; k <= i; k++) if(r->pp[k] != r->pp[k - 1]) n++;
    return n;
}

static uint64_t rnd(void) {
    rnd_state ^= rnd_state << 13;
    rnd_state ^= rnd_state >> 7;
    rnd_state ^= rnd_state << 17;
    return rnd_state * 0x2545F4914F6CDD1DULL;
}

static uintptr_t dense_next = 0x200000000000ULL;

static int inject(int kind) {
    sys_calls++;
    if(fi_k > 0 && --fi_k == 0) {
        fi_hit = 1;
        fi_kind = kind;
        return 1;
    }
    return 0;
}

static uint8_t protv(int prot) { return prot == PROT_NONE ? P_NONE : (prot & PROT_WRITE) ? P_RW : P_RO; }

void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    if(fd != -1) return (void *) syscall(SYS_mmap, addr, len, prot, flags, fd, off);
    setup();
    if(inject(1)) { errno = ENOMEM; return MAP_FAILED; }
    size_t np = (len + PG - 1) / PG;
    void *p = MAP_FAILED;
    if(flags & MAP_HUGETLB) { errno = ENOMEM; return MAP_FAILED; }
    if(place_mode) {
        /* 1: one window, a page apart; 2: ascending and adjacent; 3: adjacent, descending */
        uintptr_t a;
        for(int t = 0; t < 64 && p == MAP_FAILED; t++) {
            if(place_mode == 3) { a = dense_next - np * PG; dense_next = a; }
            else { a = dense_next; dense_next = a + np * PG + (place_mode == 1 ? PG : 0); }
            p = (void *) syscall(SYS_mmap, a, len, prot, flags | MAP_NORESERVE | 0x100000 /* MAP_FIXED_NOREPLACE */, fd, off);
            if(p != MAP_FAILED && (uintptr_t) p != a) { syscall(SYS_munmap, p, len); p = MAP_FAILED; }
        }
    }
    if(p == MAP_FAILED) p = (void *) syscall(SYS_mmap, addr, len, prot, flags | MAP_NORESERVE, fd, off);
    if(p == MAP_FAILED) return p;
    if(nregs >= MAXREG) die("too many regions\n");
    reg_t *r = &regs[nregs];
    memset(r, 0, sizeof(*r));
    r->id = ++nregs;
    r->start = (uintptr_t) p;
    r->hint = (uintptr_t) addr;
    r->np = r->present = np;
    r->op = cur_op;
    r->chg = 1;
    r->pp = (uint8_t *) syscall(SYS_mmap, 0, np, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if((void *) r->pp == MAP_FAILED) die("shadow\n");
    memset(r->pp, protv(prot), np);
    live_regions++;
    mm_gen++;
    return p;
}

/* apply to every shadow page in [a,a+len); returns pages found. v: new value, 255 = dontneed */
static size_t apply(uintptr_t a, size_t len, uint8_t v) {
    size_t np = (len + PG - 1) / PG, found = 0;
    mm_gen++;
    for(int i = nregs - 1; i >= first_live; i--) {
        reg_t *r = &regs[i];
        if(!r->present) continue;
        uintptr_t lo = a > r->start ? a : r->start, hi = a + np * PG < r->start + r->np * PG ? a + np * PG : r->start + r->np * PG;
        if(lo >= hi) continue;
        size_t n = 0;
        for(uintptr_t x = lo; x < hi; x += PG) {
            size_t k = (x - r->start) / PG;
            if(r->pp[k]) {
                n++;
                found++;
                if(v != 255) r->pp[k] = v;
                if(v == 0) r->present--;
            }
        }
        if(n) {
            if(v == 255) { if(r->op != cur_op) r->dn = 1; }
            else r->chg = 1;
        }
        if(found >= np) break;
    }
    return found;
}

int munmap(void *addr, size_t len) {
    uintptr_t a = (uintptr_t) addr;
    if((a & (PG - 1)) || len == 0) { errno = EINVAL; return -1; }
    size_t np = (len + PG - 1) / PG;
    /* only pages the allocator mapped are really unmapped */
    size_t here = 0;
    for(size_t k = 0; k < np; k++) {
        reg_t *r = reg_find(a + k * PG);
        if(r == NULL) { wild++; continue; }
        here++;
        size_t off = (a + k * PG - r->start) / PG;
        while(k + 1 < np && off + 1 < r->np && r->pp[off + 1]) { k++; off++; here++; }
    }
    if(here == np) {
        int rc = syscall(SYS_munmap, addr, len);
        apply(a, len, 0);
        return rc;
    }
    for(size_t k = 0; k < np; k++) {
        if(reg_find(a + k * PG)) { syscall(SYS_munmap, a + k * PG, PG); apply(a + k * PG, PG, 0); }
    }
    return 0;
}

int mprotect(void *addr, size_t len, int prot) {
    if(inject(2)) { errno = ENOMEM; return -1; }
    int rc = syscall(SYS_mprotect, addr, len, prot);
    if(rc == 0) {
        size_t np = (len + PG - 1) / PG;
        if(apply((uintptr_t) addr, len, protv(prot)) != np) wild++;
    }
    return rc;
}

int madvise(void *addr, size_t len, int advice) {
    if(advice == MADV_FREE || advice == MADV_DONTNEED) {
        if(reg_find((uintptr_t) addr) == NULL) { wild++; return 0; }
        apply((uintptr_t) addr, len, 255);
        /* MADV_FREE: the kernel may keep the old content for as long as it likes, so it does */
        if(advice == MADV_FREE) return 0;
    }
    return syscall(SYS_madvise, addr, len, advice);
}

int mlock(const void *addr, size_t len) { (void) addr; (void) len; return 0; }

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    (void) flags;
    setup();
    if(inject(3)) { errno = EAGAIN; return -1; }
    uint8_t *b = buf;
    for(size_t i = 0; i < len; i += 8) {
        uint64_t v = rnd();
        memcpy(b + i, &v, len - i < 8 ? len - i : 8);
    }
    return len;
}
