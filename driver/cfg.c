#include "iso_alloc_internal.h"
#include "api.h"
cfg_t CF;
void cfg_init(void) {
    CF.granule = SZ_ALIGNMENT;
    CF.smallmax = SMALL_SIZE_MAX;
    CF.zone_pages = ZONE_USER_SIZE / 4096;
    CF.quarantine = CHUNK_QUARANTINE_SZ;
    CF.retire = ZONE_ALLOC_RETIRE;
    CF.big_waste = BIG_ZONE_WASTE * 2 / 4096;
    CF.big_list = BIG_ZONE_MAX_FREE_LIST;
    CF.big_ttl = BIG_ZONE_ALLOC_RETIRE;
    CF.canary_div = CANARY_COUNT_DIV;
    CF.poison = POISON_BYTE;
    CF.maxzones = MAX_ZONES;
    CF.ndef = sizeof(default_zones) / sizeof(default_zones[0]);
    for(int i = 0; i < CF.ndef && i < 64; i++) CF.def[i] = default_zones[i];
#if RANDOMIZE_FREELIST
    CF.rnd = 1;
#endif
#if MEMORY_TAGGING
    CF.tags = 1;
#endif
#if SANITIZE_CHUNKS && !ENABLE_ASAN
    CF.sanitize = 1;
#endif
#if DISABLE_CANARY || ENABLE_ASAN
    CF.nocanary = 1;
#endif
#if STRONG_SIZE_ISOLATION
    CF.strong = 1;
#endif
#if BIG_ZONE_GUARD
    CF.bigguard = 1;
#endif
#if BIG_ZONE_META_DATA_GUARD
    CF.bigmetaguard = 1;
#endif
#if PROTECT_FREE_BIG_ZONES
    CF.protfree = 1;
#endif
#if ALLOC_SANITY
    CF.sanity = 1;
    CF.san_odds = SANITY_SAMPLE_ODDS;
    CF.san_max = MAX_SANE_SAMPLES;
#endif
#if NO_ZERO_ALLOCATIONS
    CF.nozero = 1;
#endif
#if PERM_FREE_REALLOC
    CF.permrealloc = 1;
#endif
#if ABORT_ON_NULL
    CF.abortnull = 1;
#endif
#if LEAK_DETECTOR || HEAP_PROFILER
    CF.leak = 1;
#endif
#if MEMCPY_SANITY
    CF.memcpys = 1;
#endif
#if MEMSET_SANITY
    CF.memsets = 1;
#endif
#if HEAP_PROFILER
    CF.profiler = 1;
#endif
#if MALLOC_HOOK
    CF.hook = 1;
#endif
#if THREAD_SUPPORT
    CF.threads = 1;
#endif
#if USE_SPINLOCK
    CF.spin = 1;
#endif
#if ISO_DTOR_CLEANUP
    CF.dtorclean = 1;
#endif
#if AUTO_CTOR_DTOR
    CF.autoinit = 1;
#endif
#if UAF_PTR_PAGE
    CF.uaf = 1;
    CF.uodds = UAF_PTR_PAGE_ODDS;
#endif
#if UNINIT_READ_SANITY
    CF.unin = 1;
#endif
#if FUZZ_MODE
    CF.fuzz = 1;
#endif
#if CPU_PIN
    CF.cpupin = 1;
#ifdef SCHED_GETCPU
    CF.cores = 1;
#endif
#endif
#if MASK_PTRS
    CF.mask = 1;
#endif
}

/* profiler entries as a query returns them: calls recorded, or -2 if the entries are not well formed; -1 without profiler */
#if HEAP_PROFILER
long cf_traces(int reset) {
    static __thread iso_alloc_traces_t at[200]; static __thread iso_free_traces_t ft[200];
    if(reset) { iso_alloc_reset_traces(); return 0; }
    size_t n = iso_get_alloc_traces(at), m = iso_get_free_traces(ft);
    long s = 0;
    if(n > 128 || m > 128) return -2;
    for(size_t i = 0; i < n; i++) {
        if(at[i].call_count < 1 || at[i].lower_bound_size > at[i].upper_bound_size) return -2;
        s += at[i].call_count;
        for(size_t j = 0; j < i; j++) if(at[i].backtrace_hash == at[j].backtrace_hash) return -2;
    }
    for(size_t i = 0; i < m; i++) {
        if(ft[i].call_count < 1) return -2;
        for(size_t j = 0; j < i; j++) if(ft[i].backtrace_hash == ft[j].backtrace_hash) return -2;
    }
    return s;
}
#else
long cf_traces(int reset) { return -1; }
#endif
