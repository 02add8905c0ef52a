/* The public interface, declared without compiler attributes so that nothing about the results is assumed */
#ifndef API_H
#define API_H
#include <stddef.h>
#include <stdint.h>
typedef void zh_t;
void iso_alloc_initialize(void);
void iso_alloc_destroy(void);
void *iso_alloc(size_t);
void *iso_calloc(size_t, size_t);
void *iso_realloc(void *, size_t);
void *iso_reallocarray(void *, size_t, size_t);
void iso_free(void *);
void iso_free_size(void *, size_t);
void iso_free_permanently(void *);
void iso_free_from_zone(void *, zh_t *);
void iso_free_from_zone_permanently(void *, zh_t *);
size_t iso_chunksz(void *);
void iso_alloc_verify_ptr_tag(void *, zh_t *);
uint8_t iso_alloc_get_mem_tag(void *, zh_t *);
char *iso_strdup(const char *);
char *iso_strdup_from_zone(zh_t *, const char *);
char *iso_strndup(const char *, size_t);
char *iso_strndup_from_zone(zh_t *, const char *, size_t);
void *iso_alloc_from_zone(zh_t *);
void *iso_alloc_from_zone_tagged(zh_t *);
void *iso_alloc_tag_ptr(void *, zh_t *);
void *iso_alloc_untag_ptr(void *, zh_t *);
zh_t *iso_alloc_new_zone(size_t);
size_t iso_zone_chunk_count(zh_t *);
void iso_alloc_destroy_zone(zh_t *);
void iso_alloc_protect_root(void);
void iso_alloc_unprotect_root(void);
uint64_t iso_alloc_detect_zone_leaks(zh_t *);
uint64_t iso_alloc_detect_leaks(void);
uint64_t iso_alloc_zone_mem_usage(zh_t *);
uint64_t iso_alloc_mem_usage(void);
void iso_verify_zones(void);
void iso_verify_zone(zh_t *);
int32_t iso_alloc_name_zone(zh_t *, char *);
void iso_flush_caches(void);

/* configuration of the build under test, from its headers (cfg.c) */
typedef struct {
    long granule, smallmax, zone_pages, quarantine, retire, big_waste, big_list, big_ttl, canary_div, poison, san_odds, san_max;
    int ndef;
    long def[64];
    int tags, sanitize, nocanary, strong, bigguard, bigmetaguard, protfree, sanity, nozero, permrealloc, abortnull, leak,
        memcpys, memsets, profiler, hook, threads, spin, dtorclean, autoinit, uaf, fuzz, cpupin, maxzones, cores, mask, uodds, unin, rnd;
} cfg_t;
extern cfg_t CF;
void cfg_init(void);
#endif
