#define BACKTRACE_DEPTH 8
typedef struct { uint64_t callers[BACKTRACE_DEPTH]; size_t lower_bound_size, upper_bound_size; uint16_t backtrace_hash; size_t call_count; } iso_alloc_traces_t;
typedef struct { uint64_t callers[BACKTRACE_DEPTH]; uint16_t backtrace_hash; size_t call_count; } iso_free_traces_t;
size_t iso_get_alloc_traces(iso_alloc_traces_t *);
size_t iso_get_free_traces(iso_free_traces_t *);
void iso_alloc_reset_traces(void);
