/* the replaced interfaces, as built into the driver under other names (see tools/build.py) */
void *hk_malloc(size_t); void *hk___libc_malloc(size_t); void hk_free(void *); void hk___libc_free(void *);
void *hk_calloc(size_t, size_t); void *hk___libc_calloc(size_t, size_t);
void *hk_realloc(void *, size_t); void *hk___libc_realloc(void *, size_t);
void *hk_reallocarray(void *, size_t, size_t); void *hk___libc_reallocarray(void *, size_t, size_t);
int hk_posix_memalign(void **, size_t, size_t); int hk___posix_memalign(void **, size_t, size_t);
void *hk_aligned_alloc(size_t, size_t); void *hk_memalign(size_t, size_t); void *hk___libc_memalign(size_t, size_t);
size_t hk_malloc_usable_size(void *);
extern void *(*hk___malloc_hook)(size_t, const void *);
extern void *(*hk___realloc_hook)(void *, size_t, const void *);
extern void (*hk___free_hook)(void *, const void *);
extern void *(*hk___memalign_hook)(size_t, size_t, const void *);
/* C++ (hook_cpp.cpp): *thrown is set when std::bad_alloc came out */
void *cpp_new(int flav, size_t n, size_t align, int *thrown);
void cpp_delete(int flav, void *p, size_t n, size_t align);
void cpp_handler(int none);
