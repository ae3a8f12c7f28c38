/* Counts live heap blocks and their bytes, and apart from them those of operator new; preloaded by C25. */
#include <cerrno>
#include <cstddef>
#include <malloc.h>
#include <new>

extern "C" {

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static long blocks, bytes, news, newbytes;

static void *in(void *p){
    if (p){
        __atomic_fetch_add(&blocks, 1, __ATOMIC_RELAXED);
        __atomic_fetch_add(&bytes, (long) malloc_usable_size(p), __ATOMIC_RELAXED);
    }
    return p;
}

static void out(void *p){
    if (p){
        __atomic_fetch_sub(&blocks, 1, __ATOMIC_RELAXED);
        __atomic_fetch_sub(&bytes, (long) malloc_usable_size(p), __ATOMIC_RELAXED);
    }
}

void *malloc(size_t n){ return in(__libc_malloc(n)); }
void *calloc(size_t n, size_t m){ return in(__libc_calloc(n, m)); }
void free(void *p){ out(p); __libc_free(p); }
void *realloc(void *p, size_t n){
    out(p);
    void *q = __libc_realloc(p, n);
    if (!q && p && n){ in(p); return q; }
    return in(q);
}
void *memalign(size_t a, size_t n){ return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n){ return in(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n){
    void *q = in(__libc_memalign(a, n));
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}

long vf_blocks(void){ return __atomic_load_n(&blocks, __ATOMIC_RELAXED); }
long vf_bytes(void){ return __atomic_load_n(&bytes, __ATOMIC_RELAXED); }
long vf_new_blocks(void){ return __atomic_load_n(&news, __ATOMIC_RELAXED); }
long vf_new_bytes(void){ return __atomic_load_n(&newbytes, __ATOMIC_RELAXED); }
}

static void *made(std::size_t n){
    void *p = malloc(n ? n : 1);
    if (p){
        __atomic_fetch_add(&news, 1, __ATOMIC_RELAXED);
        __atomic_fetch_add(&newbytes, (long) malloc_usable_size(p), __ATOMIC_RELAXED);
    }
    return p;
}

static void gone(void *p){
    if (p){
        __atomic_fetch_sub(&news, 1, __ATOMIC_RELAXED);
        __atomic_fetch_sub(&newbytes, (long) malloc_usable_size(p), __ATOMIC_RELAXED);
    }
    free(p);
}

void *operator new(std::size_t n){ void *p = made(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](std::size_t n){ void *p = made(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return made(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return made(n); }
void operator delete(void *p) noexcept { gone(p); }
void operator delete[](void *p) noexcept { gone(p); }
void operator delete(void *p, std::size_t) noexcept { gone(p); }
void operator delete[](void *p, std::size_t) noexcept { gone(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { gone(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { gone(p); }
