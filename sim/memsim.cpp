#include "memsim.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <stdlib.h>
namespace memsim {
Ctx *g; bool g_stop; Arena arena; Up *raw; static int raw_mode;
void Arena::init() { base = (char*)mmap((void*)0x200000000000ull, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if(base == MAP_FAILED) { perror("mmap"); _exit(91); } pos = kArena; reset(); }
void Arena::reset() { SIM_UNPOISON(base, pos); memset(base, 0x11, pos < kArena ? pos : 0); pos = 0; }
char *Arena::take(size_t sz, size_t al, bool odd) {
    size_t p = pos + kCanary; p = (p + al - 1) & ~(al - 1);
    if(odd && (p & (2 * al - 1)) == 0) p += al;
    if(sz > kArena || p + sz + kCanary > kArena) return nullptr;
    pos = p + sz + kCanary; return base + p;
}
static c4::aalloc_pfn d_aalloc; static c4::afree_pfn d_afree; static c4::arealloc_pfn d_arealloc;
static void *my_aalloc(size_t sz, size_t al) { if(raw->fails(sz, "alloc-failure")) return nullptr; return raw->alloc(sz, al); }
static void my_afree(void *p) { raw->free(p, false, 0); }
static void *my_arealloc(void *p, size_t o, size_t n, size_t al) { return raw->realloc(p, o, n, al); }
void raw_install(int mode) {
    if(!d_aalloc) { d_aalloc = c4::get_aalloc(); d_afree = c4::get_afree(); d_arealloc = c4::get_arealloc(); }
    raw_mode = mode;
    c4::set_aalloc(mode ? &my_aalloc : d_aalloc); c4::set_afree(mode ? &my_afree : d_afree); c4::set_arealloc(mode == 2 ? &my_arealloc : d_arealloc);
}
}
using namespace memsim;
extern "C" int __real_posix_memalign(void**, size_t, size_t);
extern "C" void __real_free(void*);
extern "C" int __wrap_posix_memalign(void **out, size_t al, size_t sz) {
    if(!raw) return __real_posix_memalign(out, al, sz);
    if(al < sizeof(void*) || (al & (al - 1))) return EINVAL;
    if(raw->fails(sz, "posix_memalign-ENOMEM")) return ENOMEM;
    void *p = raw->alloc(sz, al); if(!p) return ENOMEM;
    *out = p; return 0;
}
// the other ways to get memory from the C library, should the code choose them
extern "C" void *__real_malloc(size_t); extern "C" void *__real_calloc(size_t, size_t); extern "C" void *__real_realloc(void*, size_t); extern "C" void *__real_aligned_alloc(size_t, size_t); extern "C" void *__real_memalign(size_t, size_t);
static void *libc_alloc(size_t al, size_t sz) { if(raw->fails(sz, "malloc-failure")) { errno = ENOMEM; return nullptr; } void *p = raw->alloc(sz, al); if(!p) errno = ENOMEM; return p; }
extern "C" void *__wrap_malloc(size_t sz) { return raw ? libc_alloc(alignof(max_align_t), sz) : __real_malloc(sz); }
extern "C" void *__wrap_calloc(size_t n, size_t sz) { if(!raw) return __real_calloc(n, sz); void *p = libc_alloc(alignof(max_align_t), n * sz); if(p) memset(p, 0, n * sz); return p; }
extern "C" void *__wrap_aligned_alloc(size_t al, size_t sz) { return raw ? libc_alloc(al, sz) : __real_aligned_alloc(al, sz); }
extern "C" void *__wrap_memalign(size_t al, size_t sz) { return raw ? libc_alloc(al, sz) : __real_memalign(al, sz); }
extern "C" void *__wrap_realloc(void *p, size_t sz) { if(!raw || (p && !arena.has(p))) return __real_realloc(p, sz); auto it = raw->live.find((char*)p); return raw->realloc(p, it == raw->live.end() ? 0 : it->second.sz, sz, alignof(max_align_t)); }
extern "C" void __wrap_free(void *p) { if(raw && arena.has(p)) raw->free(p, false, 0); else __real_free(p); }
