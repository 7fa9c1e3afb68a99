// Simulated memory: an arena with canaries and poison, and upstream resources
// that keep a ledger and fail on command.
#ifndef MEMSIM_HPP_
#define MEMSIM_HPP_
#include "sim.hpp"
#include "c4err.hpp"
#include <c4/memory_resource.hpp>
#include <map>
#ifdef __has_feature
#if __has_feature(address_sanitizer)
#define SIM_ASAN
#endif
#endif
#ifdef SIM_ASAN
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#define SIM_POISON(p, n) __asan_poison_memory_region(p, n)
#define SIM_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define SIM_POISON(p, n) (void)0
#define SIM_UNPOISON(p, n) (void)0
#endif
namespace memsim {
using sim::Ctx;
struct OOM {};    // thrown by a failing upstream
struct Stop {};   // a broken invariant that belongs to another property ends the run

// which verdict classes the running check reports
extern bool enabled(const char *cls);
extern Ctx *g;
extern bool g_stop;
inline void note(const char *cls, std::string const& msg) { if(enabled(cls)) g->note_fail(cls, msg); else { g->probe("stopped-by-another-property"); g_stop = true; } }
[[noreturn]] inline void verdict(const char *cls, std::string const& msg) { note(cls, msg); throw Stop(); }
inline void settle() { if(g->sh->violated || g_stop) throw Stop(); }

inline unsigned char pat(uint32_t seed, size_t i) { uint32_t h = seed * 2654435761u + (uint32_t)i * 40503u; return (unsigned char)(h >> 13 ^ h >> 5); }

struct Blk { size_t sz, al; };
constexpr size_t kArena = 4u << 20, kCanary = 32;
struct Arena {
    char *base = nullptr; size_t pos = 0;
    void init(); void reset();
    bool has(const void *p) const { return (char*)p >= base && (char*)p < base + kArena; }
    // block at an address aligned to al, and (if odd) to no more than al
    char *take(size_t sz, size_t al, bool odd);
};
extern Arena arena;

inline void canary_set(char *p, size_t sz) { memset(p - kCanary, 0xC5, kCanary); memset(p + sz, 0xC5, kCanary); SIM_POISON(p + sz, kCanary); }
inline bool canary_ok(char *p, size_t sz) { SIM_UNPOISON(p + sz, kCanary); bool ok = true; for(size_t i = 0; i < kCanary; ++i) ok = ok && (unsigned char)p[sz + i] == 0xC5 && (unsigned char)p[(long)i - (long)kCanary] == 0xC5; SIM_POISON(p + sz, kCanary); return ok; }

struct Up : c4::MemoryResource {
    std::map<char*, Blk> live, dead;
    const char *id; uint32_t num = 0; // fault odds: num in 16
    size_t fired = 0;                 // faults delivered so far
    bool mute = false;
    Up(const char *n) : id(n) { name = n; }
    bool fails(size_t sz, const char *what) { if(num && g->fault(what, num, 16)) { ++fired; return true; } return sz > (1u << 19); }
    char *alloc(size_t sz, size_t al) {
        char *p = arena.take(sz, al, g->draw(2) == 0);
        if(!p) return nullptr;
        memset(p, 0xA7, sz); canary_set(p, sz); live[p] = Blk{sz, al};
        g->ev("up.alloc", id, (uint64_t)sz, (uint64_t)al, (uint64_t)(p - arena.base)); return p;
    }
    void free(void *v, bool know_size, size_t sz, size_t al = 0) {
        char *p = (char*)v; g->ev("up.free", id, (uint64_t)(p ? p - arena.base : 0), (uint64_t)sz);
        if(!p) return;
        auto it = live.find(p);
        if(it == live.end()) { note("wrong-free", std::string("memory that ") + id + (dead.count(p) ? " already got back was returned again" : " never gave out was passed to its deallocate")); return; }
        if(know_size && it->second.sz != sz) note("wrong-free", std::string(id) + ": a block of " + std::to_string(it->second.sz) + " bytes was returned as " + std::to_string(sz));
        if(al && it->second.al != al) note("wrong-free", std::string(id) + ": a block obtained with alignment " + std::to_string(it->second.al) + " was returned with alignment " + std::to_string(al));
        if(!canary_ok(p, it->second.sz)) note("out-of-bounds", std::string(id) + ": bytes next to a block were overwritten");
        memset(p, 0xDD, it->second.sz); SIM_POISON(p, it->second.sz);
        dead[p] = it->second; live.erase(it);
    }
    // null, or throws, on failure
    void *realloc(void *v, size_t oldsz, size_t sz, size_t al) {
        if(fails(sz, "realloc-failure")) return nullptr;
        if(!v) return alloc(sz, al);
        auto it = live.find((char*)v);
        if(it == live.end()) { note("wrong-free", std::string("memory that ") + id + " does not own was passed to its reallocate"); return nullptr; }
        if(it->second.sz != oldsz) note("wrong-free", std::string(id) + ": a block of " + std::to_string(it->second.sz) + " bytes was reallocated as one of " + std::to_string(oldsz));
        size_t real_old = it->second.sz;
        if(sz <= real_old && g->draw(2) == 0) { if(!canary_ok((char*)v, real_old)) note("out-of-bounds", "canary"); SIM_UNPOISON(v, real_old + kCanary); it->second.sz = sz; canary_set((char*)v, sz); return v; }
        char *p = alloc(sz, al); if(!p) return nullptr;
        memcpy(p, v, sz < real_old ? sz : real_old); free(v, false, 0); return p;
    }
    void check_all() { for(auto &b : live) if(!canary_ok(b.first, b.second.sz)) note("out-of-bounds", std::string(id) + ": bytes next to a block of " + std::to_string(b.second.sz) + " bytes were overwritten"); }
protected:
    void *do_allocate(size_t sz, size_t al, void*) override {
        if(fails(sz, "alloc-failure")) { if(g->draw(2)) throw OOM(); return nullptr; }
        return alloc(sz, al);
    }
    void *do_reallocate(void *p, size_t o, size_t n, size_t al) override { void *r = realloc(p, o, n, al); if(!r && g->draw(2)) throw OOM(); return r; }
    void do_deallocate(void *p, size_t sz, size_t al) override { free(p, true, sz, al); }
};
extern Up *raw; // behind aalloc/afree/arealloc or posix_memalign/free
void raw_install(int mode); // 0: c4 defaults over wrapped libc, 1: custom aalloc/afree + default arealloc, 2: all custom
// runs f; true if it raised an error
template<class F> bool raised(F &&f, std::string *why = nullptr) { try { f(); return false; } catch(C4Error const& e) { if(why) *why = e.msg; return true; } catch(OOM const&) { if(why) *why = "OOM"; return true; } }
}
#endif
