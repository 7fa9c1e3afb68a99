#include "c16.hpp"
using namespace c16;
namespace {
// types that take a memory resource get the allocator's
struct ArgAl { using allocator_type = c4::MemoryResource*; int v; c4::MemoryResource *r; ArgAl(std::allocator_arg_t, c4::MemoryResource *q, int a = DEF) : v((boom("ctor-throws"), a)), r(q) { born(this, v); } ~ArgAl() { died(this); } };
struct TrailAl { using allocator_type = c4::MemoryResource*; int v; c4::MemoryResource *r; TrailAl(int a, c4::MemoryResource *q) : v((boom("ctor-throws"), a)), r(q) { born(this, v); } ~TrailAl() { died(this); } };
struct Null : c4::MemoryResource { void *do_allocate(size_t, size_t, void*) override { return nullptr; } void *do_reallocate(void*, size_t, size_t, size_t) override { return nullptr; } void do_deallocate(void*, size_t, size_t) override {} };
template<class T> void alloc_types(Ctx &cx) {
    static Null r1, r2; alignas(64) char mem[10 * sizeof(T)]; T *p = (T*)mem; uint32_t n = cx.draw(10); c4::MemoryResource *r = cx.draw(2) ? &r1 : &r2; bool global = cx.draw(2); c4::ScopedMemoryResource sc(global ? r : &r2);
    c4::allocator_mr<T> am(global ? nullptr : r); c4::allocator<T> ag; bool threw = false; int x = (int)cx.draw(1000); births = 0; g_may_throw = true; bool one = n == 1 && cx.draw(2);
    try { if(global) { if(one) ag.construct(p, x); else ag.construct_n(p, n, x); } else { if(one) am.construct(p, x); else am.construct_n(p, n, x); } } catch(Boom&) { threw = true; }
    g_may_throw = false; uint32_t k = 0; while(k < n && live.count(p + k)) ++k;
    cx.ev("alloc-construct", n, threw, k);
    if((uint32_t)births != k || live.size() != k || (!threw && k != n) || (threw && k >= n)) cx.fail("wrong-prefix", "allocator construct: " + std::to_string(births) + " constructed, first " + std::to_string(k) + " of " + std::to_string(n) + " in place");
    for(uint32_t i = 0; i < k; ++i) if(p[i].v != x || p[i].r != r) cx.fail("wrong-value", "allocator construct: the element did not get the arguments and the allocator's resource");
    c4::allocator<T>::destroy_n(p, k); if(!live.empty()) cx.fail("not-destroyed", "allocator destroy_n left elements alive");
    if(cx.sh->violated) throw sim::Abort();
}
}
void sim_init() { c4err_install(); }
void sim_run(Ctx &cx) {
    g = &cx; live.clear(); g_may_throw = false; g_next = 0; g_odds = cx.draw(4) == 0 ? 0 : 1 + cx.draw(6);
    uint32_t t = cx.draw(16); cx.ev("type", t); cx.sig(t);
    switch(t) {
    case 0: case 1: case 2: run_world<Tr>(cx); break;
    case 3: run_world<Big>(cx); break;
    case 4: case 5: run_world<Cp>(cx); break;
    case 6: run_world<Pod>(cx); break;
    case 7: run_world<Pod3>(cx); break;
    case 8: run_world<Al>(cx); break;
    case 9: run_world<int>(cx); break;
    case 10: run_world<unsigned char>(cx); break;
    case 11: run_world<const char*>(cx); break;
    case 12: run_world<NdPod>(cx); break;
    case 13: run_world<AsNt>(cx); break;
    case 14: run_world<CtNt>(cx); break;
    default: alloc_types<ArgAl>(cx); alloc_types<TrailAl>(cx); break;
    }
}
