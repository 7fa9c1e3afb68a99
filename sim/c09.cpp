// C09: the current memory resource is per-thread, and scopes restore it.
#include "thr.hpp"
#include "c4err.hpp"
#include <c4/memory_resource.hpp>
#include <c4/allocator.hpp>
#include <stdlib.h>
#include <map>
#include <vector>
using sim::Ctx;
namespace {
constexpr int kThr = 4, kRes = 5;
struct Oom {}; struct Leave { int levels; };
enum Op { GET, SET, SET_MALLOC, SCOPE, SCOPE_COUNTS, SCOPE_COUNTS_OF, END, ALLOC, ALLOC_SMALL, ALLOC_MR, ALLOC_FAIL, CONTAINER, THROW, REALLOC };
struct Ins { Op op; int r; uint32_t n; };
struct Ledger { int allocs = 0, frees = 0; };
struct T {
    std::vector<Ins> prog; size_t pc = 0;
    c4::MemoryResource *cur = nullptr;   // what this thread last set
    int sink = -1;                       // recording resource at the end of cur's chain, -1: malloc
    Ledger want[kRes + 1], got[kRes + 1];// [0]: malloc
    bool fail_next = false;
    std::string err; const char *cls = nullptr;
    std::string log;
    std::map<void*, std::pair<int, size_t>> live; // who handed out what to this thread
};
T th[kThr + 1]; // [kThr]: the main thread
int me() { int s = thr::self(); return s < 0 ? kThr : s; }
struct Rec : c4::MemoryResource {
    int id = 0;
    void *do_allocate(size_t sz, size_t al, void*) override { thr::Pause z; T &t = th[me()]; if(t.fail_next) { t.fail_next = false; throw Oom(); } void *p = nullptr; if(posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, sz + 1)) abort(); ++t.got[id + 1].allocs; t.live[p] = {id, sz}; return p; }
    void do_deallocate(void *p, size_t sz, size_t) override { thr::Pause z; T &t = th[me()]; ++t.got[id + 1].frees; auto it = t.live.find(p); if(it == t.live.end() || it->second.first != id || it->second.second != sz) { if(!t.cls) { t.cls = "wrong-resource"; t.err = "resource R" + std::to_string(id) + " got back memory it did not hand to this thread"; } return; } t.live.erase(it); free(p); }
    void *do_reallocate(void *p, size_t o, size_t n, size_t al) override { void *q = do_allocate(n, al, nullptr); memcpy(q, p, o < n ? o : n); do_deallocate(p, o, al); return q; }
};
Rec rec[kRes];
void *my_aalloc(size_t sz, size_t al) { thr::Pause z; T &t = th[me()]; void *p = nullptr; if(posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, sz + 1)) abort(); ++t.got[0].allocs; t.live[p] = {-1, sz}; return p; }
void my_afree(void *p) { thr::Pause z; T &t = th[me()]; ++t.got[0].frees; auto it = t.live.find(p); if(it == t.live.end() || it->second.first != -1) { if(!t.cls) { t.cls = "wrong-resource"; t.err = "the malloc resource got back memory it did not hand to this thread"; } return; } t.live.erase(it); free(p); }
void *my_arealloc(void *p, size_t o, size_t n, size_t al) { void *q = my_aalloc(n, al); memcpy(q, p, o < n ? o : n); my_afree(p); return q; }
void bad(T &t, const char *cls, std::string const& m) { thr::Pause z; if(!t.cls) { t.cls = cls; t.err = m; } }
void expect_current(T &t, const char *when) {
    c4::MemoryResource *g = c4::get_memory_resource(); thr::Pause z;
    if(g != t.cur && !t.cls) { t.cls = "wrong-current"; t.err = std::string(when) + ": get_memory_resource() is not what this thread last set"; for(int k = 0; k <= kThr; ++k) if(k != me() && g == th[k].cur) { t.err += " (it is thread " + std::to_string(k) + "'s)"; break; } }
}
void expect_ledger(T &t, const char *when) { thr::Pause z; for(int i = 0; i <= kRes; ++i) if(t.want[i].allocs != t.got[i].allocs || t.want[i].frees != t.got[i].frees) if(!t.cls) { t.cls = "wrong-resource"; t.err = std::string(when) + ": " + (i ? "R" + std::to_string(i - 1) : std::string("malloc")) + " saw " + std::to_string(t.got[i].allocs) + " allocations and " + std::to_string(t.got[i].frees) + " frees of this thread, expected " + std::to_string(t.want[i].allocs) + " and " + std::to_string(t.want[i].frees); } }
void exec(T &t);
void skip(T &t) { int d = 0; while(t.pc < t.prog.size()) { Op o = t.prog[t.pc++].op; if(o == SCOPE || o == SCOPE_COUNTS || o == SCOPE_COUNTS_OF) ++d; else if(o == END && d-- == 0) return; } }
void set_cur(T &t, int r) { t.cur = r < 0 ? (c4::MemoryResource*)c4::get_memory_resource_malloc() : &rec[r]; t.sink = r; }
void scope(T &t, Ins in) {
    c4::MemoryResource *before = t.cur; int sink = t.sink;
    try {
        if(in.op == SCOPE) { c4::ScopedMemoryResource s(&rec[in.r]); { thr::Pause z; set_cur(t, in.r); } expect_current(t, "in a ScopedMemoryResource"); exec(t); }
        else if(in.op == SCOPE_COUNTS) { c4::ScopedMemoryResourceCounts s; { thr::Pause z; t.cur = &s.mr; } if(s.mr.resource() != before) bad(t, "wrong-current", "ScopedMemoryResourceCounts() does not count on top of the current resource"); expect_current(t, "in a ScopedMemoryResourceCounts"); exec(t); }
        else { c4::ScopedMemoryResourceCounts s(&rec[in.r]); { thr::Pause z; t.cur = &s.mr; t.sink = in.r; } expect_current(t, "in a ScopedMemoryResourceCounts(r)"); exec(t); }
    } catch(Leave &l) { thr::Pause z; skip(t); t.cur = before; t.sink = sink; if(--l.levels > 0) { thr::Pause y; throw; } }
    catch(Oom &) { thr::Pause z; skip(t); }
    { thr::Pause z; t.cur = before; t.sink = sink; }
    expect_current(t, "after a scope");
}
struct Obj { char b[24]; };
void exec(T &t) {
    while(t.pc < t.prog.size()) {
        Ins in; { thr::Pause z; in = t.prog[t.pc++]; }
        thr::point();
        switch(in.op) {
        case GET: break;
        case SET: c4::set_memory_resource(&rec[in.r]); { thr::Pause z; set_cur(t, in.r); } break;
        case SET_MALLOC: c4::set_memory_resource(c4::get_memory_resource_malloc()); { thr::Pause z; set_cur(t, -1); } break;
        case SCOPE: case SCOPE_COUNTS: case SCOPE_COUNTS_OF: scope(t, in); break;
        case END: return;
        case ALLOC: { c4::allocator<Obj> a; Obj *p = a.allocate(in.n); { thr::Pause z; ++t.want[t.sink + 1].allocs; } memset((void*)p, 7, sizeof(Obj) * in.n); expect_ledger(t, "allocate"); a.deallocate(p, in.n); { thr::Pause z; ++t.want[t.sink + 1].frees; } expect_ledger(t, "deallocate"); break; }
        case REALLOC: { c4::allocator<Obj> a; Obj *p = a.allocate(in.n); p = a.reallocate(p, in.n, in.n + 2); { thr::Pause z; t.want[t.sink + 1].allocs += 2; ++t.want[t.sink + 1].frees; } expect_ledger(t, "reallocate"); a.deallocate(p, in.n + 2); { thr::Pause z; ++t.want[t.sink + 1].frees; } break; }
        case ALLOC_SMALL: { c4::small_allocator<Obj, 2> a; Obj *p = a.allocate(in.n + 3); { thr::Pause z; ++t.want[t.sink + 1].allocs; } expect_ledger(t, "SmallAllocator::allocate"); a.deallocate(p, in.n + 3); { thr::Pause z; ++t.want[t.sink + 1].frees; } expect_ledger(t, "SmallAllocator::deallocate"); break; }
        case ALLOC_MR: { // bound to the resource current at construction
            c4::allocator_mr<Obj> a; int s; { thr::Pause z; s = t.sink; } { c4::ScopedMemoryResource g(&rec[in.r]); Obj *p = a.allocate(in.n); { thr::Pause z; ++t.want[s + 1].allocs; } expect_ledger(t, "allocator_mr::allocate"); a.deallocate(p, in.n); { thr::Pause z; ++t.want[s + 1].frees; } } expect_ledger(t, "allocator_mr"); break; }
        case ALLOC_FAIL: { c4::allocator<Obj> a; bool f; { thr::Pause z; f = t.sink >= 0; t.fail_next = f; } if(!f) break; try { (void)a.allocate(in.n); } catch(Oom&) { if(in.r & 1) break; thr::Pause z; throw; } bad(t, "wrong-resource", "an allocation did not reach this thread's resource"); break; }
        case CONTAINER: { std::vector<Obj, c4::allocator<Obj>> v; v.reserve(in.n); { thr::Pause z; ++t.want[t.sink + 1].allocs; } expect_ledger(t, "container"); } { thr::Pause z; ++t.want[t.sink + 1].frees; } expect_ledger(t, "container destroyed"); break;
        case THROW: { thr::Pause z; throw Leave{(int)in.n}; }
        }
        expect_current(t, "after an operation");
        expect_ledger(t, "after an operation");
        if(t.cls) { t.pc = t.prog.size(); return; }
    }
}
void body(void *, int i) {
    T &t = th[i]; { thr::Pause z; t.cur = nullptr; t.sink = -1; }
    if(t.prog.empty() || t.prog[0].op != SET) { c4::MemoryResource *g = c4::get_memory_resource(); c4::MemoryResource *m = c4::get_memory_resource_malloc(); thr::Pause z; if(g != m) { t.cls = "wrong-initial"; t.err = "the resource of a new thread is not the malloc resource"; return; } t.cur = m; }
    try { exec(t); } catch(Leave&) {} catch(Oom&) {}
}
void draw_prog(Ctx &cx, T &t, bool is_main) {
    static const uint32_t w[14] = {2, 4, 1, 3, 3, 3, 4, 4, 1, 2, 2, 1, 2, 1};
    uint32_t n = 1 + cx.skewed(24); int depth = 0;
    for(uint32_t i = 0; i < n; ++i) {
        Ins in; in.op = (Op)cx.weighted(w); in.r = (int)cx.draw(kRes); in.n = 1 + cx.draw(5);
        if(in.op == SCOPE || in.op == SCOPE_COUNTS || in.op == SCOPE_COUNTS_OF) { if(depth >= 5) in.op = GET; else ++depth; }
        if(in.op == END) { if(depth) --depth; else in.op = GET; }
        if(in.op == THROW && (!depth || is_main)) in.op = ALLOC;
        if(in.op == THROW) { in.n = 1 + cx.draw((uint32_t)depth); depth -= 1; cx.inject("exception-through-scope"); cx.count('f', "unwound-scopes", in.n); }
        if(in.op == ALLOC_FAIL) cx.inject("alloc-failure");
        t.prog.push_back(in); cx.ev("op", (int)in.op, in.r, in.n); cx.sig(in.op * 64 + in.r * 8 + in.n);
        if(in.op == THROW) { Ins e{END, 0, 0}; t.prog.push_back(e); }
    }
    while(depth-- > 0) t.prog.push_back(Ins{END, 0, 0});
}
}
void sim_init() { c4err_install(); c4::set_aalloc(my_aalloc); c4::set_afree(my_afree); c4::set_arealloc(my_arealloc); for(int i = 0; i < kRes; ++i) { rec[i].id = i; rec[i].name = "rec"; } }
void sim_run(Ctx &cx) {
    for(T &t : th) t = T();
    int n = 1 + (int)cx.draw(kThr);
    for(int i = 0; i < n; ++i) { cx.ev("thread", i); draw_prog(cx, th[i], false); }
    T &m = th[kThr]; bool touch = cx.draw(2) == 0; // has the main thread used the library before the others start?
    if(touch) {
        m.cur = c4::get_memory_resource(); cx.check(m.cur == c4::get_memory_resource_malloc(), "wrong-initial", "the resource of the main thread is not the malloc resource");
        if(cx.draw(2)) { int r = (int)cx.draw(kRes); c4::set_memory_resource(&rec[r]); set_cur(m, r); }
    }
    thr::run(cx, n, body, nullptr, 40);
    for(int i = 0; i < n; ++i) { T &t = th[i]; cx.ev("thread-end", i, (uint64_t)t.pc); if(t.cls) cx.fail(t.cls, "thread " + std::to_string(i) + ": " + t.err); if(!t.live.empty()) cx.fail("wrong-resource", "thread " + std::to_string(i) + ": memory never came back to the resource that handed it out"); }
    if(!touch) { m.cur = c4::get_memory_resource(); cx.check(m.cur == c4::get_memory_resource_malloc(), "wrong-initial", "the main thread's first resource is not the malloc resource"); }
    cx.check(c4::get_memory_resource() == m.cur, "wrong-current", "the main thread's resource was changed by another thread");
    draw_prog(cx, m, true); try { exec(m); } catch(Oom&) {} catch(Leave&) {}
    if(m.cls) cx.fail(m.cls, "main thread: " + m.err);
    c4::set_memory_resource(c4::get_memory_resource_malloc());
}
