// Allocator and SmallAllocator under any order of allocate/deallocate/reallocate
// with a failing resource, against a reference ledger.
#include "memworld.hpp"
#include <c4/allocator.hpp>
#include <new>
#include <algorithm>
#include <vector>
#include <list>
using namespace memsim; using namespace c4;
namespace {
struct T3 { char c[3]; }; struct alignas(16) T32 { char c[32]; }; struct T12 { int a[3]; };
struct Any {
    size_t osz, oal, def, N; char *obj = nullptr, *arr = nullptr; size_t objsz = 0; bool small = false, realloc_ok = true;
    virtual void *alloc(size_t n, size_t al, bool def_al) = 0; virtual void dealloc(void *p, size_t n, size_t al, bool def_al) = 0; virtual void *realloc(void *p, size_t o, size_t n, size_t al, bool def_al) = 0; virtual void shuffle(uint32_t) {} virtual void offshoot(uint32_t, Up&) {} virtual void destroy() = 0;
    virtual ~Any() {}
    bool in_obj(const void *p) const { return (char*)p >= obj && (char*)p < obj + objsz; }
};
template<class A> struct Impl : Any {
    using T = typename A::value_type; A *a;
    template<class... X> Impl(size_t n, size_t def_, bool sm, X... x) { osz = sizeof(T); oal = alignof(T); def = def_; N = n; small = sm; objsz = sizeof(A); obj = arena.take(sizeof(A), alignof(A), true); memset(obj, 0x5e, objsz); canary_set(obj, objsz); a = new(obj) A(x...); }
    void *alloc(size_t n, size_t al, bool d) override { return d ? a->allocate(n) : a->allocate(n, al); }
    void dealloc(void *p, size_t n, size_t al, bool d) override { if(d) a->deallocate((T*)p, n); else a->deallocate((T*)p, n, al); }
    void *realloc(void *p, size_t o, size_t n, size_t al, bool d) override { return d ? a->reallocate((T*)p, o, n) : a->reallocate((T*)p, o, n, al); }
    void destroy() override { a->~A(); }
    // a copy or rebind of an allocator with nothing live in its array uses the same resource
    void offshoot(uint32_t k, Up &up) override {
        auto use = [&](auto &b) {
            using U = typename std::decay<decltype(b)>::type::value_type; size_t n0 = up.live.size();
            U *p = nullptr; if(raised([&] { p = b.allocate(N + 3); })) return; settle();
            if(up.live.size() != n0 + 1 || !up.live.count((char*)p)) verdict("wrong-resource", "a copied or rebound allocator does not use the resource of the original");
            b.deallocate(p, N + 3); settle();
            if(up.live.size() != n0) verdict("leak", "a copied or rebound allocator did not return its block");
        };
        if(k == 0) { A b(*a); use(b); } else if(k == 1) { A b(a->select_on_container_copy_construct()); use(b); } else if(k == 2) { auto b = a->template rebound<double>(); use(b); } else { A c(*a); A b(std::move(c)); use(b); }
    }
};
template<class A> struct ImplStd : Impl<A> { // stateless handles: copies and rebinds are interchangeable
    using Impl<A>::Impl; using T = typename A::value_type;
    void shuffle(uint32_t k) override {
        A &a = *this->a;
        if(k == 1) { A b(a); a = b; } else if(k == 2) { auto r = a.template rebound<double>(); A b(r); a = std::move(b); if(a != r || !(a == r)) verdict("failure-effects", "a rebound allocator does not compare equal"); } else if(k == 3) { A b = a.select_on_container_copy_construct(); a = b; }
    }
};
template<class T, size_t N, size_t Al> Any *mk_small(bool glob, MemoryResource *r) { if(glob) return new Impl<SmallAllocator<T, N, Al, MemResGlobal>>(N, Al, true); if(r) return new Impl<SmallAllocator<T, N, Al, MemRes>>(N, Al, true, r); return new Impl<SmallAllocator<T, N, Al, MemRes>>(N, Al, true); }
template<class T> Any *mk_std(bool glob, MemoryResource *r) { if(glob) return new ImplStd<c4::allocator<T>>((size_t)0, alignof(T), false); if(r) return new ImplStd<allocator_mr<T>>((size_t)0, alignof(T), false, r); return new ImplStd<allocator_mr<T>>((size_t)0, alignof(T), false); }
struct B { void *p; size_t n, al; bool def; uint32_t pat; bool arr; };

struct World {
    Ctx &cx; bool with_realloc; Up up{"the resource"}, other{"another resource"}; Any *a = nullptr; std::vector<B> blk; uint32_t next = 1, num = 0; bool lifo = true, per = false; const char *what = "";
    ~World() { delete a; }
    Any *build() {
        bool glob = cx.draw(2); per = !glob; MemoryResource *r = cx.draw(3) ? static_cast<MemoryResource*>(&up) : nullptr; set_memory_resource(per && r && cx.draw(2) ? &other : &up);
        switch(cx.draw(12)) {
#define S(T, N, A) what = "SmallAllocator<" #T "," #N "," #A ">"; return mk_small<T, N, A>(glob, r)
        case 0: S(char, 16, 1); case 1: S(int, 4, 4); case 2: S(char, 24, 8); case 3: S(T3, 7, 1); case 4: S(T32, 3, 16); case 5: S(uint64_t, 1, 8); case 6: S(T12, 5, 16); case 7: S(int, 16, 32);
        case 8: what = "Allocator<char>"; return mk_std<char>(glob, r);
        case 9: what = "Allocator<T32>"; return mk_std<T32>(glob, r);
        case 10: what = "Allocator<T3>"; return mk_std<T3>(glob, r);
        default: what = "Allocator<uint64_t>"; return mk_std<uint64_t>(glob, r);
        }
    }
    std::string on() { return std::string(what) + ": "; }
    void fill(B &b) { b.pat = next++; for(size_t i = 0; i < b.n * a->osz; ++i) ((char*)b.p)[i] = (char)pat(b.pat, i); }
    bool intact(B const& b, const void *p, size_t k) { for(size_t i = 0; i < k; ++i) if(((const unsigned char*)p)[i] != pat(b.pat, i)) return false; return true; }
    void check_all() {
        for(B const& b : blk) if(!intact(b, b.p, b.n * a->osz)) verdict("bytes-changed", on() + "objects of a live allocation changed");
        up.check_all(); other.check_all(); if(!canary_ok(a->obj, a->objsz)) note("out-of-bounds", on() + "bytes next to the allocator object were overwritten"); settle();
    }
    void check_new(B &b) {
        if((uintptr_t)b.p & (b.al - 1)) verdict("misaligned", on() + std::to_string(b.n) + " objects are not aligned to " + std::to_string(b.al));
        b.arr = a->small && a->in_obj(b.p); size_t sz = b.n * a->osz;
        if(b.arr) { if(!a->arr || (char*)b.p < a->arr) a->arr = (char*)b.p; if((char*)b.p + sz > a->arr + a->N * a->osz || b.n > a->N) verdict("out-of-bounds", on() + "objects reach beyond the in-place array"); }
        else { auto it = up.live.upper_bound((char*)b.p); bool ok = false; if(it != up.live.begin()) { --it; ok = it->first == b.p && it->second.sz >= sz; } if(!ok && b.n) verdict("out-of-bounds", on() + std::to_string(b.n) + " objects are neither in the array nor in memory from the resource"); }
        for(B const& o : blk) if(o.n && b.n && (char*)o.p < (char*)b.p + sz && (char*)b.p < (char*)o.p + o.n * a->osz) verdict("overlap", on() + "new objects overlap live ones");
    }
    size_t arr_top() { size_t t = 0; for(B const& b : blk) if(b.arr) t = std::max(t, (size_t)((char*)b.p - a->arr) / a->osz + b.n); return t; }
    bool arr_empty() { for(B const& b : blk) if(b.arr && b.n) return false; return true; }
    void expect_place(B const& b) {
        if(!a->small || b.n == 0) return;
        if(b.n > a->N) { if(b.arr) verdict("out-of-bounds", on() + "more objects than the array holds were placed there"); return; }
        if(b.al > a->def || b.arr) return;
        if(arr_empty()) verdict("not-in-place", on() + std::to_string(b.n) + " objects went to the resource although the array is free");
        if(lifo && a->osz % b.al == 0 && b.n <= a->N - arr_top()) verdict("not-in-place", on() + std::to_string(b.n) + " objects went to the resource although they fit after the ones in the array");
    }
    void draw_al(B &b) { b.def = cx.draw(3) != 0; b.al = b.def ? a->def : std::max(a->oal, (size_t)1 << cx.draw(8)); }
    size_t draw_n() { switch(cx.draw(8)) { case 0: return 1; case 1: case 2: return 1 + cx.draw(4); case 3: return a->N ? a->N : 3; case 4: return cx.draw((uint32_t)a->N + 4); case 5: return cx.draw(60); case 6: return a->N + 1; default: if(cx.draw(6)) return cx.draw(3); cx.probe("overflowing-count"); return (size_t)-1 / a->osz + cx.draw(9) - 4; } }
    void op_alloc() {
        B b{}; draw_al(b); b.n = draw_n(); bool over = b.n > ((size_t)1 << 40); size_t f0 = up.fired; std::string why;
        up.num = num; bool err = raised([&] { b.p = a->alloc(b.n, b.al, b.def); }, &why); up.num = 0; settle(); cx.ev("allocate", what, (uint64_t)b.n, (uint64_t)b.al, err); cx.sig(b.n < 64 ? b.n : 64); cx.sig(err);
        if(err) { if(!over && up.fired == f0 && b.n <= 4096) verdict("spurious-failure", on() + "allocate(" + std::to_string(b.n) + ") raised: " + why); cx.probe("allocate-refused"); return; }
        if(over) verdict("undersized", on() + "a request for " + std::to_string(b.n) + " objects of " + std::to_string(a->osz) + " bytes was granted");
        if(!b.p) verdict("null-block", on() + "allocate returned null");
        check_new(b); expect_place(b); if(b.arr && b.n) { if(a->osz % b.al) lifo = false; else if(arr_empty()) lifo = true; } fill(b); blk.push_back(b); cx.probe(b.arr ? "in-array" : "in-resource");
    }
    void op_dealloc() {
        if(blk.empty()) return;
        size_t j = cx.draw(2) ? blk.size() - 1 : cx.draw((uint32_t)blk.size()); B b = blk[j]; blk.erase(blk.begin() + (long)j);
        bool lent_up = !b.arr && up.live.count((char*)b.p) && b.n; 
        a->dealloc(b.p, b.n, b.al, b.def); cx.ev("deallocate", (uint64_t)b.n, b.arr); settle();
        if(lent_up && up.live.count((char*)b.p)) verdict("leak", on() + "deallocate did not return the block to its resource");
        if(b.arr && b.n) { if(arr_empty()) lifo = true; else if((size_t)((char*)b.p - a->arr) / a->osz + b.n < arr_top()) lifo = false; }
    }
    void op_realloc() {
        if(blk.empty()) return op_alloc();
        size_t j = cx.draw(2) ? blk.size() - 1 : cx.draw((uint32_t)blk.size()); B b = blk[j]; size_t n = draw_n(); bool over = n > ((size_t)1 << 40); size_t f0 = up.fired; void *p = nullptr; std::string why;
        if(b.n == 0 && n == 0) return;
        up.num = num; bool err = raised([&] { p = a->realloc(b.p, b.n, n, b.al, b.def); }, &why); up.num = 0;
        if(err) {
            if(!b.arr && b.n && !up.live.count((char*)b.p)) verdict("failed-realloc", on() + "the old block is gone after a failed reallocation");
            settle(); cx.ev("reallocate", what, (uint64_t)b.n, (uint64_t)n, err);
            if(!intact(b, b.p, b.n * a->osz)) verdict("failed-realloc", on() + "a failed reallocation changed the old objects");
            if(!over && up.fired == f0 && n <= 4096) verdict("spurious-failure", on() + "reallocate raised: " + why);
            cx.probe("reallocate-refused"); return;
        }
        settle(); cx.ev("reallocate", what, (uint64_t)b.n, (uint64_t)n, err, p == b.p); cx.sig(n < 64 ? n + 100 : 200);
        if(over) verdict("undersized", on() + "a request for " + std::to_string(n) + " objects was granted");
        if(!p) verdict("null-block", on() + "reallocate returned null");
        blk.erase(blk.begin() + (long)j); B c = b; c.p = p; c.n = n; check_new(c);
        if(!intact(b, p, std::min(b.n, n) * a->osz)) verdict("contents-lost", on() + "reallocate from " + std::to_string(b.n) + " to " + std::to_string(n) + " objects did not keep the contents");
        cx.probe(b.arr ? (c.arr ? "realloc-array-array" : "realloc-array-resource") : (c.arr ? "realloc-resource-array" : "realloc-resource-resource"));
        fill(c); blk.push_back(c); if(arr_empty()) lifo = true; else lifo = false;
    }
    void run() {
        num = cx.draw(2) ? 0 : 1 + cx.draw(6); a = build(); cx.ev("allocator", what);
        uint32_t ops = 1 + cx.draw(cx.draw(2) ? 10 : 30);
        const uint32_t w[] = {8, 6, with_realloc ? 8u : 0u, 1, 1, 1, 1};
        for(uint32_t o = 0; o < ops; ++o) {
            switch(cx.weighted(w)) { case 0: op_alloc(); break; case 1: op_dealloc(); break; case 2: op_realloc(); break; case 3: a->shuffle(1 + cx.draw(3)); break;
            case 4: if(per) { set_memory_resource(cx.draw(2) ? &other : &up); cx.ev("global-resource-changed"); cx.probe("global-changed-under-instance-allocator"); } break; // of no concern to an allocator with its own resource
            case 5: if(!a->small || arr_empty()) { up.num = num; a->offshoot(cx.draw(4), up); up.num = 0; cx.ev("offshoot"); } break;
            default: { // someone else's scope in between
                ScopedMemoryResource s(&other); void *p = nullptr; if(!raised([&] { p = get_memory_resource()->allocate(8); })) { settle(); get_memory_resource()->deallocate(p, 8); } cx.ev("foreign-scope"); break; }
            }
            check_all();
        }
        num = 0; while(!blk.empty()) op_dealloc();
        a->destroy(); settle(); up.check_all(); other.check_all(); settle();
        if(!up.live.empty() || !other.live.empty()) verdict("leak", on() + std::to_string(up.live.size() + other.live.size()) + " block(s) were never returned");
    }
    // std containers over the allocators
    template<class C, class Mk> void container(Mk mk) {
        { std::vector<uint64_t> ref; C c = mk(); num = cx.draw(2) ? 0 : 1 + cx.draw(6); uint32_t ops = 1 + cx.draw(40);
        for(uint32_t o = 0; o < ops; ++o) {
            uint64_t v = 0x1111111111111111ull * (o + 1); uint32_t k = cx.draw(8); size_t f0 = up.fired; std::string why; up.num = num;
            bool err = raised([&] { if(k < 5) c.push_back(v); else if(k == 5) { C d(c); d.push_back(v); c.swap(d); } else if(k == 6) { C d(std::move(c)); c = std::move(d); } else if(!c.empty()) c.pop_back(); }, &why);
            up.num = 0; settle();
            if(err) { if(up.fired == f0) verdict("spurious-failure", "container growth raised: " + why); } else { if(k <= 5) ref.push_back(v); else if(k == 7 && !ref.empty()) ref.pop_back(); }
            cx.ev("container", (uint64_t)k, err, (uint64_t)ref.size());
            if(k != 6 && (c.size() != ref.size() || !std::equal(ref.begin(), ref.end(), c.begin()))) verdict("bytes-changed", "a container over the allocator lost its elements");
            up.check_all(); settle(); if(!other.live.empty()) verdict("wrong-resource", std::string(what) + ": a container took memory from another resource than its allocator's");
        } }
        settle(); if(!up.live.empty()) verdict("leak", "a destroyed container left blocks with the resource");
    }
    void run_container() {
        uint32_t which = cx.draw(3); set_memory_resource(which && cx.draw(2) ? &other : &up);
        using VG = std::vector<uint64_t, c4::allocator<uint64_t>>; using VM = std::vector<uint64_t, allocator_mr<uint64_t>>; using LM = std::list<uint64_t, allocator_mr<uint64_t>>;
        switch(which) { case 0: what = "vector/global"; container<VG>([] { return VG(); }); break;
        case 1: what = "vector/mr"; container<VM>([&] { return VM(allocator_mr<uint64_t>(&up)); }); break;
        default: what = "list/mr"; container<LM>([&] { return LM(allocator_mr<uint64_t>(&up)); }); }
    }
};
}
void allocworld_run(Ctx &cx, bool with_realloc) {
    g = &cx; g_stop = false; arena.reset();
    struct End { ~End() { raw = nullptr; set_memory_resource(get_memory_resource_malloc()); } } end;
    World w{cx, with_realloc};
    try { if(!with_realloc && cx.draw(6) == 0) w.run_container(); else w.run(); } catch(Stop const&) {}
}
