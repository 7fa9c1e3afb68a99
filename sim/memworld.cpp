// A world of chained memory resources under a drawn history of operations and
// upstream failures, against a reference ledger.
#include "memworld.hpp"
#include <new>
#include <algorithm>
using namespace memsim; using namespace c4;
namespace {
enum Kind { kMalloc, kDerived, kCounts, kScoped, kLinOwned, kLinLent, kLinArr, kUp };
static const char *kname[] = {"malloc", "derived", "counts", "scoped-counts", "linear-owned", "linear-lent", "linear-arr", "upstream"};
struct Ref { int64_t cn = 0, cs = 0, tn = 0, ts = 0, mn = 0, ms = 0;
    void add(size_t s) { ++cn; cs += (int64_t)s; ++tn; ts += (int64_t)s; mn = std::max(mn, cn); ms = std::max(ms, cs); }
    void rem(size_t s) { --cn; cs -= (int64_t)s; } };
struct Node {
    Kind k; MemoryResource *r = nullptr; MemoryResourceLinear *lin = nullptr; MemoryResourceCounts *cnt = nullptr; void *obj = nullptr; size_t objsz = 0;
    int parent = -1; int children = 0; char *lent = nullptr; size_t lentsz = 0; char *mem = nullptr; size_t cap = 0; Ref ref; MemoryResource *prev = nullptr;
    bool is_lin() const { return k == kLinOwned || k == kLinLent || k == kLinArr; }
    bool owned = false;
};
struct B { int node; char *p; size_t sz, al; uint32_t pat; };

struct World {
    Ctx &cx; Profile const& pr; Up upa{"upstream A"}, upb{"upstream B"}; std::vector<Node> n; std::vector<B> blk; uint32_t next_pat = 1; uint32_t num = 0;
    World(Ctx &c, Profile const& p) : cx(c), pr(p) {}
    std::string at(int i) { return std::string(kname[n[i].k]) + "#" + std::to_string(i); }
    size_t fired() { return upa.fired + upb.fired; }
    Up *up_of(Node const& x) { return x.k == kUp ? static_cast<Up*>(x.r) : raw; }
    // nearest linear resource at or above node i (-1: none, memory comes straight from the upstream)
    int lin_of(int i) { while(i >= 0 && !n[i].is_lin()) i = n[i].parent; return i; }
    int base_of(int i) { while(n[i].parent >= 0) i = n[i].parent; return i; }
    // counts resources that see a request made at node i
    template<class F> void counters(int i, F f) { for(; i >= 0; i = n[i].parent) { if(n[i].cnt) f(n[i].ref); if(n[i].is_lin()) break; } }
    template<class F> void counters_above(int i, F f) { if(n[i].parent >= 0) counters(n[i].parent, f); }
    bool below(int i, int anc) { for(; i >= 0; i = n[i].parent) if(i == anc) return true; return false; }

    void *place(size_t sz) { char *p = arena.take(sz, 64, false); memset(p, 0x5e, sz); return p; }
    size_t draw_size(size_t hint) {
        switch(cx.draw(8)) {
        case 0: return 1 + cx.draw(8);
        case 1: return 1 + cx.draw(40);
        case 2: case 3: return 1 + cx.draw(120);
        case 4: return hint ? (size_t)std::max<int64_t>(1, (int64_t)hint + (int64_t)cx.draw(5) - 2) : 16;
        case 5: return 1 + cx.draw(400);
        case 6: return (size_t)1 << cx.draw(9);
        default: if(cx.draw(4)) return 1 + cx.draw(64); cx.probe("huge-request"); return (size_t)0 - 1 - cx.draw(300) * (cx.draw(2) ? 1 : 0) ;
        }
    }
    size_t draw_al() { static const size_t a[] = {16, 8, 4, 1, 2, 32, 64, 256}; return a[cx.draw(cx.draw(3) ? 6 : 8)]; }
    void faults_on() { upa.num = upb.num = num; }
    void faults_off() { upa.num = upb.num = 0; }

    void learn_chunk(int i) { Node &x = n[i]; x.mem = (char*)x.lin->mem(); x.cap = x.lin->capacity(); }
    void check_chunk(int i, size_t want) { // after a successful acquire
        Node &x = n[i];
        if(x.cap != want) verdict("accounting", at(i) + ": capacity() is " + std::to_string(x.cap) + " after acquiring " + std::to_string(want));
        if(x.lin->size() != 0) verdict("accounting", at(i) + ": size() is not 0 after acquiring");
        if(x.k == kLinArr && x.lent == nullptr) { if(x.mem < (char*)x.obj || x.mem + x.cap > (char*)x.obj + x.objsz) verdict("out-of-bounds", at(i) + ": the array is not inside the object"); }
        else if(!x.owned) { if(x.mem != x.lent || x.cap != x.lentsz) verdict("out-of-bounds", at(i) + ": does not use the lent memory"); }
        else {
            int l = lin_of(x.parent);
            if(l >= 0) { if(x.mem < n[l].mem || x.mem + x.cap > n[l].mem + n[l].cap) verdict("out-of-bounds", at(i) + ": chunk outside the resource it came from"); }
            else { Up *u = up_of(n[base_of(i)]); auto it = u->live.find(x.mem); if(it == u->live.end() || it->second.sz < x.cap) verdict("chunk-source", at(i) + ": its chunk was not obtained from its upstream resource"); }
        }
    }
    void build() {
        uint32_t cnt = 1 + cx.draw(5); int global = -1;
        { Node x; if(cx.draw(3) == 0) { raw_install((int)cx.draw(3)); x.k = kMalloc; x.obj = place(x.objsz = sizeof(MemoryResourceMalloc)); x.r = new(x.obj) MemoryResourceMalloc; } else { x.k = kUp; x.r = &upa; } n.push_back(x); cx.ev("node", kname[x.k]); }
        if(cx.draw(3) == 0) { Node x; x.k = kUp; x.r = &upb; n.push_back(x); }
        set_memory_resource(n[0].r); global = 0; glob = 0;
        for(uint32_t c = 0; c < cnt; ++c) {
            Node x; x.k = (Kind)(kDerived + cx.weighted(pr.kinds)); x.parent = (int)cx.draw((uint32_t)n.size());
            int i = (int)n.size(); bool use_global = cx.draw(4) == 0; if(use_global) x.parent = glob;
            MemoryResource *pm = use_global ? nullptr : n[x.parent].r; size_t sz = 0; int kk = x.k;
            n.push_back(x); Node &y = n.back(); bool ok = true; y.prev = get_memory_resource();
            faults_on(); size_t f0 = fired(); bool err = false; std::string why; size_t need = 0; (void)need;
            auto mk = [&] {
                switch(kk) {
                case kDerived: y.obj = place(y.objsz = sizeof(detail::DerivedMemoryResource)); y.r = new(y.obj) detail::DerivedMemoryResource(pm); break;
                case kCounts: y.obj = place(y.objsz = sizeof(MemoryResourceCounts)); y.r = y.cnt = use_global ? new(y.obj) MemoryResourceCounts() : new(y.obj) MemoryResourceCounts(pm); break;
                case kScoped: { y.obj = place(y.objsz = sizeof(ScopedMemoryResourceCounts)); auto *s = use_global ? new(y.obj) ScopedMemoryResourceCounts() : new(y.obj) ScopedMemoryResourceCounts(pm); y.cnt = &s->mr; y.r = y.cnt; break; }
                case kLinOwned: y.obj = place(y.objsz = sizeof(MemoryResourceLinear)); y.owned = true; y.r = y.lin = cx.draw(3) == 0 ? new(y.obj) MemoryResourceLinear(pm) : nullptr; if(!y.lin) y.r = y.lin = new(y.obj) MemoryResourceLinear(sz = 1 + cx.draw(cx.draw(2) ? 600 : 100), pm); break;
                case kLinLent: y.parent = -2; lend(y); y.obj = place(y.objsz = sizeof(MemoryResourceLinear)); y.r = y.lin = new(y.obj) MemoryResourceLinear(y.lent, y.lentsz); sz = y.lentsz; break;
                default: y.parent = -2; if(cx.draw(2)) { sz = 64; y.obj = place(y.objsz = sizeof(MemoryResourceLinearArr<64>)); y.r = y.lin = new(y.obj) MemoryResourceLinearArr<64>; } else { sz = 300; y.obj = place(y.objsz = sizeof(MemoryResourceLinearArr<300>)); y.r = y.lin = new(y.obj) MemoryResourceLinearArr<300>; } break;
                }
            };
            int lp = y.parent >= 0 ? lin_of(y.parent) : -1; bool can = true;
            size_t lsize = lp >= 0 ? n[lp].lin->size() : 0;
            err = raised(mk, &why); faults_off(); settle();
            cx.ev("node", kname[kk], (uint64_t)sz, y.parent, err); cx.sig((uint64_t)kk * 16 + (uint64_t)(y.parent + 2));
            if(err) {
                if(!sz) verdict("spurious-failure", "construction without acquiring raised: " + why);
                can = lp < 0 ? sz < (1u << 19) : fits(lp, lsize, sz, alignof(max_align_t));
                if(can && fired() == f0) verdict("spurious-failure", std::string("constructing ") + kname[kk] + " of " + std::to_string(sz) + " bytes raised: " + why);
                n.pop_back(); continue;
            }
            if(y.parent == -2) { y.parent = -1; y.k = (Kind)kk; }
            if(y.lin && (sz || y.k != kLinOwned)) { learn_chunk(i); check_chunk(i, sz); if(y.owned) counters_above(i, [&](Ref &r) { r.add(sz); }); }
            if(y.parent >= 0) ++n[y.parent].children;
            if(kk == kScoped) { if(get_memory_resource() != y.r) verdict("scope", "a ScopedMemoryResourceCounts did not become current"); glob = i; }
            else if(pr.w[7] && cx.draw(5) == 0) { glob = i; set_memory_resource(y.r); }
            (void)ok; (void)global;
            check_counts();
        }
    }
    int glob = 0;
    void lend(Node &y) { y.lentsz = 1 + cx.draw(cx.draw(2) ? 400 : 60); y.lent = arena.take(y.lentsz, (size_t)1 << cx.draw(5), true); memset(y.lent, 0x33, y.lentsz); canary_set(y.lent, y.lentsz); lents.push_back({y.lent, y.lentsz}); }
    struct L { char *p; size_t sz; }; std::vector<L> lents;
    bool fits(int l, size_t pos, size_t sz, size_t al) { Node &x = n[l]; if(!x.mem) return false; uintptr_t a = (uintptr_t)x.mem + pos; uintptr_t b = (a + al - 1) & ~(uintptr_t)(al - 1); size_t used = (size_t)(b - (uintptr_t)x.mem); return used <= x.cap && sz <= x.cap - used; }

    void check_counts() { for(size_t i = 0; i < n.size(); ++i) if(n[i].cnt) {
        AllocationCounts const& c = n[i].cnt->counts(); Ref const& r = n[i].ref;
        if(c.curr.allocs != r.cn || c.curr.size != r.cs || c.total.allocs != r.tn || c.total.size != r.ts || c.max.allocs != r.mn || c.max.size != r.ms) {
            char b[400]; snprintf(b, sizeof b, "%s: counts are curr %ld/%ld total %ld/%ld max %ld/%ld, the ledger says curr %ld/%ld total %ld/%ld max %ld/%ld", at((int)i).c_str(), (long)c.curr.allocs, (long)c.curr.size, (long)c.total.allocs, (long)c.total.size, (long)c.max.allocs, (long)c.max.size, (long)r.cn, (long)r.cs, (long)r.tn, (long)r.ts, (long)r.mn, (long)r.ms);
            verdict("counts", b); } } }
    void fill(B &b) { b.pat = next_pat++; for(size_t i = 0; i < b.sz; ++i) b.p[i] = (char)pat(b.pat, i); }
    bool intact(B const& b, const char *p, size_t k) { for(size_t i = 0; i < k; ++i) if((unsigned char)p[i] != pat(b.pat, i)) return false; return true; }
    void check_block(B const& b) {
        if((uintptr_t)b.p & (b.al - 1)) verdict("misaligned", at(b.node) + ": block of " + std::to_string(b.sz) + " bytes is not aligned to " + std::to_string(b.al));
        int l = lin_of(b.node);
        if(l >= 0) { Node &x = n[l]; if(b.p < x.mem || b.p > x.mem + x.cap || b.sz > (size_t)(x.mem + x.cap - b.p)) verdict("out-of-bounds", at(b.node) + ": block of " + std::to_string(b.sz) + " bytes at offset " + std::to_string(b.p - x.mem) + " is outside the " + std::to_string(x.cap) + " bytes of " + at(l)); }
        else { Up *u = up_of(n[base_of(b.node)]); auto it = u->live.find(b.p); if(it == u->live.end() || it->second.sz < b.sz) verdict("out-of-bounds", at(b.node) + ": block of " + std::to_string(b.sz) + " bytes is not within memory obtained upstream"); }
        for(B const& o : blk) if(o.p != b.p || o.pat != b.pat) if(o.sz && b.sz && o.p < b.p + b.sz && b.p < o.p + o.sz) verdict("overlap", at(b.node) + ": a new block of " + std::to_string(b.sz) + " bytes overlaps a live one of " + std::to_string(o.sz) + " from " + at(o.node));
        for(size_t i = 0; i < n.size(); ++i) if(n[i].is_lin() && n[i].mem && !below(b.node, (int)i) && !below((int)i, b.node)) { Node &x = n[i]; int lx = lin_of(b.node); if(lx >= 0 && below(lx, (int)i)) continue; if(b.sz && x.cap && b.p < x.mem + x.cap && x.mem < b.p + b.sz && !(lx >= 0 && below((int)i, lx) && 0)) verdict("overlap", at(b.node) + ": a new block overlaps the chunk of " + at((int)i)); }
    }
    void check_all() {
        for(B const& b : blk) if(!intact(b, b.p, b.sz)) verdict("bytes-changed", at(b.node) + ": bytes of a live block of " + std::to_string(b.sz) + " changed behind its owner's back");
        upa.check_all(); upb.check_all();
        for(L const& l : lents) if(!canary_ok(l.p, l.sz)) note("out-of-bounds", "bytes next to lent memory were overwritten");
        settle(); check_counts();
        for(size_t i = 0; i < n.size(); ++i) if(n[i].is_lin()) {
            MemoryResourceLinear &m = *n[i].lin;
            if((char*)m.mem() != n[i].mem || m.capacity() != n[i].cap) verdict("accounting", at((int)i) + ": chunk changed unexpectedly");
            if(m.size() > m.capacity() || m.slack() != m.capacity() - m.size()) verdict("accounting", at((int)i) + ": size, slack and capacity disagree");
        }
        for(B const& b : blk) { int l = lin_of(b.node); if(l >= 0 && b.sz && (size_t)(b.p + b.sz - n[l].mem) > n[l].lin->size()) verdict("accounting", at(l) + ": size() does not cover a live block"); }
    }
    struct Acc { size_t size, cap, slack; const void *mem; bool operator==(Acc const& o) const { return size == o.size && cap == o.cap && slack == o.slack && mem == o.mem; } };
    std::vector<Acc> accounts() { std::vector<Acc> v; for(Node &x : n) if(x.is_lin()) v.push_back({x.lin->size(), x.lin->capacity(), x.lin->slack(), x.lin->mem()}); return v; }
    // may the request at node i be refused? (no fault fired)
    bool must_succeed(int i, size_t sz, size_t al) { int l = lin_of(i); if(sz == 0) return l < 0; return l >= 0 ? fits(l, n[l].lin->size(), sz, al) : sz <= 4096; }

    void op_alloc() {
        int i = (int)cx.draw((uint32_t)n.size()); int l = lin_of(i); size_t al = draw_al(); size_t sz = cx.draw(40) == 0 ? 0 : draw_size(l >= 0 ? n[l].lin->slack() : 0);
        bool must = must_succeed(i, sz, al); auto acc = accounts(); size_t f0 = fired(); void *p = nullptr; std::string why;
        faults_on(); bool err = raised([&] { p = n[i].r->allocate(sz, al); }, &why); faults_off(); settle();
        cx.ev("alloc", at(i).c_str(), (uint64_t)sz, (uint64_t)al, err); cx.sig((uint64_t)i * 4 + err); cx.sig(sz < 64 ? sz / 8 : 8); cx.sig(al);
        if(err) {
            if(must && fired() == f0) verdict("spurious-failure", at(i) + ": a request of " + std::to_string(sz) + " bytes that fits was refused: " + why);
            if(!(accounts() == acc)) verdict("accounting", at(i) + ": a refused request changed size, slack or capacity");
            cx.probe("alloc-refused"); return;
        }
        if(!p) verdict("null-block", at(i) + ": allocate returned null");
        B b{i, (char*)p, sz, al, 0}; check_block(b);
        if(l >= 0 && sz) { size_t end = (size_t)(b.p + sz - n[l].mem); if(n[l].lin->size() != end) verdict("accounting", at(l) + ": size() is " + std::to_string(n[l].lin->size()) + " but the last block ends at " + std::to_string(end)); }
        fill(b); blk.push_back(b); counters(i, [&](Ref &r) { r.add(sz); });
    }
    void op_dealloc() {
        if(blk.empty()) return;
        size_t j = cx.draw((uint32_t)blk.size()); B b = blk[j]; blk.erase(blk.begin() + (long)j);
        n[b.node].r->deallocate(b.p, b.sz, b.al); cx.ev("dealloc", at(b.node).c_str(), (uint64_t)b.sz); settle();
        counters(b.node, [&](Ref &r) { r.rem(b.sz); });
    }
    void op_realloc() {
        if(blk.empty()) return op_alloc();
        size_t j = cx.draw(2) ? blk.size() - 1 : cx.draw((uint32_t)blk.size()); B b = blk[j]; int l = lin_of(b.node);
        size_t nsz = cx.draw(30) == 0 && l >= 0 ? 0 : draw_size(cx.draw(2) ? b.sz : l >= 0 ? b.sz + n[l].lin->slack() : b.sz);
        bool last = l >= 0 && b.p + b.sz == n[l].mem + n[l].lin->size();
        bool must = l >= 0 ? (nsz <= b.sz || (last && nsz - b.sz <= n[l].lin->slack()) || fits(l, n[l].lin->size(), nsz, b.al)) : nsz <= 4096;
        auto acc = accounts(); size_t f0 = fired(); void *p = nullptr; std::string why;
        faults_on(); bool err = raised([&] { p = n[b.node].r->reallocate(b.p, b.sz, nsz, b.al); }, &why); faults_off();
        if(!g_stop && !cx.sh->violated) cx.ev("realloc", at(b.node).c_str(), (uint64_t)b.sz, (uint64_t)nsz, err); cx.sig((uint64_t)b.node * 4 + err + 2); cx.sig((nsz > b.sz) * 2 + last);
        if(err) {
            if(l < 0) { Up *u = up_of(n[base_of(b.node)]); if(!u->live.count(b.p)) verdict("failed-realloc", at(b.node) + ": the old block is gone after a failed reallocation"); }
            settle();
            if(must && fired() == f0) verdict("spurious-failure", at(b.node) + ": a reallocation from " + std::to_string(b.sz) + " to " + std::to_string(nsz) + " bytes that fits was refused: " + why);
            if(!intact(b, b.p, b.sz)) verdict("failed-realloc", at(b.node) + ": a failed reallocation changed the old block's bytes");
            if(!(accounts() == acc)) verdict("accounting", at(b.node) + ": a refused reallocation changed size, slack or capacity");
            cx.probe("realloc-refused"); return;
        }
        settle();
        if(!p) verdict("null-block", at(b.node) + ": reallocate returned null");
        if(!intact(b, (char*)p, std::min(b.sz, nsz))) { // bounds first, if it is those
            B c = b; c.p = (char*)p; c.sz = nsz; blk.erase(blk.begin() + (long)j); check_block(c);
            verdict("contents-lost", at(b.node) + ": reallocating from " + std::to_string(b.sz) + " to " + std::to_string(nsz) + " bytes did not keep the contents" + (p == b.p ? " (in place)" : " (moved)"));
        }
        cx.probe(p == b.p ? "realloc-in-place" : "realloc-moved");
        blk.erase(blk.begin() + (long)j); size_t osz = b.sz; b.p = (char*)p; b.sz = nsz; check_block(b); fill(b); blk.push_back(b);
        counters(b.node, [&](Ref &r) { r.rem(osz); r.add(nsz); });
    }
    int draw_leaf_lin() { std::vector<int> v; for(size_t i = 0; i < n.size(); ++i) if(n[i].is_lin() && n[i].children == 0 && n[i].k != kLinArr) v.push_back((int)i); return v.empty() ? -1 : v[cx.draw((uint32_t)v.size())]; }
    void kill_blocks(int i) { blk.erase(std::remove_if(blk.begin(), blk.end(), [&](B const& b) { return b.node == i; }), blk.end()); }
    void op_clear() { std::vector<int> v; for(size_t i = 0; i < n.size(); ++i) if(n[i].is_lin() && n[i].children == 0) v.push_back((int)i); if(v.empty()) return; int i = v[cx.draw((uint32_t)v.size())]; kill_blocks(i); n[i].lin->clear(); cx.ev("clear", at(i).c_str()); if(n[i].lin->size() != 0) verdict("accounting", at(i) + ": size() is not 0 after clear()"); }
    // the chunk goes back upstream at release, re-acquire and destruction
    void gone(int i) { Node &x = n[i]; if(x.owned && x.mem) { size_t c = x.cap; counters_above(i, [&](Ref &r) { r.rem(c); }); } x.owned = false; x.mem = nullptr; x.cap = 0; }
    void expect_returned(int i, char *mem, size_t cap, const char *when) {
        if(!mem || lin_of(n[i].parent) >= 0 || n[i].parent < 0) return;
        Up *u = up_of(n[base_of(i)]); if(u->live.count(mem)) verdict("leak", at(i) + ": " + when + " did not return the owned chunk of " + std::to_string(cap) + " bytes upstream");
    }
    void op_release() {
        int i = draw_leaf_lin(); if(i < 0) return; Node &x = n[i]; char *mem = x.owned ? x.mem : nullptr; size_t cap = x.cap; kill_blocks(i);
        x.lin->release(); cx.ev("release", at(i).c_str()); settle(); gone(i);
        expect_returned(i, mem, cap, "release()");
        if(x.lin->mem() || x.lin->capacity() || x.lin->size()) verdict("accounting", at(i) + ": still has memory after release()");
    }
    void op_acquire() {
        int i = draw_leaf_lin(); if(i < 0) return; Node &x = n[i]; char *mem = x.owned ? x.mem : nullptr; size_t cap = x.cap; kill_blocks(i);
        bool own = x.parent >= 0 && cx.draw(3) != 0; // resources built on lent memory have the global upstream of that moment
        if(!own) {
            size_t before = lents.size(); lend(x); (void)before; x.lin->acquire(x.lent, x.lentsz); cx.ev("acquire-lent", at(i).c_str(), (uint64_t)x.lentsz); settle();
            gone(i); expect_returned(i, mem, cap, "acquire(mem,size)"); x.owned = false; learn_chunk(i); check_chunk(i, x.lentsz); return;
        }
        size_t sz = 1 + cx.draw(cx.draw(2) ? 600 : 100); if(cx.draw(12) == 0) sz = (size_t)0 - 1 - cx.draw(64);
        int lp = lin_of(x.parent); bool can = lp >= 0 ? fits(lp, n[lp].lin->size(), sz, alignof(max_align_t)) : sz <= 4096; size_t f0 = fired(); std::string why;
        bool was_owned = x.owned;
        faults_on(); bool err = raised([&] { x.lin->acquire(sz); }, &why); faults_off(); settle(); cx.ev("acquire", at(i).c_str(), (uint64_t)sz, err); cx.sig(77 + err);
        if(err) {
            if(can && fired() == f0) verdict("failed-acquire", at(i) + ": acquire(" + std::to_string(sz) + ") raised although its upstream did not fail: " + why);
            cx.probe("acquire-refused");
            if(x.lin->mem() == nullptr) { gone(i); expect_returned(i, mem, cap, "a failed acquire"); if(x.lin->capacity() || x.lin->size()) verdict("failed-acquire", at(i) + ": claims capacity or size without memory after a failed acquire"); }
            else if((char*)x.lin->mem() != x.mem || x.lin->capacity() != cap || (was_owned && lp < 0 && !up_of(n[base_of(i)])->live.count(x.mem))) verdict("failed-acquire", at(i) + ": holds memory that is not its own after a failed acquire");
            return;
        }
        std::vector<Ref> both; if(was_owned && x.mem) counters_above(i, [&](Ref &r) { Ref q = r; q.add(sz); both.push_back(q); }); // the new chunk may be taken before the old one is returned
        gone(i); x.owned = true; learn_chunk(i);
        if(lp < 0) expect_returned(i, mem == x.mem ? nullptr : mem, cap, "acquire(size)");
        check_chunk(i, sz); counters_above(i, [&](Ref &r) { r.add(sz); });
        if(!both.empty()) { size_t k = 0; for(int a = x.parent; a >= 0; a = n[a].parent) { if(n[a].cnt) { Ref const& q = both[k++]; auto const& mx = n[a].cnt->counts().max; if(mx.allocs == q.mn && mx.size == q.ms) { n[a].ref.mn = q.mn; n[a].ref.ms = q.ms; } } if(n[a].is_lin()) break; } }
    }
    void op_null() { int i = (int)cx.draw((uint32_t)n.size()); n[i].r->deallocate(nullptr, cx.draw(2) ? 0 : cx.draw(50)); cx.ev("dealloc-null", at(i).c_str()); settle(); }
    void op_switch() { if(n.empty()) return; for(Node &x : n) if(x.k == kScoped) return; glob = (int)cx.draw((uint32_t)n.size()); set_memory_resource(n[glob].r); cx.ev("switch-global", at(glob).c_str()); }

    void run() {
        raw = &upa; raw_install(1);
        num = cx.draw(2) ? 0 : 1 + cx.draw(5);
        build();
        if(n.empty()) return;
        uint32_t ops = 1 + cx.draw(cx.draw(2) ? 12 : 30);
        for(uint32_t o = 0; o < ops; ++o) {
            switch(cx.weighted(pr.w)) {
            case 0: op_alloc(); break; case 1: op_dealloc(); break; case 2: op_realloc(); break; case 3: op_clear(); break;
            case 4: op_acquire(); break; case 5: op_release(); break; case 6: op_null(); break; default: op_switch(); break;
            }
            check_all();
        }
        // faults stop: everything can be given back, and satisfiable requests succeed
        num = 0;
        if(cx.draw(2)) op_alloc();
        while(!blk.empty()) { op_dealloc(); if(blk.size() % 4 == 0) check_all(); }
        AllocationCounts sum{}; Ref rs;
        for(Node &x : n) if(x.cnt) {
            AllocationCounts a = x.cnt->counts(); Ref const& r = x.ref; sum.update(a); rs.cn += r.cn; rs.cs += r.cs; rs.tn += r.tn; rs.ts += r.ts; rs.mn += r.mn; rs.ms += r.ms;
            AllocationCounts p = a + sum, m = a - sum;
            auto eq = [](AllocationCounts const& c, int64_t cn, int64_t cs, int64_t tn, int64_t ts, int64_t mn, int64_t ms) { return c.curr.allocs == cn && c.curr.size == cs && c.total.allocs == tn && c.total.size == ts && c.max.allocs == mn && c.max.size == ms; };
            if(!eq(sum, rs.cn, rs.cs, rs.tn, rs.ts, rs.mn, rs.ms) || !eq(p, r.cn + rs.cn, r.cs + rs.cs, r.tn + rs.tn, r.ts + rs.ts, r.mn + rs.mn, r.ms + rs.ms) || !eq(m, r.cn - rs.cn, r.cs - rs.cs, r.tn - rs.tn, r.ts - rs.ts, r.mn - rs.mn, r.ms - rs.ms)) verdict("counts", "AllocationCounts arithmetic is not component-wise");
            p.clear_counts(); if(!eq(p, 0, 0, 0, 0, 0, 0) || !eq(AllocationCounts{}, 0, 0, 0, 0, 0, 0)) verdict("counts", "cleared AllocationCounts are not zero");
        }
        for(size_t i = n.size(); i-- > 0;) {
            Node x = n[i]; char *mem = x.owned ? x.mem : nullptr; if(x.k == kUp) continue;
            if(x.k == kScoped) static_cast<ScopedMemoryResourceCounts*>(x.obj)->~ScopedMemoryResourceCounts(); else x.r->~MemoryResource();
            settle();
            if(x.k == kScoped && get_memory_resource() != x.prev) verdict("scope", "a ScopedMemoryResourceCounts did not restore the resource that was current before");
            if(x.is_lin()) { expect_returned((int)i, mem, x.cap, "destruction"); gone((int)i); }
            n[i].cnt = nullptr; SIM_UNPOISON(x.obj, x.objsz); if(x.parent >= 0) --n[x.parent].children;
            n.erase(n.begin() + (long)i); check_counts();
        }
        upa.check_all(); upb.check_all(); settle();
        for(Up *u : {&upa, &upb}) if(!u->live.empty()) verdict("leak", std::string(u->id) + ": " + std::to_string(u->live.size()) + " block(s) outstanding after everything was destroyed");
    }
};
}
void memworld_run(Ctx &cx, Profile const& pr) {
    g = &cx; g_stop = false; arena.reset();
    struct End { ~End() { raw = nullptr; raw_install(0); set_memory_resource(get_memory_resource_malloc()); } } end;
    World w(cx, pr);
    try { w.run(); } catch(Stop const&) {}
}
