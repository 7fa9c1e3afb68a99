// C04: growing-container formatting survives allocation failure.
#include "c04.hpp"
#include <cstdlib>
namespace c04 { Heap heap; }
using namespace c04;

// only blocks allocated while a call under test runs are counted (header tag)
struct Hdr { uint64_t tag, pad; };
void *operator new(size_t n) {
    if(heap.fail("alloc-failure")) throw std::bad_alloc();
    Hdr *h = (Hdr*)malloc(sizeof(Hdr) + n); if(!h) throw std::bad_alloc();
    h->tag = heap.on; if(h->tag) ++heap.live;
    memset(h + 1, 0xcd, n); return h + 1;
}
static void sim_free(void *p) { if(p) { Hdr *h = (Hdr*)p - 1; if(h->tag) --heap.live; free(h); } }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim_free(p); }
void *operator new[](size_t n) { return ::operator new(n); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_free(p); }

void sim_init() { c4err_install(); }

static Pack draw_pack(Ctx &cx) {
    Pack p; p.form = (int)cx.draw(3); bool reals = cx.chance(1, 4);
    uint32_t n = p.form == 2 ? cx.draw(4) : 1 + cx.draw(3);
    for(uint32_t i = 0; i < n; ++i) { Arg a; if(cx.draw(4) == 0) { a.is_text = true; a.text = draw_text(cx, 50); } else a.val = draw_val(cx, reals, 50); if(!a.is_text && !a.val.exact) p.exact = false; p.args.push_back(a); }
    if(p.form == 0) for(auto &a : p.args) p.ref += a.ref();
    else if(p.form == 1) {
        if(cx.draw(2)) { p.sep.is_text = true; p.sep.text = draw_text(cx, 6); } else p.sep.val = draw_val(cx, false, 6);
        for(uint32_t i = 0; i < n; ++i) { if(i) p.ref += p.sep.ref(); p.ref += p.args[i].ref(); }
    } else {
        uint32_t slots = cx.draw(4) == 0 ? cx.draw(5) : n;
        for(uint32_t i = 0; i <= slots; ++i) {
            std::string l; for(uint32_t k = cx.draw(8); k; --k) l += "ab}x, "[cx.draw(6)];
            p.fmt += l; p.ref += l;
            if(i < slots) { p.fmt += "{}"; if(i < n) p.ref += p.args[i].ref(); else p.ref += "{}"; }
        }
    }
    return p;
}

template<class C> static std::string text_of(C const& c) { csubstr s = to_csubstr(c); return std::string(s.str, s.len); }
template<class C> static void fill(C *c, std::string const& s) { c->resize(s.size()); if(s.size()) memcpy(to_substr(*c).str, s.data(), s.size()); }
static size_t resizes(std::string const&) { return 0; }
static size_t resizes(std::vector<char> const&) { return 0; }
static size_t resizes(SimCont const& c) { return c.resizes; }
template<class C> static void reserve(C *c, size_t n) { c->reserve(n); }
static void reserve(SimCont *, size_t) {}

template<class C> static void scenario(Ctx &cx, const char *name) {
    C c; uint32_t ops = 1 + cx.draw(5);
    for(uint32_t o = 0; o < ops; ++o) {
        if(cx.draw(3) == 0) { std::string init = draw_text(cx, 90); fill(&c, init); cx.ev("preset", init); }
        if(cx.draw(3) == 0) reserve(&c, cx.draw(200));
        std::string before = text_of(c);
        if(cx.draw(6) == 0) { // from_chars into the container
            if constexpr (!std::is_same<C, SimCont>::value) {
                std::string src = draw_text(cx, 120, true); size_t tries = 0;
                for(bool done = false; !done; ++tries) {
                    heap.num = tries < 3 ? cx.draw(5) : 0;
                    try { bool ok; { Window w; ok = c4::from_chars(csubstr(src.data(), src.size()), &c); } done = true; cx.check(ok, "from_chars-refused", "from_chars into a container returned false"); }
                    catch(std::bad_alloc const&) { cx.check(text_of(c).size() <= before.size() + src.size(), "invalid-container", "size after failure"); cx.probe("recovered-after-bad_alloc"); }
                }
                cx.check(text_of(c) == src, "wrong-text", "from_chars gave " + sim::quote(text_of(c)) + " expected " + sim::quote(src));
                cx.ev("from_chars", name, src);
                continue;
            }
        }
        Pack p = draw_pack(cx); int mode = (int)cx.draw(3);
        static const char *fn[] = {"catrs", "catseprs", "formatrs"}; static const char *mn[] = {"", "_append", "<return>"};
        cx.ev("op", fn[p.form], mn[mode], name, before, p.ref); cx.sig(p.form * 8 + mode); cx.sig(before.size()); cx.sig(p.ref.size());
        size_t tries = 0; csubstr view;
        for(bool done = false; !done; ++tries) {
            heap.num = tries < 3 ? cx.draw(5) : 0; // faults stop after three attempts
            size_t r0 = resizes(c);
            try { run_pack(p, mode, &c, &view); done = true; }
            catch(std::bad_alloc const&) {
                cx.ev("bad_alloc", (uint64_t)c.size()); cx.probe("recovered-after-bad_alloc");
                std::string now = text_of(c);
                if(mode == mAppend) {
                    cx.check(now.size() >= before.size() && now.compare(0, before.size(), before) == 0, "prior-content-lost", std::string(fn[p.form]) + "_append: content before the append position changed after a failed growth: " + sim::quote(now) + " was " + sim::quote(before));
                    if(now.size() != before.size()) { bool f = heap.on; heap.on = false; c.resize(before.size()); heap.on = f; }
                } else if(mode == mReturn) cx.check(now == before, "prior-content-lost", "a returning form touched an unrelated container");
            }
            if(r0 || std::is_same<C, SimCont>::value) { size_t dr = resizes(c) - r0; size_t bound = p.exact ? 8 : p.ref.size() + 60; cx.check(dr <= bound, "too-many-resizes", std::to_string(dr) + " resizes for a text of " + std::to_string(p.ref.size())); }
        }
        std::string want = mode == mAppend ? before + p.ref : p.ref, got = text_of(c);
        if(got != want) cx.fail("wrong-text", std::string(fn[p.form]) + mn[mode] + " on " + name + " gave " + sim::quote(got) + " expected " + sim::quote(want));
        if(mode == mAppend) {
            csubstr all = to_csubstr(c);
            cx.check(view.len == p.ref.size() && (view.len == 0 || view.str == all.str + before.size()), "wrong-view", "the returned view is not the appended region: offset " + std::to_string(view.str - all.str) + " len " + std::to_string(view.len));
        }
        cx.ev("done", (uint64_t)tries);
    }
}

void sim_run(Ctx &cx) {
    heap.cx = &cx; heap.on = false; heap.num = 0; int64_t live0 = heap.live;
    struct Off { ~Off() { heap.on = false; heap.cx = nullptr; } } off;
    switch(cx.draw(3)) {
    case 0: scenario<std::string>(cx, "std::string"); break;
    case 1: scenario<std::vector<char>>(cx, "std::vector<char>"); break;
    default: scenario<SimCont>(cx, "user container"); break;
    }
    int64_t d = heap.live - live0;
    if(d) cx.fail("leak", "allocations of the calls under test outstanding after the run: " + std::to_string(d));
}
