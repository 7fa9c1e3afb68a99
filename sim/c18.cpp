// C18: spans keep to the storage they were taken from, through any history of
// resizing, trimming, subselection and conversion.
#include "sim.hpp"
#include "c4err.hpp"
#include <c4/span.hpp>
#include <algorithm>
using sim::Ctx;
namespace {
#if !defined(NDEBUG) && defined(C4_ERROR_THROWS_EXCEPTION) // otherwise the members are noexcept: no callback may throw through them
constexpr bool asserting = true;
#else
constexpr bool asserting = false;
#endif
sim::Guarded gb; Ctx *g; std::string mem;
struct Wide { uint32_t a; uint16_t b; unsigned char c[6]; bool operator==(Wide const& o) const { return a == o.a && b == o.b && !memcmp(c, o.c, 6); } bool operator<(Wide const& o) const { return a < o.a; } };
template<class T> T val(uint32_t v) { return (T)v; }
template<> Wide val<Wide>(uint32_t v) { Wide w; memset(&w, 0, sizeof w); w.a = v; w.b = (uint16_t)(v * 7); memset(w.c, (int)v & 0xff, 6); return w; }
struct M { long off = 0, size = 0, cap = 0, lead = 0; bool null = true; }; // in elements of the storage; lead: spanrsl, distance to the original start
std::string str(M const& m) { return m.null ? "null" : "[" + std::to_string(m.off) + "," + std::to_string(m.size) + " of " + std::to_string(m.cap) + ", lead " + std::to_string(m.lead) + "]"; }
template<class T, class I> struct World {
    using S0 = c4::span<T, I>; using S1 = c4::spanrs<T, I>; using S2 = c4::spanrsl<T, I>;
    static constexpr int N = 3; S0 a[N]; S1 b[N]; S2 c[N]; M ma[N], mb[N], mc[N]; T *st; long n; Ctx &cx;
    explicit World(Ctx &x) : cx(x) {}
    template<class F> auto pick(F f) { int k = (int)cx.draw(3), i = (int)cx.draw(N); cx.sig((uint64_t)(k * 8 + i)); return k == 0 ? f(a[i], ma[i], 0) : k == 1 ? f(b[i], mb[i], 1) : f(c[i], mc[i], 2); }
    static long offset(S0 const&) { return 0; } static long offset(S1 const&) { return 0; } static long offset(S2 const& s) { return (long)s.offset(); }
    template<class S> void judge(const char *op, S const& s, M const& m, int kind) {
        long size = (long)s.size(), cap = (long)s.capacity(); const T *p = s.data();
        cx.ev(op, kind, m.null ? -1 : (int)m.off, (int)size, (int)cap, (int)offset(s));
        std::string w = std::string(op) + " on a " + (kind == 0 ? "span" : kind == 1 ? "spanrs" : "spanrsl") + ", should be " + str(m) + ": ";
        if(size != m.size) cx.fail("wrong-size", w + "size " + std::to_string(size));
        if(m.null) { if(p) cx.fail("wrong-start", w + "not null"); }
        else if(p != st + m.off) cx.fail("wrong-start", w + "starts at " + std::to_string(p - st));
        if(cap != m.cap) cx.fail("wrong-capacity", w + "capacity " + std::to_string(cap));
        if(kind == 2 && offset(s) != m.lead) cx.fail("wrong-capacity", w + "offset " + std::to_string(offset(s)));
        if(s.empty() != (size == 0) || s.begin() + size != s.end() || s.cbegin() != s.begin() || s.cend() != s.end()) cx.fail("wrong-size", w + "empty/begin/end disagree with size");
        if((long)s.byte_size() != (long)(I)(size * (long)sizeof(T)) || (size_t)s.value_size() != sizeof(T) || (size_t)s.elm_size() != sizeof(T) || (size_t)s.type_size() != sizeof(T)) cx.fail("wrong-size", w + "byte sizes");
        whole(op);
    }
    void whole(const char *op) { if(memcmp(gb.base, mem.data(), mem.size())) { size_t i = 0; while(gb.base[i] == mem[i]) ++i; cx.fail("wrong-bytes", std::string(op) + ": byte " + std::to_string((long)i - ((char*)st - gb.base)) + " of the storage changed"); } }
    void all(const char *op) { for(int i = 0; i < N; ++i) { judge(op, a[i], ma[i], 0); judge(op, b[i], mb[i], 1); judge(op, c[i], mc[i], 2); } }
    static M sel(M m, long d, long sz, int kind) { m.off += d; m.size = sz; if(kind == 0) m.cap = sz; else { m.cap -= d; if(kind == 2) m.lead += d; } return m; }
    // subselections
    template<class S> M subselect(S const& s, M const& m, int kind, S *out) {
        long f, k; M r; const char *op; uint32_t which = cx.draw(9); cx.sig(which + 50); uint32_t SZ = (uint32_t)m.size;
        switch(which) {
        case 0: f = cx.draw(SZ + 1); k = f == m.size ? 0 : cx.draw((uint32_t)(m.size - f) + 1); op = "subspan"; *out = s.subspan((I)f, (I)k); r = sel(m, f, k, kind); break;
        case 1: f = cx.draw(SZ + 1); op = "subspan-to-end"; *out = s.subspan((I)f); r = sel(m, f, m.size - f, kind); break;
        case 2: f = cx.draw(SZ + 1); k = f + (f == m.size ? 0 : cx.draw((uint32_t)(m.size - f) + 1)); op = "range"; *out = s.range((I)f, (I)k); r = sel(m, f, k - f, kind); break;
        case 3: f = cx.draw(SZ + 1); op = "range-to-end"; *out = s.range((I)f); r = sel(m, f, m.size - f, kind); break;
        case 4: k = cx.draw(SZ + 1); op = "first"; *out = s.first((I)k); r = sel(m, 0, k, kind); break;
        case 5: k = cx.draw(SZ + 1); op = "last"; *out = s.last((I)k); r = sel(m, m.size - k, k, kind); break;
        case 6: case 7: { // complements of a part of it, or of something that may not be a part
            if(m.null) { *out = s; return m; } f = cx.draw((uint32_t)n + 1); k = cx.draw((uint32_t)(n - f) + 1); bool begins = f >= m.off && f <= m.off + m.size, ends = f + k >= m.off && f + k <= m.off + m.size; S part = s; part.assign(st + f, (I)k);
            if(which == 6) { op = "compll"; *out = s.compll(part); r = sel(m, 0, begins ? f - m.off : 0, kind); } else { op = "complr"; *out = s.complr(part); r = ends ? sel(m, f + k - m.off, m.off + m.size - f - k, kind) : sel(m, 0, 0, kind); }
            bool in = f >= m.off && f + k <= m.off + m.size; if(s.is_subspan(part) != in) cx.fail("wrong-answer", "is_subspan of [" + std::to_string(f) + "," + std::to_string(k) + "] in " + str(m)); break; }
        default: op = "copy"; { S t(s); *out = std::move(t); } r = m; break;
        }
        judge(op, *out, r, kind); judge("source", s, m, kind); return r;
    }
    // resizing in place
    template<class S> void resize(S &s, M &m, int kind) {
        long k; const char *op; uint32_t which = cx.draw(5); cx.sig(which + 60);
        switch(which) {
        case 0: case 1: k = cx.draw((uint32_t)m.cap + 1); if(which == 1) k = m.cap; op = "resize"; if(k > m.size) cx.nontrivial = true; s.resize((I)k); m.size = k; if(kind == 0) m.cap = k; break;
        case 2: if(!m.size) return; k = cx.draw((uint32_t)m.size); op = "rtrim"; s.rtrim((I)k); m.size -= k; if(kind == 0) m.cap = m.size; break;
        case 3: if(!m.size) return; k = cx.draw((uint32_t)m.size); op = "ltrim"; s.ltrim((I)k); m = sel(m, k, m.size - k, kind); break;
        default: op = "clear"; s.clear(); m.size = 0; if(kind == 0) m.cap = 0; break;
        }
        judge(op, s, m, kind);
    }
    template<class S> void rejected(S &s, M &m, int kind) {
        if(!asserting) return;
        long over = 1 + cx.draw(4); uint32_t which = cx.draw(9); const char *op; bool raised = false; if(m.cap + over > 127 || (which == 3 && !std::is_signed<I>::value)) return; cx.inject("request-beyond-the-span"); cx.sig(which + 70);
        try { switch(which) { case 0: op = "resize"; s.resize((I)(m.cap + over)); break; case 1: op = "rtrim"; s.rtrim((I)(m.size + over)); break; case 2: op = "ltrim"; s.ltrim((I)(m.size + over)); break; case 3: op = "negative"; if(cx.draw(2)) s.ltrim((I)-over); else s.rtrim((I)-over); break;
            case 4: op = "subspan"; if(cx.draw(2)) (void)s.subspan((I)(m.size + over)); else { long f = cx.draw((uint32_t)m.size + 1); (void)s.subspan((I)f, (I)(m.size - f + over)); } break; case 5: op = "range"; { long f = cx.draw((uint32_t)m.size + 1); uint32_t form = cx.draw(3); if(form == 0) (void)s.range((I)f, (I)(m.size + over)); else if(form == 1) (void)s.range((I)(f + 1), (I)f); else (void)s.range((I)(m.size + over)); } break;
            case 6: op = "first"; (void)s.first((I)(m.size + over)); break; case 7: op = "last"; (void)s.last((I)(m.size + over)); break; default: op = "element"; if(m.size == 0 && cx.draw(2)) { if(cx.draw(2)) (void)s.front(); else (void)s.back(); } else (void)s[(I)(m.size + over - 1)]; break; } } catch(C4Error const&) { raised = true; }
        if(!raised) cx.fail("not-rejected", std::string(op) + ": a request beyond the span " + str(m) + " went through in a build with assertions"); judge("after-rejection", s, m, kind);
    }
    void fresh() { // taken anew from the storage
        long f = cx.draw((uint32_t)n + 1), cap = cx.draw((uint32_t)(n - f) + 1), k = cx.draw((uint32_t)cap + 1), lead = cx.draw((uint32_t)f + 1); int i = (int)cx.draw(N);
        switch(cx.draw(9)) {
        case 0: a[i] = S0(st + f, (I)k); ma[i] = {f, k, k, 0, false}; break;
        case 1: a[i].assign(st + f, (I)k); ma[i] = {f, k, k, 0, false}; break;
        case 2: b[i] = S1(st + f, (I)k); mb[i] = {f, k, k, 0, false}; break;
        case 3: b[i] = S1(st + f, (I)k, (I)cap); mb[i] = {f, k, cap, 0, false}; break;
        case 4: if(cx.draw(2)) { b[i].assign(st + f, (I)k, (I)cap); mb[i] = {f, k, cap, 0, false}; } else { b[i].assign(st + f, (I)k); mb[i] = {f, k, k, 0, false}; } break;
        case 5: c[i] = S2(st + f, (I)k); mc[i] = {f, k, k, 0, false}; break;
        case 6: if(cx.draw(2)) c[i] = S2(st + f, (I)k, (I)cap); else c[i].assign(st + f, (I)k, (I)cap); mc[i] = {f, k, cap, 0, false}; break;
        case 7: if(cx.draw(2)) c[i].assign(st + f, (I)k, (I)cap, (I)lead); else c[i] = S2(st + f, (I)k, (I)cap, (I)lead); mc[i] = {f, k, cap, lead, false}; break;
        default: if(cx.draw(2)) { c[i].assign(st + f, (I)k); mc[i] = {f, k, k, 0, false}; } else { int j = (int)cx.draw(3); if(j == 0) { a[i] = S0(); ma[i] = M(); } else if(j == 1) { b[i] = S1(); mb[i] = M(); } else { c[i] = S2(); mc[i] = M(); } } break;
        }
    }
    void convert() {
        int i = (int)cx.draw(N), j = (int)cx.draw(N); uint32_t which = cx.draw(7); cx.sig(which + 80);
        switch(which) {
        case 0: a[i] = b[j]; ma[i] = mb[j]; ma[i].cap = ma[i].size; break;
        case 1: a[i] = c[j]; ma[i] = mc[j]; ma[i].cap = ma[i].size; ma[i].lead = 0; break;
        case 2: b[i] = c[j]; mb[i] = mc[j]; mb[i].lead = 0; break;
        case 3: if(mc[j].null) return; cx.nontrivial = true; { M o = mc[j]; o.off -= o.lead; o.size = o.cap = o.cap + o.lead; o.lead = 0; c[i] = c[j].original(); mc[i] = o; break; }
        case 4: if(mc[j].null) return; { M o = mc[j]; o.off -= o.lead; o.size = o.cap = o.cap + o.lead; o.lead = 0; if(cx.draw(2)) { b[i] = c[j].template original<c4::spanrs>(); mb[i] = o; } else { a[i] = c[j].template original<c4::span>(); ma[i] = o; } break; }
        case 5: { c4::span<const T, I> x = a[i]; c4::spanrs<const T, I> y = b[i]; c4::spanrsl<const T, I> z = c[i]; if(x.data() != a[i].data() || x.size() != a[i].size() || y.data() != b[i].data() || y.size() != b[i].size() || y.capacity() != b[i].capacity() || z.data() != c[i].data() || z.size() != c[i].size() || z.capacity() != c[i].capacity() || z.offset() != c[i].offset()) cx.fail("wrong-conversion", "converting to a span of const elements changed it"); cx.ev("to-const"); break; }
        default: { bool eq = ma[i].off == mb[j].off && ma[i].null == mb[j].null && ma[i].size == mb[j].size; if(a[i].same_span(b[j]) != eq || b[j].same_span(a[i]) != eq || !c[i].same_span(c[i])) cx.fail("wrong-answer", "same_span of " + str(ma[i]) + " and " + str(mb[j])); cx.ev("same_span", eq); break; }
        }
    }
    template<class S> void access(S &s, M &m) {
        if(m.null || !m.size) return; long i = cx.draw((uint32_t)m.size); T v = val<T>(1 + cx.draw(200)); char *at; uint32_t which = cx.draw(8); cx.sig(which + 90); S const& cs = s;
        switch(which) {
        case 0: s[(I)i] = v; break; case 1: s.data()[i] = v; break; case 2: i = 0; s.front() = v; break; case 3: i = m.size - 1; s.back() = v; break; case 4: *(s.begin() + i) = v; break; case 5: *(s.rbegin() + i) = v; i = m.size - 1 - i; break; case 6: *(s.end() - 1 - i) = v; i = m.size - 1 - i; break;
        default: { long k = 0; for(T const& e : cs) { if(&e != st + m.off + k) break; ++k; } long q = m.size; for(auto it = s.rbegin(); it != s.rend() && q > 0; ++it) { if(&*it != st + m.off + q - 1) break; --q; } long z = m.size; for(auto it = cs.rbegin(); it != cs.rend() && z > 0; ++it) { if(&*it != st + m.off + z - 1) break; --z; } long y = m.size; for(auto it = cs.crbegin(); it != cs.crend() && y > 0; ++it) --y; if(k != m.size || q || z || y || !(cs[(I)i] == st[m.off + i]) || &cs.front() != st + m.off || &cs.back() != st + m.off + m.size - 1) cx.fail("wrong-element", "iterating " + str(m) + " does not visit its elements in order"); cx.ev("iterate"); return; }
        }
        at = (char*)(st + m.off + i); memcpy(&mem[(size_t)(at - gb.base)], &v, sizeof(T)); cx.ev("write", (int)(m.off + i)); whole("element write");
    }
    void compare() {
        int i = (int)cx.draw(N), j = (int)cx.draw(N); M &x = ma[i], &y = mc[j]; if(x.null || y.null) return; bool eq = std::equal(st + x.off, st + x.off + x.size, st + y.off, st + y.off + y.size), lt = std::lexicographical_compare(st + x.off, st + x.off + x.size, st + y.off, st + y.off + y.size), gt = std::lexicographical_compare(st + y.off, st + y.off + y.size, st + x.off, st + x.off + x.size);
        if((a[i] == c[j]) != eq || (a[i] != c[j]) == eq || (a[i] < c[j]) != lt || (a[i] > c[j]) != gt || (a[i] <= c[j]) == gt || (a[i] >= c[j]) == lt) cx.fail("wrong-answer", "comparison of " + str(x) + " and " + str(y)); cx.ev("compare", eq, lt);
    }
    void run() {
        n = cx.draw(9) == 0 ? cx.draw(3) : 2 + cx.draw(20); mem.assign(gb.cap(), '~'); size_t off = cx.draw(2) ? gb.cap() - (size_t)n * sizeof(T) : 64 * cx.draw(3); off -= off % alignof(T); st = (T*)(gb.base + off);
        for(long i = 0; i < n; ++i) { T v = val<T>(cx.draw(4)); memcpy(&mem[off + (size_t)i * sizeof(T)], &v, sizeof(T)); } memcpy(gb.base, mem.data(), mem.size());
        for(int i = 0; i < 3; ++i) fresh(); all("start");
        uint32_t steps = 4 + cx.draw(30);
        for(uint32_t k = 0; k < steps; ++k) {
            uint32_t op = cx.draw(12); cx.sig(op);
            switch(op) {
            case 0: fresh(); break;
            case 1: case 2: case 3: pick([&](auto &s, M &m, int kind) { using S = typename std::remove_reference<decltype(s)>::type; S out; M r = subselect(s, m, kind, &out); if(cx.draw(3)) { s = out; m = r; } }); break;
            case 4: case 5: case 6: pick([&](auto &s, M &m, int kind) { resize(s, m, kind); }); break;
            case 7: pick([&](auto &s, M &m, int kind) { rejected(s, m, kind); }); break;
            case 8: convert(); break;
            case 9: case 10: pick([&](auto &s, M &m, int) { access(s, m); }); break;
            default: compare(); break;
            }
            all("step");
        }
    }
};
template<class T, class I> void world(Ctx &cx) { World<T, I> w(cx); w.run(); }
}
void sim_init() { gb.init(1); c4err_install(); }
void sim_run(Ctx &cx) {
    g = &cx; uint32_t t = cx.draw(6); cx.ev("types", t); cx.sig(t);
    switch(t) { case 0: world<int, size_t>(cx); break; case 1: world<unsigned char, uint32_t>(cx); break; case 2: world<Wide, int>(cx); break; case 3: world<unsigned char, uint8_t>(cx); break; case 4: world<int, int16_t>(cx); break; default: world<Wide, size_t>(cx); }
}
