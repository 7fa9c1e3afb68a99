#ifndef C16_HPP_
#define C16_HPP_
// C16: raw construction helpers keep element lifetimes exact, with throwing elements.
#include "sim.hpp"
#include "c4err.hpp"
#include <c4/ctor_dtor.hpp>
#include <c4/allocator.hpp>
#include <map>
using sim::Ctx;
namespace c16 {
inline Ctx *g; inline uint32_t g_odds; inline bool g_may_throw; inline int g_next;
struct Boom {};
// an argument that an element empties when it is given it as a temporary
struct Tok { int v; int take() { int r = v; v = -7; return r; } };
constexpr int MOVED = -1, DEF = 4242;
inline std::map<const void*, int> live; inline int births, assigns;
inline void note(const char *cls, std::string const& m) { g->note_fail(cls, m); }
inline void born(const void *p, int v) { ++births; if(live.count(p)) note("constructed-over-live", "an element was constructed over a live one"); live[p] = v; }
inline void died(const void *p) { if(!live.erase(p)) note("double-destroy", "an element that is not alive was destroyed"); }
inline int at(const void *p, const char *what) { auto it = live.find(p); if(it == live.end()) { note("dead-element", std::string(what) + " an element that is not alive"); return -3; } return it->second; }
inline void boom(const char *what) { if(g_may_throw && g_odds && g->fault(what, g_odds, 24)) throw Boom(); }
// element types
struct Tr { // everything observed, copies may throw
    int v; int *self;
    Tr() : v((boom("ctor-throws"), DEF)), self(&v) { born(this, v); }
    Tr(int a, int b) : v((boom("ctor-throws"), a + b)), self(&v) { born(this, v); }
    Tr(int a, Tok &t) : Tr(a, t.v) {} Tr(int a, Tok const& t) : Tr(a, t.v) {} Tr(int a, Tok &&t) : Tr(a, t.take()) {}
    explicit Tr(int a) : v((boom("ctor-throws"), a)), self(&v) { born(this, v); }
    Tr(Tr const& o) : v((boom("copy-throws"), at(&o, "copied"))), self(&v) { born(this, v); }
    Tr(Tr &&o) noexcept : v(at(&o, "moved")), self(&v) { if(&o == this) note("self-move", "an element was move-constructed from itself"); born(this, v); o.v = MOVED; auto it = live.find(&o); if(it != live.end()) it->second = MOVED; }
    Tr& operator=(Tr const& o) { at(this, "assigned to"); boom("assign-throws"); int n = at(&o, "copied"); v = n; live[this] = n; ++assigns; return *this; }
    Tr& operator=(Tr &&o) noexcept { at(this, "assigned to"); int n = at(&o, "moved"); if(&o == this) { note("self-move", "an element was move-assigned to itself"); return *this; } v = n; live[this] = n; o.v = MOVED; live[&o] = MOVED; return *this; }
    ~Tr() { died(this); v = -99; }
    int get() const { return self == &v ? v : -5; }
};
struct Big : Tr { using Tr::Tr; char more[40]; Big() = default; };
struct Cp { // copies only (no move members): moves fall back on copies, which do not throw here
    int v; Cp() : v((boom("ctor-throws"), DEF)) { born(this, v); } explicit Cp(int a) : v((boom("ctor-throws"), a)) { born(this, v); } Cp(int a, int b) : Cp(a + b) {} Cp(int a, Tok &t) : Cp(a, t.v) {} Cp(int a, Tok const& t) : Cp(a, t.v) {} Cp(int a, Tok &&t) : Cp(a, t.take()) {}
    Cp(Cp const& o) : v((boom("copy-throws"), at(&o, "copied"))) { if(&o == this) note("self-move", "an element was constructed from itself"); born(this, v); } Cp& operator=(Cp const& o) { at(this, "assigned to"); boom("assign-throws"); v = at(&o, "copied"); live[this] = v; ++assigns; return *this; } ~Cp() { died(this); v = -99; }
    int get() const { return v; }
};
struct AsNt { // trivial copies, but assignment is not: every one is observed
    int v; AsNt() = default; AsNt(AsNt const&) = default; AsNt(AsNt&&) = default; explicit AsNt(int a) : v(a) {}
    AsNt& operator=(AsNt const& o) { boom("assign-throws"); v = o.v; ++assigns; return *this; } AsNt& operator=(AsNt &&o) noexcept { v = o.v; ++assigns; return *this; }
    int get() const { return v; }
};
struct CtNt { // trivial assignment, but construction and destruction are observed
    int v; CtNt() : v((boom("ctor-throws"), DEF)) { born(this, v); } explicit CtNt(int a) : v((boom("ctor-throws"), a)) { born(this, v); } CtNt(int a, int b) : CtNt(a + b) {} CtNt(int a, Tok const& t) : CtNt(a, t.v) {} CtNt(int a, Tok &&t) : CtNt(a, t.take()) {}
    CtNt(CtNt const& o) : v((boom("copy-throws"), at(&o, "copied"), o.v)) { born(this, v); } CtNt(CtNt &&o) noexcept : v((at(&o, "moved"), o.v)) { born(this, v); } CtNt& operator=(CtNt const&) = default; CtNt& operator=(CtNt &&) = default; ~CtNt() { died(this); v = -99; }
    int get() const { return v; }
};
struct Pod { int v; short w; int get() const { return v == w ? v : -5; } };
struct Pod3 { unsigned char a, b, c; int get() const { return a | b << 8 | c << 16; } };
struct NdPod { int v; char z[9]; NdPod() : v((boom("ctor-throws"), DEF)), z{} {} explicit NdPod(int a) : v((boom("ctor-throws"), a)), z{} {} NdPod(int a, int b) : NdPod(a + b) {} NdPod(int a, Tok &t) : NdPod(a, t.v) {} NdPod(int a, Tok const& t) : NdPod(a, t.v) {} NdPod(int a, Tok &&t) : NdPod(a, t.take()) {} int get() const { return v; } }; // trivially copyable, non-trivial default ctor
struct alignas(32) Al { double d; int get() const { return (int)d; } };
template<class T> struct Tt { static constexpr bool tracked = true, zero = false, argc2 = true; static T mk(int v) { return T(v); } static int get(T const& t) { return t.get(); } static constexpr int mask = 0x7fffffff; };
template<> struct Tt<AsNt> { static constexpr bool tracked = false, zero = true, argc2 = false; static AsNt mk(int v) { return AsNt(v); } static int get(AsNt const& t) { return t.get(); } static constexpr int mask = 0x7fffffff; };
template<> struct Tt<NdPod> : Tt<Tr> { static constexpr bool tracked = false; static NdPod mk(int v) { return NdPod(v); } static int get(NdPod const& t) { return t.get(); } };
template<> struct Tt<Pod> { static constexpr bool tracked = false, zero = true, argc2 = false; static Pod mk(int v) { return Pod{v & 0x7fff, (short)(v & 0x7fff)}; } static int get(Pod const& t) { return t.get(); } static constexpr int mask = 0x7fff; };
template<> struct Tt<Pod3> { static constexpr bool tracked = false, zero = true, argc2 = false; static Pod3 mk(int v) { return Pod3{(unsigned char)v, (unsigned char)(v >> 8), (unsigned char)(v >> 16)}; } static int get(Pod3 const& t) { return t.get(); } static constexpr int mask = 0xffffff; };
template<> struct Tt<Al> { static constexpr bool tracked = false, zero = true, argc2 = false; static Al mk(int v) { return Al{(double)v}; } static int get(Al const& t) { return t.get(); } static constexpr int mask = 0x7fffff; };
template<> struct Tt<int> { static constexpr bool tracked = false, zero = true, argc2 = false; static int mk(int v) { return v; } static int get(int t) { return t; } static constexpr int mask = 0x7fffffff; };
template<> struct Tt<unsigned char> { static constexpr bool tracked = false, zero = true, argc2 = false; static unsigned char mk(int v) { return (unsigned char)v; } static int get(unsigned char t) { return t; } static constexpr int mask = 0xff; };
template<> struct Tt<const char*> { static constexpr bool tracked = false, zero = true, argc2 = false; static const char *mk(int v) { return (const char*)(intptr_t)v; } static int get(const char *t) { return (int)(intptr_t)t; } static constexpr int mask = 0x7fffffff; };

constexpr int N = 24;
constexpr int RAW = -2; // model: RAW, MOVED, or the value
template<class T> struct World {
    static constexpr bool tracked = Tt<T>::tracked;
    alignas(64) unsigned char mem[2][(N + 2) * sizeof(T) + 64]; int m[2][N]; unsigned char before[2][sizeof mem[0]];
    T *buf(int b) { return (T*)(mem[b] + (sizeof(T) * 64 / sizeof(T))); } // 64 canary bytes in front
    T *p(int b, int i) { return buf(b) + i; }
    Ctx &cx;
    World(Ctx &c) : cx(c) { memset(mem, 0xB3, sizeof mem); for(auto &r : m) for(int &x : r) x = RAW; }
    int val() { ++g_next; return (g_next * 37 + 1000) & Tt<T>::mask; }
    bool is(int b, int i, int n, bool lv) { if(i < 0 || i + n > N) return false; for(int k = i; k < i + n; ++k) if((m[b][k] != RAW) != lv) return false; return true; }
    bool valued(int b, int i, int n) { if(i < 0 || i + n > N) return false; for(int k = i; k < i + n; ++k) if(m[b][k] < 0) return false; return true; }
    void snap() { memcpy(before, mem, sizeof mem); births = assigns = 0; }
    // everything as the model says; bytes outside [i,i+n) of buffer b (and [i2,i2+n2) of b2) untouched
    void verify(const char *op, int b, int i, int n, int b2 = -1, int i2 = 0, int n2 = 0) {
        for(int q = 0; q < 2; ++q) {
            size_t base = (size_t)((unsigned char*)buf(q) - mem[q]);
            auto in = [&](size_t off, int B, int I, int NN) { return B == q && off >= base + (size_t)I * sizeof(T) && off < base + (size_t)(I + NN) * sizeof(T); };
            for(size_t o = 0; o < sizeof mem[0]; ++o) if(mem[q][o] != before[q][o] && !in(o, b, i, n) && !(b2 >= 0 && in(o, b2, i2, n2))) { cx.fail("touched-others", std::string(op) + " changed bytes of elements it does not name"); }
            for(int k = 0; k < N; ++k) {
                const void *a = p(q, k); auto it = live.find(a); bool lv = it != live.end();
                if(tracked && lv != (m[q][k] != RAW)) cx.fail(lv ? "not-destroyed" : "not-constructed", std::string(op) + ": element " + std::to_string(k) + (lv ? " is still alive" : " is not alive"));
                if(m[q][k] >= 0) { int v = Tt<T>::get(*p(q, k)); if(v != m[q][k] || (tracked && !std::is_same<T, CtNt>::value && it->second != v)) cx.fail("wrong-value", std::string(op) + ": element " + std::to_string(k) + " is " + std::to_string(v) + ", expected " + std::to_string(m[q][k])); }
            }
        }
        if(tracked) for(auto &l : live) { bool ours = false; for(int q = 0; q < 2 && !ours; ++q) { long d = (const char*)l.first - (const char*)buf(q); ours = d >= 0 && d < (long)(N * sizeof(T)) && d % (long)sizeof(T) == 0; } if(!ours) cx.fail("constructed-elsewhere", std::string(op) + " left a live element outside the named places"); }
        if(cx.sh->violated) throw sim::Abort();
    }
    // runs f allowing throws; returns how many elements it completed, n if it did not throw
    template<class F> int attempt(const char *op, int n, F &&f, bool *threw = nullptr) {
        (void)op; snap(); nthrow_prefix = n; bool t = false; g_may_throw = true;
        try { f(); } catch(Boom&) { t = true; cx.probe("helper-threw"); }
        g_may_throw = false; if(threw) *threw = t;
        if(!t) return n;
        return -1;
    }
    int nthrow_prefix = 0;
    void fill(int b, int i, int n, int v) { for(int k = i; k < i + n; ++k) m[b][k] = v; }
    template<class C> void seek(int &i, C c) { for(int k = 0; k < N; ++k) { int q = (i + k) % N; if(c(q)) { i = q; return; } } }
    template<class I> void step() {
        static const uint32_t w[] = {6, 4, 4, 4, 3, 3, 3, 6, 3, 5, 5, 5, 5, 2, 2};
        int b = (int)cx.draw(2), o = 1 - b, i = (int)cx.draw(N), j = (int)cx.draw(N); int n = (int)cx.draw(2) ? 1 : (int)cx.skewed(9); uint32_t op = cx.weighted(w), form = cx.draw(4); bool threw = false;
        if(op <= 6 && op >= 1 && op != 2 && op != 5) seek(j, [&](int q) { return valued(o, q, n); }); else if(op == 2 || op == 5) seek(j, [&](int q) { return valued(o, q, 1); });
        if(op <= 3) seek(i, [&](int q) { return is(b, q, n, false); }); else if(op <= 6 || op == 8) seek(i, [&](int q) { return is(b, q, n, true); });
        else if(op == 9 || op == 11) seek(i, [&](int q) { return m[b][q] >= 0; }); else if(op >= 13) seek(j, [&](int q) { return m[o][q] >= 0; });
        cx.ev("op", op, form, b, i, j, n); cx.sig(op * 64 + form);
        switch(op) {
        case 0: { // construct(_n)
            if(!is(b, i, n, false)) { cx.ev("skip"); return; }
            int v = Tt<T>::zero ? 0 : DEF; c4::allocator<T> al; bool use_al = cx.draw(4) == 0;
            int x = val(), y = (int)cx.draw(100), how = (int)cx.draw(4); Tok tok{y};
            bool args = form >= 2; if(args) v = (Tt<T>::argc2 ? x + y : x);
            attempt("construct", n, [&] {
                if(!args) { if(n == 1 && form == 0) { if(use_al) al.construct(p(b, i)); else c4::construct(p(b, i)); } else { if(use_al) al.construct_n(p(b, i), (I)n); else c4::construct_n(p(b, i), (I)n); } }
                else if constexpr(Tt<T>::argc2) {
                    auto go = [&](auto &&...a) { if(n == 1 && form == 2) { if(use_al) al.construct(p(b, i), std::forward<decltype(a)>(a)...); else c4::construct(p(b, i), std::forward<decltype(a)>(a)...); } else { if(use_al) al.construct_n(p(b, i), (I)n, std::forward<decltype(a)>(a)...); else c4::construct_n(p(b, i), (I)n, std::forward<decltype(a)>(a)...); } };
                    switch(how) {
                    case 0: go(x, y); break;
                    case 1: go(x, Tok{y}); break;
                    case 2: go(x, tok); break;
                    default: go((int const&)x, (Tok const&)tok); break;
                    }
                }
                else { T t = Tt<T>::mk(x); if(n == 1 && form == 2) c4::construct(p(b, i), t); else c4::construct_n(p(b, i), (I)n, t); }
            }, &threw);
            cx.check(tok.v == y, "argument-taken", "construct emptied an argument that was lent to it");
            settle_ctor("construct", b, i, n, threw, [&](int) { return v; }); verify("construct", b, i, n); return; }
        case 1: { // copy_construct from another buffer
            if(!is(b, i, n, false) || !valued(o, j, n)) { cx.ev("skip"); return; }
            if(n == 0) return;
            attempt("copy_construct", n, [&] { if(n == 1 && form == 0) c4::copy_construct(p(b, i), (T const*)p(o, j)); else c4::copy_construct_n(p(b, i), (T const*)p(o, j), (I)n); }, &threw);
            settle_ctor("copy_construct", b, i, n, threw, [&](int k) { return m[o][j + k]; }); verify("copy_construct", b, i, n); return; }
        case 2: { // copy_construct from a value
            if(!is(b, i, n, false) || !valued(o, j, 1)) { cx.ev("skip"); return; }
            attempt("copy_construct(value)", n, [&] { if(n == 1 && form < 2) c4::copy_construct(p(b, i), *(T const*)p(o, j)); else c4::copy_construct_n(p(b, i), *(T const*)p(o, j), (I)n); }, &threw);
            settle_ctor("copy_construct(value)", b, i, n, threw, [&](int) { return m[o][j]; }); verify("copy_construct(value)", b, i, n); return; }
        case 3: { // move_construct
            if(!is(b, i, n, false) || !valued(o, j, n) || n == 0) { cx.ev("skip"); return; }
            snap(); if(n == 1 && form < 2) c4::move_construct(p(b, i), p(o, j)); else c4::move_construct_n(p(b, i), p(o, j), (I)n);
            for(int k = 0; k < n; ++k) { m[b][i + k] = m[o][j + k]; moved(o, j + k); } verify("move_construct", b, i, n, o, j, n); return; }
        case 4: { // copy_assign from another buffer
            if(!is(b, i, n, true) || !valued(o, j, n) || n == 0) { cx.ev("skip"); return; }
            attempt("copy_assign", n, [&] { if(n == 1 && form == 0) c4::copy_assign(p(b, i), (T const*)p(o, j)); else c4::copy_assign_n(p(b, i), (T const*)p(o, j), (I)n); }, &threw);
            settle_asg("copy_assign", b, i, n, threw, [&](int k) { return m[o][j + k]; }); verify("copy_assign", b, i, n); return; }
        case 5: { // copy_assign from a value
            if(!is(b, i, n, true) || !valued(o, j, 1)) { cx.ev("skip"); return; }
            attempt("copy_assign(value)", n, [&] { if(n == 1 && form < 2) c4::copy_assign(p(b, i), *(T const*)p(o, j)); else c4::copy_assign_n(p(b, i), *(T const*)p(o, j), (I)n); }, &threw);
            settle_asg("copy_assign(value)", b, i, n, threw, [&](int) { return m[o][j]; }); verify("copy_assign(value)", b, i, n); return; }
        case 6: { // move_assign
            if(!is(b, i, n, true) || !valued(o, j, n) || n == 0) { cx.ev("skip"); return; }
            snap(); if(n == 1 && form < 2) c4::move_assign(p(b, i), p(o, j)); else c4::move_assign_n(p(b, i), p(o, j), (I)n);
            if(std::is_same<T, AsNt>::value) cx.check(assigns == n, "not-assigned", "move_assign: " + std::to_string(assigns) + " of " + std::to_string(n) + " elements were assigned with their own assignment");
            for(int k = 0; k < n; ++k) { m[b][i + k] = m[o][j + k]; moved(o, j + k); } verify("move_assign", b, i, n, o, j, n); return; }
        case 7: { // a whole live run is built at once, to feed the room operations
            int k = i; while(k < N && m[b][k] == RAW && k - i < 14) ++k; n = k - i; if(!n) return;
            snap(); for(int q = i; q < k; ++q) { int v = val(); if constexpr(tracked) new ((void*)p(b, q)) T(v); else { T t = Tt<T>::mk(v); new ((void*)p(b, q)) T(t); } m[b][q] = v; } verify("setup", b, i, n); return; }
        case 8: { // destroy(_n)
            if(!is(b, i, n, true)) { cx.ev("skip"); return; }
            snap(); c4::allocator<T> al; if(n == 1 && form == 0) c4::destroy(p(b, i)); else if(n == 1 && form == 1) al.destroy(p(b, i)); else if(form == 2) al.destroy_n(p(b, i), (I)n); else c4::destroy_n(p(b, i), (I)n);
            fill(b, i, n, RAW); verify("destroy", b, i, n); return; }
        case 9: case 10: { // make_room in place: [pos,pos+sz) moves up by room
            int lo = i, sz = 0; while(lo + sz < N && m[b][lo + sz] >= 0 && sz < 10) ++sz; if(op == 10) sz = (int)cx.draw((uint32_t)sz + 1);
            int room = 0; while(lo + sz + room < N && m[b][lo + sz + room] == RAW && room < 12) ++room; room = (int)cx.draw((uint32_t)room + 1);
            snap(); int off = 0;
            if(form & 1) { off = (int)cx.draw((uint32_t)sz + 1); c4::make_room(p(b, lo), (I)(sz + room), (I)sz, (I)off, (I)room); } else c4::make_room(p(b, lo), (I)sz, (I)room);
            for(int k = sz - 1; k >= off; --k) m[b][lo + k + room] = m[b][lo + k];
            for(int k = off; k < off + room && k < sz + room; ++k) m[b][lo + k] = RAW;
            if(room && sz - off > room) cx.probe("make_room-overlapping");
            verify("make_room", b, lo, sz + room); return; }
        case 11: case 12: { // destroy_room in place
            int lo = i, n2 = 0; while(lo + n2 < N && m[b][lo + n2] >= 0 && n2 < 12) ++n2; int room = (int)cx.draw((uint32_t)n2 + 1);
            snap(); c4::destroy_room(p(b, lo), (I)n2, (I)room);
            for(int k = 0; k + room < n2; ++k) m[b][lo + k] = m[b][lo + k + room];
            for(int k = n2 - room; k < n2; ++k) m[b][lo + k] = RAW;
            verify("destroy_room", b, lo, n2); return; }
        case 13: { // make_room into another buffer
            int sz = 0; while(j + sz < N && m[o][j + sz] >= 0 && sz < 10) ++sz; if(!sz) { cx.ev("skip"); return; }
            int pos = (int)cx.draw((uint32_t)sz), room = (int)cx.draw(6); if(!is(b, i, sz + room, false)) { cx.ev("skip"); return; }
            snap(); if(form & 1) c4::make_room(p(b, i), (I)(sz + room), (T const*)p(o, j), (I)sz, (I)room, (I)pos); else c4::make_room(p(b, i), (T const*)p(o, j), (I)sz, (I)room, (I)pos);
            for(int k = 0; k < sz; ++k) m[b][i + k + (k >= pos ? room : 0)] = m[o][j + k];
            verify("make_room(dst,src)", b, i, pos, b, i + pos + room, sz - pos); return; }
        default: { // destroy_room into another buffer
            int sz = 0; while(j + sz < N && m[o][j + sz] >= 0 && sz < 10) ++sz; if(!sz) { cx.ev("skip"); return; }
            int pos = (int)cx.draw((uint32_t)sz), room = (int)cx.draw((uint32_t)(sz - pos) + 1); if(!is(b, i, sz - room, false)) { cx.ev("skip"); return; }
            snap(); c4::destroy_room(p(b, i), (T const*)p(o, j), (I)sz, (I)room, (I)pos);
            for(int k = 0; k < sz - room; ++k) m[b][i + k] = m[o][j + k + (k >= pos ? room : 0)];
            verify("destroy_room(dst,src)", b, i, sz - room); return; }
        }
    }
    void moved(int b, int k) { if(std::is_same<T, Cp>::value || std::is_same<T, CtNt>::value || !tracked) return; m[b][k] = MOVED; }
    template<class V> void settle_ctor(const char *op, int b, int i, int n, bool threw, V v) {
        int done = n;
        if(threw) { if(!tracked) { for(int k = 0; k < n; ++k) m[b][i + k] = RAW; return; } done = 0; while(done < n && live.count(p(b, i + done))) ++done; if(done >= n) cx.fail("not-propagated", std::string(op) + " threw after constructing every element"); if(births != done) cx.fail("wrong-prefix", std::string(op) + ": " + std::to_string(births) + " elements were constructed, but only the first " + std::to_string(done) + " places are"); }
        for(int k = 0; k < done; ++k) m[b][i + k] = v(k);
    }
    template<class V> void settle_asg(const char *op, int b, int i, int n, bool threw, V v) {
        int done = n; (void)op;
        if(threw) done = assigns;
        else if(std::is_same<T, AsNt>::value) cx.check(assigns == n, "not-assigned", std::string(op) + ": " + std::to_string(assigns) + " of " + std::to_string(n) + " elements were assigned with their own assignment");
        for(int k = 0; k < done; ++k) m[b][i + k] = v(k);
    }
    void run() {
        uint32_t k = 3 + cx.skewed(40), it = cx.draw(3);
        while(k--) { switch(it) { case 0: step<size_t>(); break; case 1: step<int>(); break; default: step<unsigned>(); } }
        for(int b = 0; b < 2; ++b) for(int i = 0; i < N; ++i) if(m[b][i] != RAW) { c4::destroy(p(b, i)); m[b][i] = RAW; }
        if(!live.empty()) cx.fail("not-destroyed", std::to_string(live.size()) + " element(s) alive at the end");
        if(cx.sh->violated) throw sim::Abort();
    }
};
template<class T> void run_world(Ctx &cx);
}
#endif
