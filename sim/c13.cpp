// C13: inplace_function owns exactly one target through copies, moves and throws.
#include "sim.hpp"
#include <c4/ext/sg14/inplace_function.h>
#include <map>
#include <new>
using sim::Ctx;
namespace {
Ctx *g; uint32_t g_odds; // ctor faults: g_odds in 24
struct Boom { int at; };
struct Obj { int kind; int val; };                  // val -1: moved from
std::map<const void*, Obj> live; int g_calls; uint64_t g_copies; const void *g_last; uint64_t made, gone;
void note(const char *cls, std::string const& m) { g->note_fail(cls, m); }
void born(const void *p, int kind, int val, size_t al) { ++made; if((uintptr_t)p % al) note("misaligned-target", "a target of alignment " + std::to_string(al) + " was put at an address that is not"); if(live.count(p)) note("leaked-target", "a target was constructed over a live one"); live[p] = Obj{kind, val}; }
void died(const void *p) { ++gone; auto it = live.find(p); if(it == live.end()) { note("double-destroy", "a target that is not alive was destroyed"); return; } live.erase(it); }
int val_of(const void *p, const char *what) { auto it = live.find(p); if(it == live.end()) { note("dead-target", std::string(what) + " a target that is not alive"); return -2; } return it->second.val; }
void maybe_throw(const char *what) { if(g_odds && g->fault(what, g_odds, 24)) throw Boom{1}; }
int mix(int kind, int val, int x, size_t sl) { return kind * 1000003 + val * 1009 + x * 7 + (int)sl; }
// targets: K kind, PAD extra bytes, AL alignment, NM: nothrow move
template<int K, size_t PAD, size_t AL, bool NM> struct alignas(AL) Target {
    int val; char pad[PAD];
    explicit Target(int v) : val(v) { memset(pad, v & 127, PAD); born(this, K, v, AL); }
    Target(Target const& o) : val((++g_copies, maybe_throw("copy-throws"), val_of(&o, "copied"))) { memcpy(pad, o.pad, PAD); born(this, K, val, AL); }
    Target(Target &&o) noexcept(NM) : val((NM ? (void)0 : maybe_throw("move-throws"), val_of(&o, "moved"))) { memcpy(pad, o.pad, PAD); born(this, K, val, AL); auto it = live.find(&o); if(it != live.end()) it->second.val = -1; o.val = -1; }
    ~Target() { died(this); val = -77; memset(pad, 0x5a, PAD); }
    Target& operator=(Target const&) = delete;
    int operator()(int x, std::string s, int &out) const {
        ++g_calls; g_last = this; int v = val_of(this, "called"); if(v != val) note("dead-target", "the bytes of a target do not hold what was put there");
        for(size_t i = 0; i < PAD; ++i) if(v >= 0 && pad[i] != (char)(v & 127)) { note("dead-target", "the bytes of a target do not hold what was put there"); break; }
        maybe_throw("call-throws"); out = v + 1; return mix(K, v, x, s.size());
    }
};
using TA = Target<1, 4, 4, true>; using TB = Target<2, 12, 4, false>; using TC = Target<3, 8, 16, false>; using TD = Target<4, 28, 4, false>; using TE = Target<5, 60, 4, false>; using TF = Target<6, 4, 8, true>;
int plain(int x, std::string s, int &out) { out = 6001; return mix(7, 6000, x, s.size()); }
using Sig = int(int, std::string, int&);
using F0 = stdext::inplace_function<Sig, 16, 16>; using F1 = stdext::inplace_function<Sig, 32, 16>; using F2 = stdext::inplace_function<Sig, 64, 32>;

constexpr int ANY = -9, MOVED = -1; // val: unknown target or empty / moved-from
struct Model { bool there = false, empty = true, unknown = false; int kind = 0, val = 0; bool plain = false; bool may_plain() const { return unknown ? plain : !empty && kind >= 7; } void lost(bool p) { p = p || may_plain(); unknown = true; plain = p; } };
void lost2(Model &a, Model &b) { bool p = a.may_plain() || b.may_plain(); a.lost(p); b.lost(p); }
template<class F> struct Slots { static constexpr int N = 3; alignas(64) char mem[N][sizeof(F) + 64]; Model m[N]; F &f(int i) { return *(F*)mem[i]; } };
Slots<F0> s0; Slots<F1> s1; Slots<F2> s2;
int live_in(const void *p, size_t n) { int k = 0; for(auto it = live.lower_bound(p); it != live.end() && (const char*)it->first < (const char*)p + n; ++it) ++k; return k; }
template<class F> void check_slot(F const& f, Model &m, bool call) {
    bool b = (bool)f; int n = live_in(&f, sizeof(F));
    if((f == nullptr) == b || (f != nullptr) != b) note("wrong-emptiness", "comparison with nullptr and conversion to bool disagree");
    if(n > 1) note("leaked-target", "two live targets in one function");
    if(m.unknown) { // after an exception: empty, or holding a live target
        if(b && n != 1 && !m.plain) note("dead-target", "after an exception the function is not empty but holds no live target");
        if(!b && n != 0) note("leaked-target", "after an exception the function is empty but a live target remains in it");
    } else {
        if(b == m.empty) note("wrong-emptiness", std::string("the function is ") + (b ? "not empty" : "empty") + " but should" + (b ? " be" : " not be"));
        if(n != (m.empty || m.kind >= 7 ? 0 : 1)) note(n ? "leaked-target" : "dead-target", std::to_string(n) + " live targets in a function that should hold " + (m.empty ? "none" : "one"));
    }
    if(g->sh->violated) throw sim::Abort();
    if(!call) return;
    int x = (int)g->draw(100), out = 0; std::string arg(g->draw(40), 'q'); int before = g_calls; uint32_t keep = g_odds;
    bool nofault = g->draw(2) == 0; if(nofault) g_odds = 0;
    bool threw = false, bad = false; int r = 0;
    try { r = f(x, arg, out); } catch(std::bad_function_call const&) { bad = true; } catch(Boom const&) { threw = true; }
    g_odds = keep; g->ev("call", bad, threw, r, out);
    if(!b) { if(!bad) note("wrong-call", "calling an empty function did not throw bad_function_call"); }
    else if(bad) note("wrong-call", "calling a function that holds a target threw bad_function_call");
    else if(!threw) {
        int k = m.kind, v = m.val;
        if(n == 1) { if(g_calls != before + 1) note("wrong-call", "one call reached " + std::to_string(g_calls - before) + " targets"); else if((char const*)g_last < (char const*)&f || (char const*)g_last >= (char const*)&f + sizeof(F)) note("wrong-call", "the call reached a target outside the function"); Obj o = live[g_last]; if(m.unknown || v == MOVED) { k = o.kind; v = o.val; } }
        else if(m.unknown || v == MOVED) { v = m.kind == 7 ? 6000 : m.val; if(m.unknown) return; }
        if(r != mix(k, v, x, arg.size()) || out != v + 1) note("wrong-call", "the call did not reach the target last assigned, or its arguments or result were changed");
    }
    if(g->sh->violated) throw sim::Abort();
}
template<class F> void check_all(Slots<F> &s) { for(int i = 0; i < s.N; ++i) if(s.m[i].there) check_slot(s.f(i), s.m[i], false); }
void invariants() { check_all(s0); check_all(s1); check_all(s2); int in = 0; for(int i = 0; i < 3; ++i) { if(s0.m[i].there) in += live_in(&s0.f(i), sizeof(F0)); if(s1.m[i].there) in += live_in(&s1.f(i), sizeof(F1)); if(s2.m[i].there) in += live_in(&s2.f(i), sizeof(F2)); } if((size_t)in != live.size()) note("leaked-target", std::to_string(live.size() - (size_t)in) + " live target(s) belong to no function"); if(g->sh->violated) throw sim::Abort(); }
int next_val;
// what a moved-from function may be: still holding its (moved-from) target, or empty
template<class F> void after_move(F const& f, Model &m) { if(m.empty || m.unknown) { if(m.unknown) return; return; } if(!(bool)f) { m = Model{true, true, false, 0, 0}; } else if(m.kind < 7) m.val = MOVED; }
enum Op { NEW_EMPTY, NEW_NULL, NEW_TARGET, NEW_COPY, NEW_MOVE, ASG_COPY, ASG_MOVE, ASG_TARGET, ASG_NULL, SWAP, CALL, DESTROY, SELF, UPCAST_NEW, UPCAST_ASG, UPCAST_MOVE, NOPS };
template<class F, class D> void with_target(Ctx &cx, Model &m, D &&d) {
    constexpr bool mid = sizeof(F) > sizeof(F0), big = sizeof(F) > sizeof(F1); int v = ++next_val; m.val = v;
    switch(cx.draw(big ? 8 : mid ? 7 : 5)) {
    case 0: m.kind = 1; d(TA(v)); break;
    case 1: m.kind = 2; d(TB(v)); break;
    case 2: m.kind = 6; d(TF(v)); break;
    case 3: m.kind = 7; m.val = 6000; d(&plain); break;
    case 4: { m.kind = 8; d([v](int x, std::string s, int &o) { o = v + 1; return mix(8, v, x, s.size()); }); break; }
    case 5: if constexpr(mid) { m.kind = 3; TC t(v); d(t); } break;
    case 6: if constexpr(mid) { m.kind = 4; TD t(v); if(cx.draw(2)) d(t); else d(std::move(t)); } break;
    default: if constexpr(big) { m.kind = 5; d(TE(v)); } break;
    }
}
// moving or swapping functions never copies a target (targets may share or not be worth copying)
void no_copies(bool moving, uint64_t before) { if(moving && g_copies != before) note("copied-target", "a target was copied by an operation that only moves"); }
template<class F> void op(Ctx &cx, Slots<F> &s, Op o, int i, int j) {
    Model &a = s.m[i], &b = s.m[j]; Model want{true, false, false, 0, 0}; bool threw = false; uint64_t copies = g_copies;
    switch(o) {
    case NEW_EMPTY: new (s.mem[i]) F; a = Model{true, true, false, 0, 0}; break;
    case NEW_NULL: new (s.mem[i]) F(nullptr); a = Model{true, true, false, 0, 0}; break;
    case NEW_TARGET: try { with_target<F>(cx, want, [&](auto &&t) { new (s.mem[i]) F(std::forward<decltype(t)>(t)); }); a = want; } catch(Boom&) { threw = true; a.there = false; } break;
    case NEW_COPY: try { new (s.mem[i]) F((F const&)s.f(j)); a = b; } catch(Boom&) { threw = true; a.there = false; } break;
    case NEW_MOVE: try { new (s.mem[i]) F(std::move(s.f(j))); a = b; after_move(s.f(j), b); } catch(Boom&) { threw = true; a.there = false; b.lost(false); } break;
    case ASG_COPY: try { F &r = (s.f(i) = (F const&)s.f(j)); if(&r != &s.f(i)) note("wrong-call", "assignment does not return its object"); a = b; } catch(Boom&) { threw = true; a.lost(b.may_plain()); } break;
    case ASG_MOVE: try { s.f(i) = std::move(s.f(j)); a = b; after_move(s.f(j), b); } catch(Boom&) { threw = true; lost2(a, b); } break;
    case ASG_TARGET: try { with_target<F>(cx, want, [&](auto &&t) { s.f(i) = std::forward<decltype(t)>(t); }); a = want; } catch(Boom&) { threw = true; a.lost(want.kind >= 7); } break;
    case ASG_NULL: s.f(i) = nullptr; a = Model{true, true, false, 0, 0}; break;
    case SWAP: try { s.f(i).swap(s.f(j)); std::swap(a, b); } catch(Boom&) { threw = true; lost2(a, b); } break;
    case DESTROY: s.f(i).~F(); a.there = false; memset(s.mem[i], 0xEE, sizeof(F)); break;
    case SELF: { F &x = s.f(i); switch(cx.draw(3)) { case 0: x = (F const&)x; break; case 1: x = std::move(x); if(!a.empty && !a.unknown && a.kind < 7) { auto it = live.lower_bound((void*)&x); if(it != live.end() && (char*)it->first < (char*)&x + sizeof(F) && it->second.val == MOVED) a.val = MOVED; } break; default: x.swap(x); } break; }
    default: break;
    }
    if(threw) cx.probe("operation-threw");
    no_copies(o == NEW_MOVE || o == ASG_MOVE || o == SWAP || o == NEW_EMPTY || o == NEW_NULL || o == ASG_NULL || o == DESTROY, copies);
}
template<class F, class G> void upcast(Ctx &cx, Slots<F> &s, int i, Slots<G> &d, int j, Op o) {
    Model &a = s.m[i], &b = d.m[j]; uint64_t copies = g_copies;
    try {
        if(o == UPCAST_NEW) { bool mv = cx.draw(2); if(b.there) { d.f(j).~G(); b.there = false; memset(d.mem[j], 0xEE, sizeof(G)); } try { if(mv) { new (d.mem[j]) G(std::move(s.f(i))); b = a; after_move(s.f(i), a); } else { new (d.mem[j]) G((F const&)s.f(i)); b = a; } } catch(Boom&) { b.there = false; if(mv) a.lost(false); } no_copies(mv, copies); return; }
        if(!b.there) return;
        if(o == UPCAST_ASG) { d.f(j) = (F const&)s.f(i); b = a; }
        else { d.f(j) = std::move(s.f(i)); b = a; after_move(s.f(i), a); }
    } catch(Boom&) { if(o == UPCAST_MOVE) lost2(a, b); else b.lost(a.may_plain()); }
    no_copies(o == UPCAST_MOVE, copies);
}
template<class F> void step(Ctx &cx, Slots<F> &s, int which) {
    static const uint32_t w[NOPS] = {1, 1, 4, 3, 3, 4, 4, 4, 2, 5, 6, 2, 1, 2, 2, 2};
    int i = (int)cx.draw(s.N), j = (int)cx.draw(s.N); Op o = (Op)cx.weighted(w);
    bool isnew = o <= NEW_MOVE; Model &a = s.m[i];
    if(isnew && a.there) o = o == NEW_COPY ? ASG_COPY : o == NEW_MOVE ? ASG_MOVE : o == NEW_TARGET ? ASG_TARGET : ASG_NULL;
    if(o > NEW_MOVE && !a.there) o = NEW_TARGET;
    bool two = o == NEW_COPY || o == NEW_MOVE || o == ASG_COPY || o == ASG_MOVE || o == SWAP;
    if(two && (!s.m[j].there || (i == j && o != SWAP && o != ASG_COPY && o != ASG_MOVE))) o = a.there ? CALL : NEW_TARGET;
    if(two && i == j && a.there) o = SELF;
    cx.ev("op", which, (int)o, i, j); cx.sig((uint64_t)(which * 1000 + o * 16 + i * 4 + j));
    if(o == CALL) check_slot(s.f(i), a, true);
    else if(o >= UPCAST_NEW && o <= UPCAST_MOVE) { if constexpr(sizeof(F) == sizeof(F0)) { if(cx.draw(2)) upcast(cx, s, i, s1, j, o); else upcast(cx, s, i, s2, j, o); } else if constexpr(sizeof(F) == sizeof(F1)) upcast(cx, s, i, s2, j, o); }
    else op(cx, s, o, i, j);
    if(g->sh->violated) throw sim::Abort();
}
template<class F> void drop(Slots<F> &s) { for(int i = 0; i < s.N; ++i) if(s.m[i].there) { s.f(i).~F(); s.m[i].there = false; } }
}
void sim_init() {}
void sim_run(Ctx &cx) {
    g = &cx; live.clear(); made = gone = 0; next_val = 100; g_calls = 0; g_copies = 0; for(int i = 0; i < 3; ++i) s0.m[i] = s1.m[i] = s2.m[i] = Model();
    memset(s0.mem, 0xEE, sizeof s0.mem); memset(s1.mem, 0xEE, sizeof s1.mem); memset(s2.mem, 0xEE, sizeof s2.mem);
    g_odds = cx.draw(3) == 0 ? 0 : 1 + cx.draw(8);
    uint32_t n = 2 + cx.skewed(30);
    for(uint32_t k = 0; k < n; ++k) {
        switch(cx.draw(3)) { case 0: step(cx, s0, 0); break; case 1: step(cx, s1, 1); break; default: step(cx, s2, 2); }
        invariants();
    }
    uint32_t keep = g_odds; g_odds = 0; (void)keep; // faults stop: everything can be called and destroyed
    for(int i = 0; i < 3; ++i) { if(s0.m[i].there) check_slot(s0.f(i), s0.m[i], true); if(s1.m[i].there) check_slot(s1.f(i), s1.m[i], true); if(s2.m[i].there) check_slot(s2.f(i), s2.m[i], true); }
    drop(s0); drop(s1); drop(s2);
    if(!live.empty()) cx.fail("leaked-target", std::to_string(live.size()) + " target(s) were never destroyed");
    if(made != gone) cx.fail("double-destroy", std::to_string(made) + " targets were constructed but " + std::to_string(gone) + " destroyed");
    if(cx.sh->violated) throw sim::Abort();
    cx.ev("end", made);
}
