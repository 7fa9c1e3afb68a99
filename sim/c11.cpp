// C11: error delivery under drawn flags, nestings, callbacks that throw, nest
// or return, formatting failures and a failing stderr.
#include "sim.hpp"
#include <c4/error.hpp>
#include <c4/memory_resource.hpp>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <wchar.h>
#include <stdexcept>
using sim::Ctx; using namespace c4;
#if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
static const bool kThrows = true;
#else
static const bool kThrows = false;
#endif
static Ctx *g; static jmp_buf g_abort; static bool g_armed;
static FILE *g_err; static std::string g_errtext; static bool g_errfault; static uint32_t g_errodds;

static ssize_t err_write(void*, const char *p, size_t n) {
    if(g && g_errodds) { if(g->fault("stderr-write-error", g_errodds, 16)) { g_errfault = true; return 0; } if(n > 1 && g->fault("stderr-short-write", g_errodds, 16)) { n = 1 + g->draw((uint32_t)n - 1); } }
    g_errtext.append(p, n); return (ssize_t)n;
}
// aborting ends the simulated process: control goes back to the simulator
extern "C" void __real_abort();
extern "C" void __wrap_abort() { if(g_armed) { g_armed = false; longjmp(g_abort, 1); } __real_abort(); }

struct Thrown { uint32_t id; };
struct Level { // one error being raised
    bool exact = true;         // the text is known
    std::string want;          // formatted text, truncated
    error_flags flags; error_callback_type cb; int calls = 0; int behaviour = 0; uint32_t id = 0; size_t err_from = 0; bool outer = false;
};
static std::vector<Level> *g_lv; static int g_depth; static uint32_t g_next; static bool g_abort_ok;
static void raise_one(int depth);
static void scopes(int depth);
static void check_settings(const char *when, error_flags f, error_callback_type c) { if(get_error_flags() != f || get_error_callback() != c) g->fail("settings", std::string(when) + ": error flags or callback are not the expected ones: flags " + std::to_string(get_error_flags()) + " expected " + std::to_string(f)); }

static void on_error(int which, const char *msg, size_t n) {
    if(g_lv->empty()) g->fail("stray-callback", "the callback was called without an error");
    size_t me = g_lv->size() - 1;
    {
        Level &l = (*g_lv)[me]; ++l.calls; g->ev("callback", which, (uint64_t)n);
        if(l.calls > 1) g->fail("callback-repeated", "the callback was called twice for one error");
        extern error_callback_type g_cbs[]; if(l.cb != g_cbs[which]) g->fail("wrong-callback", "another callback than the installed one was called");
        if(!(l.flags & ON_ERROR_CALLBACK)) g->fail("callback-unwanted", "the callback was called without ON_ERROR_CALLBACK");
        if(msg[n] != 0) g->fail("message", "the message is not terminated at msg_size");
        if(l.exact) { if(n != l.want.size() || memcmp(msg, l.want.data(), n)) g->fail("message", "the callback got " + sim::quote(msg, n) + " (" + std::to_string(n) + ") expected " + sim::quote(l.want) + " (" + std::to_string(l.want.size()) + ")"); }
        else { if(n > 1023) g->fail("message", "msg_size is " + std::to_string(n)); if(strnlen(msg, n) != n) g->fail("message", "msg_size does not match the message after a formatting failure"); }
        if(l.behaviour == 1) { g->inject("callback-throws"); throw Thrown{l.id}; }
    }
    if((*g_lv)[me].behaviour == 2) { // handler itself runs into errors
        g->inject("callback-nests");
        std::string keep(msg, n); scopes(g_depth);
        if(keep.size() != n || memcmp(keep.data(), msg, n) || msg[n]) g->fail("message", "a nested error changed the outer message");
        throw Thrown{(*g_lv)[me].id};
    }
    g->inject("callback-returns");
}
static void cb0(const char *m, size_t n) { on_error(0, m, n); }
static void cb1(const char *m, size_t n) { on_error(1, m, n); }
static void cb2(const char *m, size_t n) { on_error(2, m, n); }
error_callback_type g_cbs[] = {cb0, cb1, cb2, nullptr};

static std::string draw_str(Ctx &cx) {
    size_t n; switch(cx.draw(6)) { case 0: n = cx.draw(10); break; case 1: n = cx.draw(80); break; case 2: n = 1015 + cx.draw(16); break; case 3: n = 1000 + cx.draw(60); break; case 4: n = cx.draw(3000); break; default: n = 2040 + cx.draw(20); }
    std::string s; uint32_t k = cx.draw(26); for(size_t i = 0; i < n; ++i) s += (char)('a' + (k + i * 7) % 26); if(n > 4 && cx.draw(3) == 0) s[cx.draw((uint32_t)n)] = "%\n\\\x80"[cx.draw(4)]; return s;
}
static std::string cut(const char *b, int n) { return std::string(b, (size_t)(n > 1023 ? 1023 : n)); }
static volatile int v_zero = 0, v_seven = 7;

// raises one error of a drawn kind; must not return normally
static void raise_one(int depth) {
    Ctx &cx = *g; Level l; l.flags = get_error_flags(); l.cb = get_error_callback(); l.behaviour = (int)cx.draw(depth > 0 ? 3 : 2); // nesting only above the last level
    if(l.behaviour == 0 && cx.draw(4)) l.behaviour = 1; // mostly not the end of the run
    l.id = ++g_next; l.err_from = g_errtext.size(); g_errfault = false;
    static char ref[16384]; int n = -1; uint32_t kind = cx.draw(14); std::string s = draw_str(cx); int i1 = (int)cx.draw(2000000000) - 1000000000; double d = (double)i1 / 64;
    bool will_call = (l.flags & ON_ERROR_CALLBACK) && l.cb;
    auto set = [&](const char *t) { n = (int)strlen(t); memcpy(ref, t, (size_t)n + 1); };
    switch(kind) {
    case 0: set("plain message"); break;
    case 1: n = snprintf(ref, sizeof ref, "%s", s.c_str()); break;
    case 2: n = snprintf(ref, sizeof ref, "value=%d str=%s real=%.3f", i1, s.c_str(), d); break;
    case 3: n = snprintf(ref, sizeof ref, "%.*s|%5d|%%|%c", (int)(s.size() / 2), s.c_str(), i1, 'x'); break;
    case 4: n = snprintf(ref, sizeof ref, "a%cb %s", 0, s.c_str()); break;
    case 5: set("check failed: v_zero == 1"); break;
    case 6: n = snprintf(ref, sizeof ref, "check failed: v_zero > 3\nwith %s and %d", s.c_str(), i1); break;
    case 7: set("check failed: v_seven % 2 == 0\nodd"); break;
    case 8: set("NOT IMPLEMENTED"); break;
    case 9: n = snprintf(ref, sizeof ref, "never reach this point: %s", s.c_str()); break;
    case 10: n = -1; break; // formatting failure
    case 11: n = snprintf(ref, sizeof ref, "%*d", 1000 + i1 % 40, 5); break;
    case 12: set(""); break;
    default: n = snprintf(ref, sizeof ref, "NOT IMPLEMENTED: %s", s.c_str()); break;
    }
    if(n >= 0) l.want = cut(ref, n); else { l.exact = false; cx.inject("format-failure"); }
    bool logs = l.flags & ON_ERROR_LOG; bool throws = kThrows && (l.flags & ON_ERROR_THROW);
    cx.ev("raise", (uint64_t)kind, (uint64_t)l.flags, (uint64_t)l.want.size(), l.behaviour, will_call); cx.sig(kind * 64 + l.flags); cx.sig(l.behaviour); cx.sig(l.want.size());
    g_abort_ok = !(will_call && l.behaviour != 0) && !throws;
    int expect = will_call && l.behaviour != 0 ? 1 : throws ? 2 : 0; // Thrown, runtime_error, abort
    g_lv->push_back(l); size_t me = g_lv->size() - 1; int got = 0; uint32_t got_id = 0; std::string what;
    static const wchar_t bad[] = {L'a', (wchar_t)0xDC00, 0};
    try {
        switch(kind) {
        case 0: C4_ERROR("plain message"); break;
        case 1: C4_ERROR("%s", s.c_str()); break;
        case 2: C4_ERROR("value=%d str=%s real=%.3f", i1, s.c_str(), d); break;
        case 3: C4_ERROR("%.*s|%5d|%%|%c", (int)(s.size() / 2), s.c_str(), i1, 'x'); break;
        case 4: C4_ERROR("a%cb %s", 0, s.c_str()); break;
        case 5: C4_CHECK(v_zero == 1); break;
        case 6: C4_CHECK_MSG(v_zero > 3, "with %s and %d", s.c_str(), i1); break;
        case 7: C4_CHECK_MSG(v_seven % 2 == 0, "odd"); break;
        case 8: C4_NOT_IMPLEMENTED(); break;
        case 9: C4_NEVER_REACH_MSG("%s", s.c_str()); break;
        case 10: C4_ERROR("bad %ls tail", bad); break;
        case 11: C4_ERROR("%*d", 1000 + i1 % 40, 5); break;
        case 12: C4_ERROR(""); break;
        default: C4_NOT_IMPLEMENTED_IF_MSG(v_zero == 0, "%s", s.c_str()); break;
        }
        cx.fail("returned", "control came back to the statement after the error");
    } catch(Thrown const& t) { got = 1; got_id = t.id; }
    catch(std::runtime_error const& e) { got = 2; what = e.what(); }
    Level r = (*g_lv)[me]; g_lv->resize(me);
    if(got == 1 && got_id != r.id) cx.fail("wrong-exception", "an exception of another error propagated");
    if(got != expect) cx.fail("wrong-exception", "unexpected way out of an error: " + std::to_string(got) + " expected " + std::to_string(expect));
    if(got == 2 && r.exact && what != std::string(r.want.c_str())) cx.fail("message", "the exception carries " + sim::quote(what));
    if(r.calls != (will_call ? 1 : 0)) cx.fail("callback-count", "the callback was called " + std::to_string(r.calls) + " times");
    check_settings("after an error", r.flags, r.cb);
    // the log: only if requested, with the whole message
    size_t upto = r.behaviour == 2 ? std::string::npos : g_errtext.size();
    if(!logs && upto != std::string::npos && g_errtext.size() != r.err_from) cx.fail("logged", "stderr was written without ON_ERROR_LOG");
    if(logs && !g_errfault && !g_errodds && r.exact) { std::string m = r.want.c_str(); if(g_errtext.find(m, r.err_from) == std::string::npos) cx.fail("not-logged", "the message is not on stderr"); }
}
static error_flags draw_flags(Ctx &cx) { error_flags f = 0; if(cx.draw(4)) f |= ON_ERROR_CALLBACK; if(cx.draw(3)) f |= ON_ERROR_LOG; if(cx.draw(2)) f |= ON_ERROR_ABORT; if(cx.draw(3) == 0) f |= ON_ERROR_THROW; if(cx.draw(2)) f |= ON_ERROR_DEBUGBREAK; return f; }

static void body(int depth) {
    Ctx &cx = *g; uint32_t k = 1 + cx.draw(3);
    for(uint32_t i = 0; i < k; ++i) switch(cx.draw(5)) {
        case 0: case 1: raise_one(depth); break;
        case 2: { // warnings are logged, reach no callback and return
            size_t from = g_errtext.size(); std::string s = draw_str(cx); if(cx.draw(6) == 0) { static const wchar_t bad[] = {L'w', (wchar_t)0xDC00, 0}; cx.inject("format-failure"); C4_WARNING("bad %ls", bad); break; }
            if(cx.draw(8) == 0) { cx.ev("empty-warning"); C4_WARNING("%s", ""); if(g_errtext.find("%s", from) != std::string::npos) cx.fail("not-logged", "an empty warning was logged as its format"); break; }
            C4_WARNING("careful: %s", s.c_str()); cx.ev("warning", (uint64_t)s.size()); std::string m = ("careful: " + s).substr(0, 1023);
            if(!g_errodds && g_errtext.find(m, from) == std::string::npos) cx.fail("not-logged", "a warning is not on stderr"); break; }
        case 3: if(depth > 0) scopes(depth - 1); break;
        default: { // checks that hold are silent
            size_t from = g_errtext.size(); C4_CHECK(v_zero == 0); C4_CHECK_MSG(v_seven == 7, "%s", "x"); C4_ASSERT(v_zero == 0); C4_NOT_IMPLEMENTED_IF(v_zero); if(g_errtext.size() != from) cx.fail("logged", "a check that holds wrote to stderr"); break; }
    }
}
struct Out { uint32_t id; };
static void scopes(int depth) {
    Ctx &cx = *g; error_flags f0 = get_error_flags(); error_callback_type c0 = get_error_callback(); g_depth = depth > 0 ? depth - 1 : 0;
    error_flags f = draw_flags(cx); error_callback_type c = g_cbs[cx.draw(12) == 0 ? 3 : cx.draw(3)]; uint32_t how = cx.draw(4); uint32_t id = ++g_next; bool leave = cx.chance(1, 3);
    auto inner = [&](error_flags ef, error_callback_type ec) { check_settings("in a scope", ef, ec); body(depth > 0 ? depth - 1 : 0); if(cx.draw(4) == 0) { set_error_flags(draw_flags(cx)); } if(cx.draw(4) == 0) set_error_callback(g_cbs[cx.draw(4)]); if(leave) { cx.inject("scope-exit-by-exception"); throw Out{id}; } };
    cx.ev("scope", (uint64_t)how, (uint64_t)f);
    try {
        if(how == 0) { ScopedErrorSettings s(c); inner(f0, c); }
        else if(how == 1) { ScopedErrorSettings s(f); inner(f, c0); }
        else { ScopedErrorSettings s(f, c); inner(f, c); }
    } catch(Out const& o) { if(o.id != id) throw; }
    check_settings("after a scope", f0, c0);
}

void sim_init() { cookie_io_functions_t io{}; io.write = err_write; g_err = fopencookie(nullptr, "w", io); setvbuf(g_err, nullptr, _IONBF, 0); }
void sim_run(Ctx &cx) {
    g = &cx; static std::vector<Level> lv; lv.clear(); g_lv = &lv; g_errtext.clear(); g_next = 0; g_errfault = false; g_errodds = cx.draw(3) == 0 ? 1 + cx.draw(8) : 0;
    FILE *keep = stderr; stderr = g_err; error_flags f = draw_flags(cx); set_error_flags(f); set_error_callback(cb0);
    struct Back { FILE *k; ~Back() { stderr = k; g_armed = false; g = nullptr; } } back{keep};
    check_settings("after setting", f, cb0);
    g_armed = true;
    if(setjmp(g_abort) == 0) { g_depth = 3; scopes(3); g_armed = false; }
    else { // the simulated process aborted
        cx.ev("abort"); cx.probe("aborted");
        if(lv.empty()) cx.fail("stray-abort", "abort without an error");
        Level &l = lv.back(); bool will_call = (l.flags & ON_ERROR_CALLBACK) && l.cb;
        if(l.calls != (will_call ? 1 : 0)) cx.fail("callback-count", "aborted after calling the callback " + std::to_string(l.calls) + " times");
        if(will_call && l.behaviour != 0) cx.fail("wrong-exception", "aborted although the callback threw");
        if(kThrows && (l.flags & ON_ERROR_THROW)) cx.fail("wrong-exception", "aborted although ON_ERROR_THROW is set");
        if((l.flags & ON_ERROR_LOG) && l.exact && !g_errodds && g_errtext.find(std::string(l.want.c_str()), l.err_from) == std::string::npos) cx.fail("not-logged", "aborted without the message on stderr");
    }
}
