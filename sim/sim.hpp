// Deterministic simulation core: choice tape, faults, event history, verdicts.
// One seed = one tape of choices = one execution. Every nondeterministic
// decision of a run is taken through Ctx::draw()/chance()/fault(), is recorded
// on the tape as its outcome (0 = simplest outcome / no fault) and can be
// replayed and minimised from there.
#ifndef SIM_HPP_
#define SIM_HPP_
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <exception>
#include <unistd.h>

namespace sim {

struct Abort {}; // thrown by fail(); never derived from std::exception

constexpr size_t kMaxTape = 1u << 16;
constexpr size_t kMaxSteps = 1u << 17;
constexpr size_t kMaxCnt = 256;
constexpr size_t kMaxSig = 120000;

struct Counter { char name[56]; char kind; uint64_t n; };

struct Shared { // lives in MAP_SHARED memory: survives a crash of the run
    uint64_t cur_idx, cur_seed, hash, steps;
    uint32_t ntape, started, finished, violated;
    uint32_t tape[kMaxTape];
    char cls[64];
    char msg[1024];
    // statistics, accumulated over runs
    uint64_t runs, nontrivial_runs, total_steps, total_draws, nfaults, sw_total, rechecks;
    Counter cnt[kMaxCnt];
    uint32_t ncnt;
    uint32_t nsig;
    uint64_t sig[kMaxSig];
    char nondet[256];
};

struct Rng {
    uint64_t s;
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
};

struct Ctx {
    Shared *sh;
    Rng rng;
    bool replaying = false;
    const uint32_t *rtape = nullptr; size_t rlen = 0;
    bool verbose = false;
    bool nontrivial = false;
    uint64_t sigh = 1469598103934665603ull;
    bool stats = true;
    std::string *text = nullptr;

    // ---- choices
    uint32_t record(uint32_t v) { if(sh->ntape < kMaxTape) sh->tape[sh->ntape++] = v; return v; }
    bool exhausted() const { return sh->ntape >= kMaxTape; }
    uint32_t draw(uint32_t n) { // uniform in [0,n)
        if(n <= 1) return 0;
        if(replaying) { uint32_t v = sh->ntape < rlen ? rtape[sh->ntape] : 0u; return record(v < n ? v : n - 1); }
        if(exhausted()) return 0;
        return record((uint32_t)((rng.next() >> 11) % n));
    }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); } // inclusive
    bool chance(uint32_t num, uint32_t den) { // outcome 1 with probability num/den
        if(num == 0) return false;
        if(replaying) { uint32_t v = sh->ntape < rlen ? rtape[sh->ntape] : 0u; return record(v ? 1u : 0u) != 0; }
        if(exhausted()) return false;
        return record(((rng.next() >> 11) % den) < num ? 1u : 0u) != 0;
    }
    uint64_t draw64() { uint64_t a = draw(0xffffffffu), b = draw(0xffffffffu); return (a << 32) | b; }
    // small values more likely; 0..max
    uint32_t skewed(uint32_t max) {
        if(max == 0) return 0;
        switch(draw(4)) {
        case 0: return draw(max < 3 ? max + 1 : 4);
        case 1: return draw(max < 11 ? max + 1 : 12);
        case 2: return draw(max < 63 ? max + 1 : 64);
        default: return draw(max + 1);
        }
    }
    template<size_t N> uint32_t weighted(const uint32_t (&w)[N]) {
        uint32_t tot = 0; for(uint32_t x : w) tot += x;
        if(replaying) { uint32_t v = sh->ntape < rlen ? rtape[sh->ntape] : 0u; if(v >= N) v = N - 1; while(v && w[v] == 0) --v; return record(v); }
        if(exhausted()) return 0;
        uint32_t r = (uint32_t)((rng.next() >> 11) % tot), i = 0;
        while(r >= w[i]) { r -= w[i]; ++i; }
        return record(i);
    }
    // ---- faults and probes
    void count(char kind, const char *name, uint64_t by = 1) {
        if(!stats) return;
        for(uint32_t i = 0; i < sh->ncnt; ++i)
            if(sh->cnt[i].kind == kind && !strcmp(sh->cnt[i].name, name)) { sh->cnt[i].n += by; return; }
        if(sh->ncnt < kMaxCnt) { Counter &c = sh->cnt[sh->ncnt++]; snprintf(c.name, sizeof c.name, "%s", name); c.kind = kind; c.n = by; }
    }
    bool fault(const char *name, uint32_t num, uint32_t den) {
        if(!chance(num, den)) return false;
        inject(name); return true;
    }
    void inject(const char *name) { nontrivial = true; count('f', name); if(stats) ++sh->nfaults; ev("fault", name); }
    void probe(const char *name) { count('p', name); }
    // ---- history
    void mixb(const void *p, size_t n) { const unsigned char *c = (const unsigned char*)p; uint64_t h = sh->hash; for(size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } sh->hash = h; }
    void ev1(uint64_t v) { mixb(&v, 8); if(text) { *text += ' '; *text += std::to_string((long long)v); } }
    void ev1(const char *s) { mixb(s, strlen(s)); if(text) { *text += ' '; *text += s; } }
    void ev1(std::string const& s) { mixb(s.data(), s.size()); if(text) { *text += " \""; for(char ch : s) { unsigned char c = (unsigned char)ch; if(c >= 32 && c < 127 && c != '"' && c != '\\') *text += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); *text += b; } } *text += '"'; } }
    void ev1(int v) { ev1((uint64_t)(int64_t)v); }
    void ev1(unsigned v) { ev1((uint64_t)v); }
    void ev1(bool v) { ev1((uint64_t)v); }
    void ev1(long v) { ev1((uint64_t)v); }
    void ev1(long long v) { ev1((uint64_t)v); }
    void ev1(unsigned long long v) { ev1((uint64_t)v); }
    template<class... A> void ev(const char *tag, A const&... a) {
        if(text) { *text += std::to_string((unsigned long long)sh->steps); *text += ": "; *text += tag; }
        mixb(tag, strlen(tag)); if(++sh->steps == kMaxSteps) { snprintf(sh->msg, sizeof sh->msg, "the run does not end: %zu events", kMaxSteps); _exit(79); } // far beyond any run of the unbroken code
        (void)std::initializer_list<int>{ (ev1(a), 0)... };
        if(text) { *text += '\n'; if(verbose) { fputs(text->c_str(), stdout); fflush(stdout); text->clear(); } }
    }
    void sig(uint64_t v) { sigh ^= v + 0x9e3779b97f4a7c15ull + (sigh << 6) + (sigh >> 2); sigh *= 1099511628211ull; }
    // ---- verdicts
    void note_fail(const char *cls, std::string const& msg) {
        if(sh->violated) return;
        snprintf(sh->cls, sizeof sh->cls, "%s", cls);
        snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
        sh->violated = 1;
        ev("VIOLATION", cls);
    }
    [[noreturn]] void fail(const char *cls, std::string const& msg) { note_fail(cls, msg); throw Abort(); }
    void check(bool ok, const char *cls, std::string const& msg) { if(!ok) fail(cls, msg); }
};

inline std::string quote(const char *p, size_t n) {
    std::string r = "\"";
    for(size_t i = 0; i < n && i < 400; ++i) { unsigned char c = (unsigned char)p[i]; if(c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
    return r + "\"";
}
inline std::string quote(std::string const& s) { return quote(s.data(), s.size()); }

// A region whose usable bytes end exactly at (or start exactly after) an
// inaccessible page: any access beyond it faults at once.
struct Guarded {
    char *base = nullptr; size_t pages = 0;
    void init(size_t npages);
    char *at_end(size_t len) const { return base + (pages << 12) - len; } // [p,p+len) then guard
    char *at_begin() const { return base; }                              // guard then [p,...)
    size_t cap() const { return pages << 12; }
};

} // namespace sim

void sim_run(sim::Ctx &cx);      // one simulated run
void sim_init();                 // once per process, before any run
#endif
