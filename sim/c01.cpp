// C01: resumable dump delivers every byte exactly once, in order.
#include "dumpsim.hpp"
namespace dumpsim { std::string g_sink; }
using namespace dumpsim;
static sim::Guarded gb;
void sim_init() { gb.init(2); }

static DumpResults call(Job const& j, DumpResults r, bool fresh, substr buf) {
    switch(j.form) { case fCat: return resume_cat(j, r, fresh, buf); case fCatsep: return resume_catsep(j, r, fresh, buf); default: return resume_format(j, r, fresh, buf); }
}

void sim_run(sim::Ctx &cx) {
    g_sink.clear();
    Job j = draw_job(cx);
    DumpResults r; bool first = true; size_t ncalls = 0;
    const size_t npieces = j.pieces.size();
    size_t maxpiece = 1; for(auto &p : j.pieces) maxpiece = std::max(maxpiece, p.size());
    auto step = [&](size_t cap, bool expect_noop) {
        char *p = gb.at_end(cap); memset(gb.base, '#', gb.cap());
        bool fresh = first && cx.draw(2) == 0;
        DumpResults before = r; size_t sink0 = g_sink.size();
        r = call(j, r, fresh, substr(p, cap)); first = false; ++ncalls;
        cx.ev("call", (uint64_t)cap, "-> lastok", (uint64_t)(r.lastok + 1), "bufsize", (uint64_t)r.bufsize, "sink", (uint64_t)g_sink.size());
        cx.sig(cap); cx.sig(r.lastok);
        for(char *q = gb.base; q < p; ++q) if(*q != '#') cx.fail("out-of-bounds", "bytes before the buffer were written");
        size_t done = r.lastok + 1; // noarg+1 == 0
        cx.check(done <= npieces, "bad-position", "lastok is past the last piece: " + std::to_string(r.lastok));
        cx.check(done >= before.lastok + 1, "regress", "lastok went back");
        std::string want; for(size_t i = 0; i < done; ++i) want += j.pieces[i];
        if(g_sink != want) cx.fail("sink-mismatch", "after call " + std::to_string(ncalls) + " (capacity " + std::to_string(cap) + ") pieces done=" + std::to_string(done) + " sink=" + sim::quote(g_sink) + " expected=" + sim::quote(want));
        if(expect_noop) cx.check(g_sink.size() == sink0 && done == npieces, "not-idempotent", "resuming a completed dump changed something");
    };
    // fault phase: capacities drawn at will
    uint32_t nfaulty = cx.draw(8);
    for(uint32_t i = 0; i < nfaulty; ++i) {
        size_t cap;
        switch(cx.draw(6)) {
        case 0: cap = 64 + maxpiece; break;
        case 1: cap = 0; cx.inject("buffer-empty"); break;
        case 2: { auto const& p = j.pieces[cx.draw((uint32_t)npieces)]; cap = p.size() ? p.size() - 1 : 0; cx.inject("buffer-one-short"); break; }
        case 3: { auto const& p = j.pieces[cx.draw((uint32_t)npieces)]; cap = p.size(); cx.inject("buffer-exact-for-one-piece"); break; }
        case 4: cap = cx.draw((uint32_t)maxpiece + 2); cx.inject("buffer-arbitrary"); break;
        default: cap = r.bufsize ? r.bufsize - 1 : 0; cx.inject("buffer-below-reported-size"); break;
        }
        step(cap, r.lastok + 1 == npieces);
    }
    // faults stop: progress within a bounded number of calls
    size_t bound = j.full.size() + npieces + 30, n = 0; uint32_t slack = cx.draw(3);
    while(r.lastok + 1 != npieces) {
        if(n++ > bound) cx.fail("no-progress", "dump did not complete within " + std::to_string(bound) + " calls with capacities of at least the reported bufsize; pieces done " + std::to_string(r.lastok + 1) + " of " + std::to_string(npieces));
        step(std::max<size_t>(1, r.bufsize) + (slack == 2 ? 7 : 0), false);
    }
    cx.check(g_sink == j.full, "sink-mismatch", "completed dump differs from the text");
    if(nfaulty) cx.probe("completed-after-faults");
    if(n > 1) cx.probe("needed-several-resumes");
    for(uint32_t i = cx.draw(3); i > 0; --i) { cx.inject("resume-after-completion"); step(std::max<size_t>(1, r.bufsize) + cx.draw(40), true); }
}
