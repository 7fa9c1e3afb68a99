// C02: one-shot dump emits a clean prefix and reports a usable buffer size.
#include "dumpsim.hpp"
namespace dumpsim { std::string g_sink; }
using namespace dumpsim;
static sim::Guarded gb;
void sim_init() { gb.init(2); }

static size_t call(Job const& j, substr buf) {
    switch(j.form) { case fCat: return oneshot_cat(j, buf); case fCatsep: return oneshot_catsep(j, buf); default: return oneshot_format(j, buf); }
}

void sim_run(sim::Ctx &cx) {
    Job j = draw_job(cx);
    const size_t npieces = j.pieces.size();
    size_t maxpiece = 1, reals = 0; for(auto &p : j.pieces) maxpiece = std::max(maxpiece, p.size());
    auto step = [&](size_t cap) {
        g_sink.clear();
        char *p = gb.at_end(cap); char fill = "#0"[cx.draw(2)]; memset(gb.base, fill, gb.cap());
        size_t ret = call(j, substr(p, cap));
        cx.ev("call", (uint64_t)cap, "-> size", (uint64_t)ret, "sink", (uint64_t)g_sink.size());
        cx.sig(cap); cx.sig(g_sink.size());
        for(char *q = gb.base; q < p; ++q) if(*q != fill) cx.fail("out-of-bounds", "bytes before the buffer were written");
        std::string want; size_t i = 0;
        if(cap) for(; i < npieces; ++i) { if(!j.is_text[i] && j.need[i] > cap) break; want += j.pieces[i]; }
        if(g_sink != want) cx.fail("prefix-mismatch", "capacity " + std::to_string(cap) + ": sink=" + sim::quote(g_sink) + " expected=" + sim::quote(want));
        if(cap && ret <= cap) cx.check(g_sink == j.full, "false-success", "size " + std::to_string(ret) + " fits capacity " + std::to_string(cap) + " but the text is incomplete: " + sim::quote(g_sink) + " of " + sim::quote(j.full));
        cx.check(ret < (1u << 20), "absurd-size", "required size " + std::to_string(ret));
        return ret;
    };
    size_t last = 0;
    uint32_t n = 1 + cx.draw(6);
    for(uint32_t i = 0; i < n; ++i) {
        size_t cap;
        switch(cx.draw(5)) {
        case 0: cap = 64 + maxpiece; break;
        case 1: cap = 0; cx.inject("buffer-empty"); break;
        case 2: { auto const& p = j.pieces[cx.draw((uint32_t)npieces)]; cap = p.size() ? p.size() - 1 : 0; cx.inject("buffer-one-short"); break; }
        case 3: { auto const& p = j.pieces[cx.draw((uint32_t)npieces)]; cap = p.size(); cx.inject("buffer-exact-for-one-piece"); break; }
        default: cap = cx.draw((uint32_t)maxpiece + 2); cx.inject("buffer-arbitrary"); break;
        }
        last = step(cap);
        // retry with the reported size until complete
        if(cx.draw(2)) {
            size_t bound = j.full.size() + npieces + 30, k = 0;
            while(g_sink != j.full || k == 0) {
                if(k++ > bound) cx.fail("no-progress", "retrying with the reported size did not complete within " + std::to_string(bound) + " calls");
                last = step(std::max<size_t>(1, last));
            }
            if(k > 1) cx.probe("size-grew-on-retry");
            cx.probe("retried-to-completion");
        }
    }
}
