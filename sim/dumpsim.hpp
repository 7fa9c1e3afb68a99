// Shared by C01 and C02: argument packs, sinks and the form dispatch.
#ifndef DUMPSIM_HPP_
#define DUMPSIM_HPP_
#include "vals.hpp"
#include <c4/dump.hpp>

namespace dumpsim {
using namespace vals;
using c4::DumpResults;

enum Form { fCat, fCatsep, fFormat };
enum SepKind { sText, sVal, sLit };

struct Job {
    int form = fCat; bool tmpl_sink = false; int sepkind = sText; bool fresh_api = false;
    std::vector<Arg> args; Arg sep; std::string fmt;
    std::vector<std::string> pieces; std::vector<bool> is_text; std::vector<size_t> need; // of the pieces
    std::string full;
};

extern std::string g_sink; // the sink of the current run
inline void sink_fn(csubstr s) { g_sink.append(s.str, s.len); }
struct SinkFunctor { std::string *out; void operator()(csubstr s) const { if(s.len) out->append(s.str, s.len); } };

// implemented in three translation units
DumpResults resume_cat(Job const& j, DumpResults r, bool fresh, substr buf);
DumpResults resume_catsep(Job const& j, DumpResults r, bool fresh, substr buf);
DumpResults resume_format(Job const& j, DumpResults r, bool fresh, substr buf);
size_t oneshot_cat(Job const& j, substr buf);
size_t oneshot_catsep(Job const& j, substr buf);
size_t oneshot_format(Job const& j, substr buf);

inline Arg draw_arg(Ctx &cx, bool reals) {
    Arg a;
    switch(cx.draw(4)) {
    case 0: a.val = val_of_size(cx, 1 + cx.skewed(30)); break;
    case 1: a.is_text = true; a.text = draw_text(cx, 20); break;
    default: a.val = draw_val(cx, reals, 24); break;
    }
    return a;
}

inline Job draw_job(Ctx &cx) {
    Job j; j.form = (int)cx.draw(3); j.tmpl_sink = cx.draw(2); bool reals = cx.chance(1, 3);
    uint32_t maxn = j.form == fCatsep ? 4 : 5;
    uint32_t n = j.form == fFormat ? cx.range(0, maxn) : cx.range(1, maxn);
    for(uint32_t i = 0; i < n; ++i) j.args.push_back(draw_arg(cx, reals));
    if(j.form == fCatsep) {
        j.sepkind = (int)cx.draw(3);
        if(j.sepkind == sText) { j.sep.is_text = true; j.sep.text = draw_text(cx, 12); }
        else if(j.sepkind == sVal) j.sep.val = cx.draw(2) ? draw_val(cx, false, 12) : val_of_size(cx, 1 + cx.skewed(20));
        else { j.sep.is_text = true; j.sep.text = ", "; }
        for(uint32_t i = 0; i < n; ++i) { if(i) { j.need.push_back(j.sep.need()); j.pieces.push_back(j.sep.ref()); j.is_text.push_back(j.sep.is_text); } j.need.push_back(j.args[i].need()); j.pieces.push_back(j.args[i].ref()); j.is_text.push_back(j.args[i].is_text); }
    } else if(j.form == fCat) {
        for(auto &a : j.args) { j.need.push_back(a.need()); j.pieces.push_back(a.ref()); j.is_text.push_back(a.is_text); }
    } else {
        // number of {} may be smaller or larger than the number of arguments
        uint32_t slots = cx.draw(4) == 0 ? cx.draw(maxn + 2) : n; std::vector<std::string> lits;
        for(uint32_t i = 0; i <= slots; ++i) { std::string l; uint32_t k = cx.draw(3) == 0 ? 0 : cx.draw(9); for(uint32_t q = 0; q < k; ++q) l += "ab{ }x,"[cx.draw(7)]; for(size_t p; (p = l.find("{}")) != std::string::npos;) l.erase(p, 1); lits.push_back(l); }
        for(size_t i = 0; i + 1 < lits.size(); ++i) if(!lits[i].empty() && lits[i].back() == '{') lits[i].back() = '<';
        for(size_t i = 0; i < lits.size(); ++i) { j.fmt += lits[i]; if(i + 1 < lits.size()) j.fmt += "{}"; }
        size_t used = std::min<size_t>(slots, n), i = 0;
        for(; i < used; ++i) { j.need.push_back(lits[i].size()); j.pieces.push_back(lits[i]); j.is_text.push_back(true); j.need.push_back(j.args[i].need()); j.pieces.push_back(j.args[i].ref()); j.is_text.push_back(j.args[i].is_text); }
        std::string rest; for(; i < lits.size(); ++i) { rest += lits[i]; if(i + 1 < lits.size()) rest += "{}"; }
        j.need.push_back(rest.size()); j.pieces.push_back(rest); j.is_text.push_back(true);
    }
    for(auto &p : j.pieces) j.full += p;
    static const char *fn[] = {"cat", "catsep", "format"};
    cx.ev("job", fn[j.form], j.tmpl_sink ? "template-sink" : "functor-sink", j.fmt, j.full);
    for(auto &a : j.args) cx.ev("arg", a.is_text ? "text" : kind_name(a.val.kind), a.ref());
    return j;
}
} // namespace
#endif
