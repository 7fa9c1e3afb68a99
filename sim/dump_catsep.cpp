#include "dumpsim.hpp"
namespace dumpsim {
template<class Sep> static DumpResults go(Job const& j, Sep const& sep, DumpResults r, bool fresh, substr buf) {
    SinkFunctor fn{&g_sink}; DumpResults out = r;
    expand<4>(j.args, 0, [&](auto const&... a) {
        if constexpr (sizeof...(a) > 0) {
            if(j.tmpl_sink) out = fresh ? c4::catsep_dump_resume<&sink_fn>(buf, sep, a...) : c4::catsep_dump_resume<&sink_fn>(r, buf, sep, a...);
            else out = fresh ? c4::catsep_dump_resume(fn, buf, sep, a...) : c4::catsep_dump_resume(fn, r, buf, sep, a...);
        }
    });
    return out;
}
template<class Sep> static size_t go1(Job const& j, Sep const& sep, substr buf) {
    SinkFunctor fn{&g_sink}; size_t out = 0;
    expand<4>(j.args, 0, [&](auto const&... a) {
        if constexpr (sizeof...(a) > 0) out = j.tmpl_sink ? c4::catsep_dump<&sink_fn>(buf, sep, a...) : c4::catsep_dump(fn, buf, sep, a...);
    });
    return out;
}
DumpResults resume_catsep(Job const& j, DumpResults r, bool fresh, substr buf) {
    if(j.sepkind == sText) return go(j, j.sep.view(), r, fresh, buf);
    if(j.sepkind == sVal) return go(j, j.sep.val, r, fresh, buf);
    return go(j, ", ", r, fresh, buf);
}
size_t oneshot_catsep(Job const& j, substr buf) {
    if(j.sepkind == sText) return go1(j, j.sep.view(), buf);
    if(j.sepkind == sVal) return go1(j, j.sep.val, buf);
    return go1(j, ", ", buf);
}
}
