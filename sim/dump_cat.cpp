#include "dumpsim.hpp"
namespace dumpsim {
DumpResults resume_cat(Job const& j, DumpResults r, bool fresh, substr buf) {
    SinkFunctor fn{&g_sink}; DumpResults out = r;
    expand<5>(j.args, 0, [&](auto const&... a) {
        if constexpr (sizeof...(a) > 0) {
            if(j.tmpl_sink) out = fresh ? c4::cat_dump_resume<&sink_fn>(buf, a...) : c4::cat_dump_resume<&sink_fn>(r, buf, a...);
            else out = fresh ? c4::cat_dump_resume(fn, buf, a...) : c4::cat_dump_resume(fn, r, buf, a...);
        }
    });
    return out;
}
size_t oneshot_cat(Job const& j, substr buf) {
    SinkFunctor fn{&g_sink}; size_t out = 0;
    expand<5>(j.args, 0, [&](auto const&... a) {
        if constexpr (sizeof...(a) > 0) out = j.tmpl_sink ? c4::cat_dump<&sink_fn>(buf, a...) : c4::cat_dump(fn, buf, a...);
    });
    return out;
}
}
