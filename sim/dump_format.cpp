#include "dumpsim.hpp"
namespace dumpsim {
DumpResults resume_format(Job const& j, DumpResults r, bool fresh, substr buf) {
    SinkFunctor fn{&g_sink}; DumpResults out = r; csubstr f(j.fmt.data(), j.fmt.size());
    expand<5>(j.args, 0, [&](auto const&... a) {
        if(j.tmpl_sink) out = fresh ? c4::format_dump_resume<&sink_fn>(buf, f, a...) : c4::format_dump_resume<&sink_fn>(r, buf, f, a...);
        else out = fresh ? c4::format_dump_resume(fn, buf, f, a...) : c4::format_dump_resume(fn, r, buf, f, a...);
    });
    return out;
}
size_t oneshot_format(Job const& j, substr buf) {
    SinkFunctor fn{&g_sink}; size_t out = 0; csubstr f(j.fmt.data(), j.fmt.size());
    expand<5>(j.args, 0, [&](auto const&... a) { out = j.tmpl_sink ? c4::format_dump<&sink_fn>(buf, f, a...) : c4::format_dump(fn, buf, f, a...); });
    return out;
}
}
