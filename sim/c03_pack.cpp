#include "c03.hpp"
namespace c03 {
template<class W> static void dispatch(Pack const& p, W &&w) {
    csubstr f(p.fmt.data(), p.fmt.size());
    switch(p.form) {
    case 0: expand<4>(p.args, 0, [&](auto const&... a) { if constexpr (sizeof...(a) > 0) w.cat(a...); }); break;
    case 1:
        if(p.sep.is_text) expand<4>(p.args, 0, [&](auto const&... a) { if constexpr (sizeof...(a) > 0) w.catsep(p.sep.view(), a...); });
        else expand<4>(p.args, 0, [&](auto const&... a) { if constexpr (sizeof...(a) > 0) w.catsep(p.sep.val, a...); });
        break;
    default: expand<4>(p.args, 0, [&](auto const&... a) { w.format(f, a...); });
    }
}
struct Size {
    substr buf; size_t n = 0;
    template<class... A> void cat(A const&... a) { n = c4::cat(buf, a...); }
    template<class S, class... A> void catsep(S const& s, A const&... a) { n = c4::catsep(buf, s, a...); }
    template<class... A> void format(csubstr f, A const&... a) { n = c4::format(buf, f, a...); }
};
struct Sub {
    substr buf, out;
    template<class... A> void cat(A const&... a) { out = c4::cat_sub(buf, a...); }
    template<class S, class... A> void catsep(S const& s, A const&... a) { out = c4::catsep_sub(buf, s, a...); }
    template<class... A> void format(csubstr f, A const&... a) { out = c4::format_sub(buf, f, a...); }
};
size_t write_pack(Pack const& p, substr buf) { Size w; w.buf = buf; dispatch(p, w); return w.n; }
bool write_pack_sub(Pack const& p, substr buf, substr *out) { Sub w; w.buf = buf; bool err = c4err_raised([&] { dispatch(p, w); }); *out = w.out; return !err; }
}
