#include "c04.hpp"
namespace c04 {
template<class C> void assign(C *c, C &&v) { *c = std::move(v); }
inline void assign(SimCont *c, SimCont &&v) { std::swap(c->p, v.p); std::swap(c->n, v.n); c->resizes += v.resizes; v.resizes = 0; }
template<class C> void run_pack(Pack const& p, int mode, C *c, csubstr *view) {
    csubstr f(p.fmt.data(), p.fmt.size());
    switch(p.form) {
    case 0: expand<3>(p.args, 0, [&](auto const&... a) { if constexpr (sizeof...(a) > 0) {
        Window w; if(mode == mOver) c4::catrs(c, a...); else if(mode == mAppend) *view = c4::catrs_append(c, a...); else assign(c, c4::catrs<C>(a...)); } }); break;
    case 1: {
        auto go = [&](auto const& sep) { expand<3>(p.args, 0, [&](auto const&... a) { if constexpr (sizeof...(a) > 0) {
            Window w; if(mode == mOver) c4::catseprs(c, sep, a...); else if(mode == mAppend) *view = c4::catseprs_append(c, sep, a...); else assign(c, c4::catseprs<C>(sep, a...)); } }); };
        if(p.sep.is_text) go(p.sep.view()); else go(p.sep.val);
        break; }
    default: expand<3>(p.args, 0, [&](auto const&... a) {
        Window w; if(mode == mOver) c4::formatrs(c, f, a...); else if(mode == mAppend) *view = c4::formatrs_append(c, f, a...); else assign(c, c4::formatrs<C>(f, a...)); });
    }
}
#ifdef C04_STR
template void run_pack<std::string>(Pack const&, int, std::string*, csubstr*);
#elif defined(C04_VEC)
template void run_pack<std::vector<char>>(Pack const&, int, std::vector<char>*, csubstr*);
#else
template void run_pack<SimCont>(Pack const&, int, SimCont*, csubstr*);
#endif
}
