// C03: bounded writers never overrun and report a size that lets a retry succeed.
#include "c03.hpp"
#include <functional>
#include <c4/bitmask.hpp>
enum Flags : unsigned { FL_NONE = 0, FL_RD = 1, FL_WR = 2, FL_LONG_NAME = 4, FL_TOP = 0x80000000u, FL_RDWR = 3 };
enum class Scoped : unsigned char { a = 1, bb = 2, top = 128 };
namespace c4 {
template<> EnumSymbols<Flags> const esyms<Flags>() { static const EnumSymbols<Flags>::Sym s[] = {{FL_NONE, "FL_NONE"}, {FL_RD, "FL_RD"}, {FL_WR, "FL_WR"}, {FL_LONG_NAME, "FL_LONG_NAME"}, {FL_TOP, "FL_TOP"}, {FL_RDWR, "FL_RDWR"}}; return EnumSymbols<Flags>(s); }
template<> EnumSymbols<Scoped> const esyms<Scoped>() { static const EnumSymbols<Scoped>::Sym s[] = {{Scoped::a, "Scoped::a"}, {Scoped::bb, "Scoped::bb"}, {Scoped::top, "Scoped::top"}}; return EnumSymbols<Scoped>(s); }
template<> size_t eoffs_pfx<Flags>() { return 3; }
template<> size_t eoffs_cls<Scoped>() { return 8; }
}
using namespace c03;
static sim::Guarded gb;
void sim_init() { gb.init(2); c4err_install(); }

using Writer = std::function<size_t(substr)>;

// one call into a fresh placement of a buffer of the given capacity
static size_t call(Ctx &cx, size_t cap, Writer const& w, std::string *out, char **addr = nullptr) {
    static const char fills[] = {'#', '0', '\0', 'x'};
    char fill = fills[cx.draw(4)]; memset(gb.base, fill, gb.cap());
    char *p; uint32_t place = cx.draw(4);
    switch(place) {
    case 0: p = gb.at_end(cap); break;
    case 1: p = gb.at_begin(); cx.inject("buffer-at-page-start"); break;
    case 2: p = gb.at_begin() + 64 + cx.draw(64); break;
    default: p = cap == 0 ? nullptr : gb.at_end(cap); if(!cap) cx.inject("buffer-null"); break;
    }
    if(addr) *addr = p;
    size_t ret = w(substr(p, cap));
    if(p) {
        for(char *q = gb.base; q < p; ++q) if(*q != fill) cx.fail("out-of-bounds", "byte " + std::to_string(p - q) + " before the buffer was written");
        for(char *q = p + cap, *e = gb.base + gb.cap(); q < e; ++q) if(*q != fill) cx.fail("out-of-bounds", "byte " + std::to_string(q - p - cap) + " past the buffer (capacity " + std::to_string(cap) + ") was written");
        out->assign(p, std::min(cap, ret));
    } else out->clear();
    cx.ev("write", (uint64_t)cap, "->", (uint64_t)ret); cx.sig(cap); cx.sig(ret);
    return ret;
}

static void history(Ctx &cx, std::string const& what, std::string const& ref, bool exact, Writer const& w) {
    cx.ev("writer", what, ref);
    uint32_t n = 1 + cx.draw(5);
    for(uint32_t i = 0; i < n; ++i) {
        size_t cap, len = ref.size();
        switch(cx.draw(6)) {
        case 0: cap = len + 100; break;
        case 1: cap = 0; cx.inject("buffer-empty"); break;
        case 2: cap = len ? len - 1 : 0; cx.inject("buffer-one-short"); break;
        case 3: cap = len; cx.inject("buffer-exact"); break;
        case 4: cap = len + 1; cx.inject("buffer-one-spare"); break;
        default: cap = cx.draw((uint32_t)len + 4); cx.inject("buffer-arbitrary"); break;
        }
        std::string got; size_t ret = call(cx, cap, w, &got);
        auto judge = [&](size_t cap_) {
            if(exact) cx.check(ret == len, "wrong-size", what + ": capacity " + std::to_string(cap_) + " returned " + std::to_string(ret) + ", the text " + sim::quote(ref) + " has " + std::to_string(len));
            if(ret <= cap_) { if(got != ref) cx.fail("wrong-text", what + ": capacity " + std::to_string(cap_) + " gave " + sim::quote(got) + " expected " + sim::quote(ref)); }
            else cx.check(ret < (1u << 20), "absurd-size", what + ": required size " + std::to_string(ret));
        };
        judge(cap);
        if(ret > cap && cx.draw(2)) { // retry with what was asked for
            size_t bound = exact ? 1 : len + 40, k = 0;
            while(ret > cap) { if(k++ >= bound) cx.fail("no-progress", what + ": still too small after " + std::to_string(k) + " retries"); cap = ret; ret = call(cx, cap, w, &got); judge(cap); }
            cx.probe("retried-to-completion"); if(k > 1) cx.probe("several-retries");
        }
    }
}

static Pack draw_pack(Ctx &cx) {
    Pack p; p.form = (int)cx.draw(3); bool reals = cx.chance(1, 4);
    uint32_t n = p.form == 2 ? cx.draw(5) : 1 + cx.draw(4);
    for(uint32_t i = 0; i < n; ++i) { Arg a; if(cx.draw(4) == 0) { a.is_text = true; a.text = draw_text(cx, 30); } else a.val = draw_val(cx, reals, 30); if(!a.is_text && !a.val.exact) p.exact = false; p.args.push_back(a); }
    if(p.form == 0) for(auto &a : p.args) p.ref += a.ref();
    else if(p.form == 1) {
        if(cx.draw(2)) { p.sep.is_text = true; p.sep.text = draw_text(cx, 6); } else p.sep.val = draw_val(cx, false, 6);
        for(uint32_t i = 0; i < n; ++i) { if(i) p.ref += p.sep.ref(); p.ref += p.args[i].ref(); }
    } else {
        uint32_t slots = cx.draw(4) == 0 ? cx.draw(6) : n;
        for(uint32_t i = 0; i <= slots; ++i) {
            std::string l; for(uint32_t k = cx.draw(6); k; --k) l += "ab}x, "[cx.draw(6)];
            p.fmt += l; p.ref += l;
            if(i < slots) { p.fmt += "{}"; if(i < n) p.ref += p.args[i].ref(); else p.ref += "{}"; }
        }
    }
    return p;
}

void sim_run(Ctx &cx) {
    static const uint32_t w[] = {8, 8, 3, 2, 2, 2, 3, 2, 2, 1};
    switch(cx.weighted(w)) {
    case 0: { Val v = draw_val(cx, true, 60); history(cx, kind_name(v.kind), v.ref, v.exact, [&](substr b) { return vals::to_chars(b, v); }); break; }
    case 1: {
        Pack p = draw_pack(cx);
        static const char *nm[] = {"cat", "catsep", "format"};
        history(cx, nm[p.form], p.ref, p.exact, [&](substr b) { return write_pack(p, b); });
        break; }
    case 2: { // _sub forms
        Pack p = draw_pack(cx); size_t cap = cx.draw(3) == 0 ? cx.draw((uint32_t)p.ref.size() + 3) : p.ref.size() + 80; if(cap <= p.ref.size()) cx.inject("buffer-arbitrary");
        std::string got; substr out; bool ok = false; char *addr;
        size_t ret = call(cx, cap, [&](substr b) { ok = write_pack_sub(p, b, &out); return ok ? out.len : cap + 1; }, &got, &addr);
        if(p.exact) cx.check(ok == (p.ref.size() <= cap), "sub-verdict", "a _sub form " + std::string(ok ? "accepted" : "refused") + " a text of " + std::to_string(p.ref.size()) + " in capacity " + std::to_string(cap));
        if(ok) cx.check(got == p.ref && (out.len == 0 || out.str == addr) && ret == p.ref.size(), "wrong-text", "a _sub form returned " + sim::quote(got) + " expected " + sim::quote(p.ref));
        else cx.probe("sub-form-raised-error");
        if(p.args.size() == 1 && !p.args[0].is_text) { // to_chars_sub clamps instead
            Val const& v = p.args[0].val; substr s;
            call(cx, cap, [&](substr b) { s = c4::to_chars_sub(b, v); return s.len; }, &got, &addr);
            cx.check(s.len <= cap && (s.len == 0 || s.str == addr), "sub-range", "to_chars_sub returned a view outside the buffer");
            if(v.ref.size() <= cap && v.exact) cx.check(got == v.ref, "wrong-text", "to_chars_sub gave " + sim::quote(got) + " expected " + sim::quote(v.ref));
        }
        break; }
    case 3: { // low-level writers, non-negative, unprefixed, padded
        int type = (int)cx.draw(8); uint64_t bits = draw_bits(cx, int_bits(type)); if(int_neg(type, bits)) bits = int_mag(type, bits); if(int_neg(type, bits)) bits = 1;
        static const unsigned rx[] = {10, 16, 8, 2}; unsigned radix = rx[cx.draw(4)]; bool padded = cx.draw(2); size_t nd = padded ? cx.skewed(80) : 0;
        std::string ref = ref_int(false, int_mag(type, bits), radix, nd, false);
        history(cx, "write_" + std::to_string(radix), ref, true, [&](substr b) { return with_int(type, bits, [&](auto v) -> size_t {
            if(padded) return radix == 10 ? c4::write_dec(b, v, nd) : radix == 16 ? c4::write_hex(b, v, nd) : radix == 8 ? c4::write_oct(b, v, nd) : c4::write_bin(b, v, nd);
            return radix == 10 ? c4::write_dec(b, v) : radix == 16 ? c4::write_hex(b, v) : radix == 8 ? c4::write_oct(b, v) : c4::write_bin(b, v); }); });
        break; }
    case 4: { // xtoa family
        int type = (int)cx.draw(8); uint64_t bits = draw_bits(cx, int_bits(type));
        static const unsigned rx[] = {10, 16, 8, 2}; unsigned radix = rx[cx.draw(4)]; uint32_t form = cx.draw(3); size_t nd = form == 2 ? cx.skewed(80) : 0;
        if(form == 0) radix = 10;
        std::string ref = ref_int(int_neg(type, bits), int_mag(type, bits), radix, nd);
        history(cx, "xtoa", ref, true, [&](substr b) { return with_int(type, bits, [&](auto v) -> size_t { using T = decltype(v); return form == 0 ? c4::xtoa(b, v) : form == 1 ? c4::xtoa(b, v, (T)radix) : c4::xtoa(b, v, (T)radix, nd); }); });
        break; }
    case 5: { // raw data: alignment padding, then the bytes
        std::string data = draw_text(cx, 60, true); if(data.empty()) data = "q"; size_t al = size_t(1) << cx.draw(6);
        cx.ev("writer", "raw", data, (uint64_t)al);
        size_t cap = cx.draw(3) == 0 ? data.size() + al : cx.draw((uint32_t)(data.size() + al) + 2), ret; if(cap < data.size() + al) cx.inject("buffer-arbitrary"); int k = 0;
        do {
            std::string got; char *addr = nullptr;
            ret = call(cx, cap, [&](substr b) { return c4::to_chars(b, c4::fmt::raw(c4::cblob(data.data(), data.size()), al)); }, &got, &addr);
            if(ret <= cap) { size_t off = ret - data.size();
                cx.check(ret >= data.size() && off < al && ((uintptr_t)(addr + off) % al) == 0 && !memcmp(addr + off, data.data(), data.size()), "wrong-text", "raw data is not at the first aligned position: offset " + std::to_string(off)); break; }
            cx.check(++k < 4, "no-progress", "raw data still does not fit after retries"); cap = ret;
        } while(true);
        if(k) cx.probe("retried-to-completion");
        break; }
    case 6: { // base64 both ways
        std::string data = draw_text(cx, 70, true), enc = ref_base64(data);
        if(cx.draw(2)) history(cx, "base64_encode", enc, true, [&](substr b) { return c4::base64_encode(b, c4::cblob(data.data(), data.size())); });
        else history(cx, "base64_decode", data, true, [&](substr b) { return c4::base64_decode(csubstr(enc.data(), enc.size()), c4::blob(b.str, b.len)); });
        break; }
    case 8: { // bitmask names: size query, then a buffer
        bool sc = cx.draw(2); unsigned m = sc ? (cx.draw(8) & 3) | (cx.draw(2) << 7) : (cx.draw(8)) | (cx.draw(2) << 31);
        c4::EnumOffsetType off = (c4::EnumOffsetType[]){c4::EOFFS_NONE, c4::EOFFS_PFX, c4::EOFFS_CLS}[cx.draw(3)];
        std::string ref; auto add = [&](const char *n, size_t skip) { ref = std::string(n + skip) + (ref.empty() ? "" : "|" + ref); };
        if(sc) { size_t k = off != c4::EOFFS_NONE ? 8 : 0; if(m & 128) add("Scoped::top", k); if(m & 2) add("Scoped::bb", k); if(m & 1) add("Scoped::a", k); if(!m) ref = "0"; }
        else { size_t k = off == c4::EOFFS_PFX ? 3 : 0; if((m & 3) == 3) add("FL_RDWR", k); if(m & 0x80000000u) add("FL_TOP", k); if(m & 4) add("FL_LONG_NAME", k); if((m & 3) == 2) add("FL_WR", k); if((m & 3) == 1) add("FL_RD", k); if(!m) add("FL_NONE", k); }
        cx.ev("writer", "bm2str", ref);
        auto bm = [&](char *p, size_t n) -> size_t { return sc ? (m & 1 ? c4::bm2str<Scoped>((unsigned char)m, p, n, off) : c4::bm2str((Scoped)m, p, n, off)) : c4::bm2str<Flags>(m, p, n, off); };
        size_t need = bm(nullptr, 0);
        cx.check(need == ref.size() + 1, "wrong-size", "bm2str asks for " + std::to_string(need) + " bytes, " + sim::quote(ref) + " and its terminator take " + std::to_string(ref.size() + 1));
        for(uint32_t k = 1 + cx.draw(3); k; --k) {
            size_t cap = cx.draw(3) == 0 ? need : 1 + cx.draw((uint32_t)need + 2); if(cap < need) cx.inject("buffer-arbitrary"); else if(cap == need) cx.inject("buffer-exact");
            std::string got; size_t n = 0; bool err = false;
            call(cx, cap, [&](substr b) { err = c4err_raised([&] { n = bm(b.str, b.len); }); return err ? size_t(0) : n; }, &got);
            cx.check(err == (cap < need), "bm2str-verdict", "bm2str " + std::string(err ? "refused" : "accepted") + " a buffer of " + std::to_string(cap) + ", needing " + std::to_string(need));
            if(!err) cx.check(n == need && got == ref + std::string(1, '\0'), "wrong-text", "bm2str gave " + sim::quote(got) + " expected " + sim::quote(ref)); else cx.probe("bm2str-raised-error");
        }
        break; }
    case 9: { // widths no buffer can hold: the size asked for is still exact, and nothing is written outside
        static const size_t big[] = {size_t(1) << 20, (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 33, size_t(1) << 62};
        size_t width = big[cx.draw(8)] + cx.draw(12), cap = cx.draw(40); int type = (int)cx.draw(8); uint64_t bits = draw_bits(cx, int_bits(type)); uint32_t form = cx.draw(4);
        static const unsigned rx[] = {10, 16, 8, 2}; unsigned radix = rx[cx.draw(4)]; bool neg = int_neg(type, bits); cx.inject("padding-beyond-any-buffer");
        size_t want = form >= 2 ? width : width + (radix != 10 ? 2 : 0) + neg;
        if(form >= 2) neg = false;
        cx.ev("writer", "huge-padding", (uint64_t)width, (uint64_t)form, (uint64_t)radix);
        std::string got; size_t ret = call(cx, cap, [&](substr b) { return with_int(type, bits, [&](auto v) -> size_t { using T = decltype(v);
            switch(form) {
            case 0: return c4::xtoa(b, v, (T)radix, width);
            case 1: return c4::to_chars(b, c4::fmt::zpad(c4::fmt::integral(v, (T)radix), width));
            case 2: return c4::to_chars(b, c4::fmt::left(v, width));
            default: return c4::to_chars(b, c4::fmt::right(v, width, '.')); } }); }, &got);
        // the most negative value of a signed type may ask for a little more
        bool lowest = neg && int_mag(type, bits) == (uint64_t(1) << (int_bits(type) - 1));
        cx.check(lowest ? ret >= want && ret <= want + 3 : ret == want, "wrong-size", "width " + std::to_string(width) + " in capacity " + std::to_string(cap) + " returned " + std::to_string(ret) + ", needed are " + std::to_string(want));
        break; }
    default: { // replace_all
        std::string s, pat, rep; for(uint32_t k = cx.skewed(40); k; --k) s += "aab"[cx.draw(3)]; for(uint32_t k = 1 + cx.draw(3); k; --k) pat += "ab"[cx.draw(2)]; for(uint32_t k = cx.draw(5); k; --k) rep += "xyab"[cx.draw(4)];
        size_t pos = cx.draw(3) ? 0 : cx.draw((uint32_t)s.size() + 1);
        std::string ref = s.substr(0, pos); size_t b = pos; while(true) { size_t e = s.find(pat, b); if(e == std::string::npos || b >= s.size()) { ref += s.substr(std::min(b, s.size())); break; } ref += s.substr(b, e - b) + rep; b = e + pat.size(); }
        history(cx, "replace_all", ref, true, [&](substr d) { return csubstr(s.data(), s.size()).replace_all(d, csubstr(pat.data(), pat.size()), csubstr(rep.data(), rep.size()), pos); });
        break; }
    }
}
