// Values to serialise: each carries the reference text, built without c4core.
#ifndef VALS_HPP_
#define VALS_HPP_
#include "sim.hpp"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/base64.hpp>
#include <c4/std/string.hpp>
#include <c4/std/vector.hpp>
#include <c4/std/string_view.hpp>
#include <charconv>
#include <cmath>
#include <limits>

namespace vals {
using sim::Ctx;
using c4::substr; using c4::csubstr;

inline std::string ref_digits(uint64_t v, unsigned radix) { char b[72]; int n = 0; do { b[n++] = "0123456789abcdef"[v % radix]; v /= radix; } while(v); return std::string(std::reverse_iterator<char*>(b + n), std::reverse_iterator<char*>(b)); }
// text of an integer: sign, radix prefix, zero padding to num_digits
inline std::string ref_int(bool neg, uint64_t mag, unsigned radix, size_t num_digits, bool prefix = true) {
    std::string d = ref_digits(mag, radix);
    if(d.size() < num_digits) d.insert(0, num_digits - d.size(), '0');
    return std::string(neg ? "-" : "") + (prefix ? (radix == 16 ? "0x" : radix == 8 ? "0o" : radix == 2 ? "0b" : "") : "") + d;
}
inline std::string ref_base64(std::string const& s) {
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o; size_t i = 0;
    for(; i + 3 <= s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2]; o += al[v >> 18]; o += al[(v >> 12) & 63]; o += al[(v >> 6) & 63]; o += al[v & 63]; }
    if(s.size() - i == 1) { uint32_t v = (uint8_t)s[i] << 16; o += al[v >> 18]; o += al[(v >> 12) & 63]; o += "=="; }
    else if(s.size() - i == 2) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8; o += al[v >> 18]; o += al[(v >> 12) & 63]; o += al[(v >> 6) & 63]; o += '='; }
    return o;
}
#ifdef SIM_SNPRINTF
template<class T> std::string ref_real(T v, int prec, int f) {
    char b[1600], fm[] = {'%', '.', '*', "gfea"[f], 0}, fn[] = {'%', "gfea"[f], 0};
    int n = prec < 0 ? snprintf(b, sizeof b, fn, (double)v) : snprintf(b, sizeof b, fm, prec, (double)v);
    return std::string(b, (size_t)n);
}
#else
template<class T> std::string ref_real(T v, int prec, int f) { // f: 0 flex 1 float 2 scient 3 hexa
    char b[1600]; std::chars_format cf = f == 0 ? std::chars_format::general : f == 1 ? std::chars_format::fixed : f == 2 ? std::chars_format::scientific : std::chars_format::hex;
    T a = f == 3 ? (T)std::fabs(v) : v;
    std::to_chars_result r = prec < 0 ? std::to_chars(b, b + sizeof b, a, cf) : std::to_chars(b, b + sizeof b, a, cf, prec);
    std::string s(b, r.ptr);
    if(f == 3) s = std::string(std::signbit(v) ? "-" : "") + "0x" + s;
    return s;
}
#endif
inline c4::RealFormat_e realfmt(int f) { return f == 0 ? c4::FTOA_FLEX : f == 1 ? c4::FTOA_FLOAT : f == 2 ? c4::FTOA_SCIENT : c4::FTOA_HEXA; }

// interesting 64-bit patterns
inline uint64_t draw_bits(Ctx &cx, unsigned bits) {
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    switch(cx.draw(7)) {
    case 0: return cx.draw(10);
    case 1: return (uint64_t(1) << cx.draw(bits)) & mask;
    case 2: return ((uint64_t(1) << cx.draw(bits)) - 1) & mask;
    case 3: { uint64_t p = 1; for(uint32_t k = cx.draw(20); k; --k) p *= 10; return (p - cx.draw(2)) & mask; }
    case 4: return (0 - (uint64_t)cx.draw(130)) & mask;
    case 5: { uint64_t r = cx.draw64(); return (r >> cx.draw(64)) & mask; }
    default: return (uint64_t(1) << (bits - 1)) - 1 + cx.draw(3);
    }
}
inline double draw_double(Ctx &cx) {
    static const double t[] = {0., -0., 1., -1., 0.5, 3.25, 1e22, 1e-7, 123456789.125, 1e308, 2.2250738585072014e-308, 5e-324, 0.1, 1.0/3, 1e16, -1e100, 9.999999999999999e22};
    switch(cx.draw(6)) {
    case 0: return t[cx.draw(sizeof t / sizeof *t)];
    case 1: return (double)(int)cx.draw(2000) - 1000;
    case 2: return ((double)(int)cx.draw(2000000) - 1000000) / 1000.;
    case 3: return std::ldexp((double)cx.draw(1u << 20), (int)cx.draw(120) - 60);
    case 4: { static const double sp[] = {INFINITY, -INFINITY, NAN}; return sp[cx.draw(3)]; }
    default: { uint64_t b = cx.draw64(); double d; memcpy(&d, &b, 8); return d; }
    }
}
inline std::string draw_text(Ctx &cx, uint32_t maxlen, bool any_byte = false) {
    uint32_t n = cx.skewed(maxlen); std::string s; s.reserve(n);
    uint32_t style = cx.draw(3);
    for(uint32_t i = 0; i < n; ++i) {
        if(any_byte && style == 2) s += (char)cx.draw(256);
        else if(style == 1) s += "0123456789abcdefxyzABC .,-+eEpP_{}"[cx.draw(34)];
        else s += (char)('a' + (i % 26));
    }
    return s;
}

enum Kind { kInt, kRadix, kZpad, kBool, kBoolAlpha, kChar, kStr, kStdStr, kSview, kVec, kReal, kFloat, kPtr, kLeft, kRight, kB64, kRaw1, kUser, kLLInt, kRealDef, kCstr, kSubstr, kPtrFmt, kXtoa, kNumKinds };
inline const char *kind_name(int k) { static const char *n[] = {"int", "radix", "zpad", "bool", "boolalpha", "char", "csubstr", "std::string", "string_view", "vector", "real", "float", "ptr", "left", "right", "base64", "raw", "user", "longlong", "double", "cstr", "substr", "ptr-fmt", "xtoa-real"}; return n[k]; }

struct Val {
    int kind = kInt; int type = 0; // type: index into the 8 fixed integer types
    uint64_t bits = 0; unsigned radix = 10; size_t width = 0; char pad = ' '; int inner = 0;
    int prec = -1, rfmt = 0; double d = 0; size_t inner_need = 0;
    std::string s; std::vector<char> v;
    std::string ref; // the complete text
    bool exact = true; // too-small buffers report exactly ref.size()
};

template<class F> size_t with_int(int type, uint64_t bits, F &&f) {
    switch(type) {
    case 0: return f((int8_t)bits);
    case 1: return f((uint8_t)bits);
    case 2: return f((int16_t)bits);
    case 3: return f((uint16_t)bits);
    case 4: return f((int32_t)bits);
    case 5: return f((uint32_t)bits);
    case 6: return f((int64_t)bits);
    default: return f((uint64_t)bits);
    }
}
inline bool int_neg(int type, uint64_t bits) { switch(type) { case 0: return (int8_t)bits < 0; case 2: return (int16_t)bits < 0; case 4: return (int32_t)bits < 0; case 6: return (int64_t)bits < 0; } return false; }
inline uint64_t int_mag(int type, uint64_t bits) {
    static const unsigned w[] = {8, 8, 16, 16, 32, 32, 64, 64}; uint64_t m = w[type] == 64 ? ~0ull : (1ull << w[type]) - 1;
    return int_neg(type, bits) ? ((0 - bits) & m) : (bits & m);
}
inline unsigned int_bits(int type) { static const unsigned w[] = {8, 8, 16, 16, 32, 32, 64, 64}; return w[type]; }

// a user-defined type, as clients define them
struct User { std::string const& s; };
inline size_t to_chars(substr buf, User const& u) { size_t n = u.s.size(); if(n <= buf.len && n) memcpy(buf.str, u.s.data(), n); return n; }

inline size_t to_chars(substr buf, Val const& x);

inline size_t write_inner(substr buf, Val const& x, bool left) {
    using namespace c4;
    switch(x.inner) {
    case 0: return left ? c4::to_chars(buf, fmt::left((int64_t)x.bits, x.width, x.pad)) : c4::to_chars(buf, fmt::right((int64_t)x.bits, x.width, x.pad));
    case 1: { csubstr s(x.s.data(), x.s.size()); return left ? c4::to_chars(buf, fmt::left(s, x.width, x.pad)) : c4::to_chars(buf, fmt::right(s, x.width, x.pad)); }
    case 2: return left ? c4::to_chars(buf, fmt::left(fmt::hex((uint32_t)x.bits), x.width, x.pad)) : c4::to_chars(buf, fmt::right(fmt::hex((uint32_t)x.bits), x.width, x.pad));
    case 4: return left ? c4::to_chars(buf, fmt::left(x.d, x.width, x.pad)) : c4::to_chars(buf, fmt::right(x.d, x.width, x.pad));
    case 5: return left ? c4::to_chars(buf, fmt::left(fmt::zpad((int32_t)x.bits, x.prec), x.width, x.pad)) : c4::to_chars(buf, fmt::right(fmt::zpad((int32_t)x.bits, x.prec), x.width, x.pad));
    case 6: return left ? c4::to_chars(buf, fmt::left(fmt::right(csubstr(x.s.data(), x.s.size()), x.prec, '.'), x.width, x.pad)) : c4::to_chars(buf, fmt::right(fmt::left(csubstr(x.s.data(), x.s.size()), x.prec, '.'), x.width, x.pad));
    default: return left ? c4::to_chars(buf, fmt::left((char)x.bits, x.width, x.pad)) : c4::to_chars(buf, fmt::right((char)x.bits, x.width, x.pad));
    }
}

inline size_t to_chars(substr buf, Val const& x) {
    using namespace c4;
    switch(x.kind) {
    case kInt: return with_int(x.type, x.bits, [&](auto v) { return c4::to_chars(buf, v); });
    case kRadix: return with_int(x.type, x.bits, [&](auto v) { return x.radix == 16 ? c4::to_chars(buf, fmt::hex(v)) : x.radix == 8 ? c4::to_chars(buf, fmt::oct(v)) : x.radix == 2 ? c4::to_chars(buf, fmt::bin(v)) : c4::to_chars(buf, fmt::integral(v)); });
    case kZpad: return with_int(x.type, x.bits, [&](auto v) { return x.radix == 16 ? c4::to_chars(buf, fmt::zpad(fmt::hex(v), x.width)) : x.radix == 8 ? c4::to_chars(buf, fmt::zpad(fmt::oct(v), x.width)) : x.radix == 2 ? c4::to_chars(buf, fmt::zpad(fmt::bin(v), x.width)) : c4::to_chars(buf, fmt::zpad(v, x.width)); });
    case kBool: return c4::to_chars(buf, x.bits != 0);
    case kBoolAlpha: return c4::to_chars(buf, fmt::boolalpha(x.bits));
    case kChar: return c4::to_chars(buf, (char)x.bits);
    case kStr: return c4::to_chars(buf, csubstr(x.s.data(), x.s.size()));
    case kStdStr: return c4::to_chars(buf, x.s);
    case kSview: return c4::to_chars(buf, std::string_view(x.s));
    case kVec: return c4::to_chars(buf, x.v);
    case kReal: return c4::to_chars(buf, fmt::real(x.d, x.prec, realfmt(x.rfmt)));
    case kFloat: return c4::to_chars(buf, fmt::real((float)x.d, x.prec, realfmt(x.rfmt)));
    case kRealDef: return x.type & 1 ? c4::to_chars(buf, (float)x.d) : c4::to_chars(buf, x.d);
    case kPtr: return c4::to_chars(buf, (void*)(uintptr_t)x.bits);
    case kCstr: return c4::to_chars(buf, x.s.c_str());
    case kSubstr: return c4::to_chars(buf, substr(const_cast<char*>(x.s.data()), x.s.size()));
    case kPtrFmt: { // pointers, to const or not, and null, with a specifier
        uintptr_t u = (uintptr_t)x.bits; int *p = (int*)u; int const *cp = p; bool z = u == 0;
        switch(x.inner) {
        case 0: return z ? c4::to_chars(buf, fmt::hex(nullptr)) : x.type ? c4::to_chars(buf, fmt::hex(cp)) : c4::to_chars(buf, fmt::hex(p));
        case 1: return z ? c4::to_chars(buf, fmt::oct(nullptr)) : x.type ? c4::to_chars(buf, fmt::oct(cp)) : c4::to_chars(buf, fmt::oct(p));
        case 2: return z ? c4::to_chars(buf, fmt::bin(nullptr)) : x.type ? c4::to_chars(buf, fmt::bin(cp)) : c4::to_chars(buf, fmt::bin(p));
        case 3: return z ? c4::to_chars(buf, fmt::zpad(nullptr, x.width)) : x.type ? c4::to_chars(buf, fmt::zpad(cp, x.width)) : c4::to_chars(buf, fmt::zpad(p, x.width));
        default: return c4::to_chars(buf, fmt::integral(cp, (int)x.radix)); } }
    case kXtoa: return x.type & 1 ? (x.prec < 0 && x.rfmt == 0 ? c4::xtoa(buf, (float)x.d) : c4::xtoa(buf, (float)x.d, x.prec, realfmt(x.rfmt))) : (x.prec < 0 && x.rfmt == 0 ? c4::xtoa(buf, x.d) : c4::xtoa(buf, x.d, x.prec, realfmt(x.rfmt)));
    case kLeft: return write_inner(buf, x, true);
    case kRight: return write_inner(buf, x, false);
    case kB64: switch(x.inner) {
        case 1: return c4::to_chars(buf, fmt::cbase64(csubstr(x.s.data(), x.s.size())));
        case 2: return c4::to_chars(buf, fmt::cbase64(x.s.data(), x.s.size()));
        case 3: { uint32_t const u = (uint32_t)x.bits; return c4::to_chars(buf, fmt::cbase64(u)); }
        case 4: { uint64_t const u = x.bits; return c4::to_chars(buf, fmt::base64(u)); }
        default: return c4::to_chars(buf, fmt::base64(csubstr(x.s.data(), x.s.size()))); }
    case kRaw1: switch(x.inner) {
        case 1: return c4::to_chars(buf, fmt::craw(cblob(x.s.data(), x.s.size()), 1));
        case 2: { uint32_t const u = (uint32_t)x.bits; return c4::to_chars(buf, fmt::craw(u, 1)); }
        case 3: { uint64_t const u = x.bits; return c4::to_chars(buf, fmt::raw(u, 1)); }
        default: return c4::to_chars(buf, fmt::raw(cblob(x.s.data(), x.s.size()), 1)); }
    case kUser: return to_chars(buf, User{x.s});
    case kLLInt: return x.type & 1 ? c4::to_chars(buf, (unsigned long long)x.bits) : c4::to_chars(buf, (long long)x.bits);
    }
    return 0;
}

// reals in a container of fixed growth need many retries: maxreal=false leaves them out
inline Val draw_val(Ctx &cx, bool reals = true, uint32_t maxtext = 40) {
    static const uint32_t w[kNumKinds]  = {12, 6, 6, 1, 2, 2, 6, 2, 2, 2, 3, 2, 2, 4, 4, 3, 2, 2, 2, 2, 2, 1, 3, 1};
    static const uint32_t w0[kNumKinds] = {12, 6, 6, 1, 2, 2, 6, 2, 2, 2, 0, 0, 2, 4, 4, 3, 0, 2, 2, 0, 2, 1, 3, 0};
    Val x; x.kind = (int)(reals ? cx.weighted(w) : cx.weighted(w0));
    static const unsigned radices[] = {10, 16, 8, 2};
    switch(x.kind) {
    case kInt: x.type = (int)cx.draw(8); x.bits = draw_bits(cx, int_bits(x.type)); x.ref = ref_int(int_neg(x.type, x.bits), int_mag(x.type, x.bits), 10, 0); break;
    case kRadix: x.type = (int)cx.draw(8); x.bits = draw_bits(cx, int_bits(x.type)); x.radix = radices[cx.draw(4)]; x.ref = ref_int(int_neg(x.type, x.bits), int_mag(x.type, x.bits), x.radix, 0); break;
    case kZpad: x.type = (int)cx.draw(8); x.bits = draw_bits(cx, int_bits(x.type)); x.radix = radices[cx.draw(4)]; x.width = cx.skewed(80); x.ref = ref_int(int_neg(x.type, x.bits), int_mag(x.type, x.bits), x.radix, x.width); break;
    case kBool: x.bits = cx.draw(2); x.ref = x.bits ? "1" : "0"; break;
    case kBoolAlpha: x.bits = cx.draw(2); x.ref = x.bits ? "true" : "false"; break;
    case kChar: x.bits = cx.draw(256); x.ref = std::string(1, (char)x.bits); break;
    case kStr: case kStdStr: case kSview: case kUser: case kCstr: case kSubstr: x.s = draw_text(cx, maxtext); x.ref = x.s; break;
    case kVec: x.s = draw_text(cx, maxtext); x.v.assign(x.s.begin(), x.s.end()); x.ref = x.s; break;
    case kReal: case kFloat: x.d = draw_double(cx); x.rfmt = (int)cx.draw(4); x.prec = (int)cx.draw(22) - 1; x.exact = false; if(x.rfmt == 1 && std::fabs(x.d) > 1e40) x.rfmt = 2; x.ref = x.kind == kReal ? ref_real(x.d, x.prec, x.rfmt) : ref_real((float)x.d, x.prec, x.rfmt); break;
    case kRealDef: x.d = draw_double(cx); x.type = (int)cx.draw(2); x.exact = false; x.ref = x.type & 1 ? ref_real((float)x.d, -1, 0) : ref_real(x.d, -1, 0); break;
    case kPtrFmt: { x.bits = draw_bits(cx, 47); x.type = (int)cx.draw(2); x.inner = (int)cx.draw(5); x.width = x.inner == 3 ? cx.skewed(80) : 0;
        static const unsigned ix[] = {16, 8, 2, 16, 0}; x.radix = x.inner == 4 ? radices[cx.draw(4)] : ix[x.inner]; x.ref = ref_int(false, x.bits, x.radix, x.width); break; }
    case kXtoa: x.d = draw_double(cx); x.type = (int)cx.draw(2); x.rfmt = (int)cx.draw(4); x.prec = (int)cx.draw(22) - 1; x.exact = false; if(x.rfmt == 1 && std::fabs(x.d) > 1e40) x.rfmt = 2; x.ref = x.type & 1 ? ref_real((float)x.d, x.prec, x.rfmt) : ref_real(x.d, x.prec, x.rfmt); break;
    case kPtr: x.bits = draw_bits(cx, 47); x.ref = ref_int(false, x.bits, 16, 0); break;
    case kLeft: case kRight: {
        x.inner = (int)cx.draw(reals ? 7 : 6); if(!reals && x.inner >= 4) ++x.inner; x.width = cx.skewed(80); x.pad = " *0"[cx.draw(3)]; std::string in;
        if(x.inner == 0) { x.bits = draw_bits(cx, 64); in = ref_int(int_neg(6, x.bits), int_mag(6, x.bits), 10, 0); }
        else if(x.inner == 1) { x.s = draw_text(cx, maxtext); in = x.s; }
        else if(x.inner == 2) { x.bits = draw_bits(cx, 32); in = ref_int(false, x.bits & 0xffffffffu, 16, 0); }
        else if(x.inner == 4) { x.d = draw_double(cx); in = ref_real(x.d, -1, 0); x.exact = false; x.inner_need = in.size() + 1; }
        else if(x.inner == 5) { x.bits = draw_bits(cx, 32); x.prec = (int)cx.skewed(40); in = ref_int(int_neg(4, x.bits), int_mag(4, x.bits), 10, (size_t)x.prec); }
        else if(x.inner == 6) { x.s = draw_text(cx, maxtext); x.prec = (int)cx.skewed(60); std::string q(x.s.size() < (size_t)x.prec ? (size_t)x.prec - x.s.size() : 0, '.'); in = x.kind == kLeft ? q + x.s : x.s + q; }
        else { x.bits = 'a' + cx.draw(26); in = std::string(1, (char)x.bits); }
        std::string p(in.size() < x.width ? x.width - in.size() : 0, x.pad);
        x.ref = x.kind == kLeft ? in + p : p + in; break; }
    case kB64: x.inner = (int)cx.draw(5); if(x.inner >= 3) { x.bits = draw_bits(cx, 64); x.s.assign((char*)&x.bits, x.inner == 3 ? 4 : 8); } else x.s = draw_text(cx, maxtext, true); x.ref = ref_base64(x.s); break;
    case kRaw1: x.inner = (int)cx.draw(4); if(x.inner >= 2) { x.bits = draw_bits(cx, 64); x.s.assign((char*)&x.bits, x.inner == 2 ? 4 : 8); } else x.s = draw_text(cx, maxtext, true); x.ref = x.s; x.exact = false; break;
    case kLLInt: x.type = (int)cx.draw(2); x.bits = draw_bits(cx, 64); x.ref = x.type & 1 ? ref_int(false, x.bits, 10, 0) : ref_int((int64_t)x.bits < 0, int_mag(6, x.bits), 10, 0); break;
    }
    return x;
}
// a value whose text has exactly n characters (n>=1): lets a run hit size boundaries
inline Val val_of_size(Ctx &cx, size_t n) { Val x; x.kind = kUser; x.s.assign(n, (char)('A' + cx.draw(26))); x.ref = x.s; return x; }

// ---- argument packs: runtime list -> static pack
struct Arg { bool is_text = false; Val val; std::string text; std::string const& ref() const { return is_text ? text : val.ref; }
    size_t need() const { // the capacity from which on it is written; snprintf() wants one more, for a terminator
#ifdef SIM_SNPRINTF
        if(!is_text && (val.kind == kReal || val.kind == kFloat || val.kind == kRealDef || val.kind == kXtoa)) return val.ref.size() + 1;
        if(!is_text && val.inner_need > val.ref.size()) return val.inner_need;
#endif
        return ref().size(); }
    csubstr view() const { return csubstr(text.data(), text.size()); } };

template<size_t MaxN, class F, class... B>
void expand(std::vector<Arg> const& a, size_t i, F &&f, B const&... b) {
    if(i == a.size()) { f(b...); return; }
    if constexpr (sizeof...(B) < MaxN) {
        if(a[i].is_text) expand<MaxN>(a, i + 1, f, b..., a[i].view());
        else expand<MaxN>(a, i + 1, f, b..., a[i].val);
    }
}
} // namespace vals
#endif
