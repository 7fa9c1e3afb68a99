// C15: readers of torn or truncated text stay inside the view and stay truthful.
// A record is written, copies of it are damaged (cut, lost, flipped, garbage),
// every damaged copy is read into destinations that still hold what earlier
// attempts left, from several placements; the intact record is read last.
#include "vals.hpp"
#include "c4err.hpp"
#include <c4/utf.hpp>
#include <c4/bitmask.hpp>
#include <c4/std/vector.hpp>
#include <functional>
using namespace vals;
enum Plain : unsigned { P_NONE = 0, P_AB = 1, P_A = 2, P_ABC = 4, P_B = 8, P_A_AB = 3, P_ALL = 15 };
enum class Scoped : uint8_t { S_AB = 1, S_A = 2, S_z_Z = 4, S_LONGNAME = 64, S_LONG = 128, S_A_LONG = 130 };
namespace c4 {
template<> EnumSymbols<Plain> const esyms<Plain>() { static const EnumSymbols<Plain>::Sym s[] = {{P_NONE, "P_NONE"}, {P_AB, "P_AB"}, {P_A, "P_A"}, {P_ABC, "P_ABC"}, {P_B, "P_B"}, {P_A_AB, "P_A_AB"}, {P_ALL, "P_ALL"}}; return EnumSymbols<Plain>(s); }
template<> size_t eoffs_pfx<Plain>() { return 2; }
template<> EnumSymbols<Scoped> const esyms<Scoped>() { static const EnumSymbols<Scoped>::Sym s[] = {{Scoped::S_AB, "Scoped::S_AB"}, {Scoped::S_A, "Scoped::S_A"}, {Scoped::S_z_Z, "Scoped::S_z_Z"}, {Scoped::S_LONGNAME, "Scoped::S_LONGNAME"}, {Scoped::S_LONG, "Scoped::S_LONG"}, {Scoped::S_A_LONG, "Scoped::S_A_LONG"}}; return EnumSymbols<Scoped>(s); }
template<> size_t eoffs_cls<Scoped>() { return 8; }
template<> size_t eoffs_pfx<Scoped>() { return 10; }
} // namespace c4
static sim::Guarded g, gd, gr;
void sim_init() { g.init(2); gd.init(2); gr.init(1); c4err_install(); }
static const size_t npos = csubstr::npos;

// ---------------------------------------------------------------- reference models
static bool is_ws(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static bool is_delim(char c) { return is_ws(c) || c == ']' || c == ')' || c == '}' || c == ',' || c == ';' || c == '\0'; }
struct Num { bool ok = false; bool neg = false; unsigned radix = 10; std::string digits; size_t end = 0; }; // end: consumed from the start of the text
static int digit_of(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
// a number starting at s[i]; stops at the first non-digit
static Num scan_int(std::string const& s, size_t i, bool sgn) {
    Num n;
    if(i < s.size() && s[i] == '-') { if(!sgn) return n; n.neg = true; ++i; }
    if(i + 2 < s.size() && s[i] == '0') {
        char p = s[i + 1] | 32; unsigned r = p == 'x' ? 16 : p == 'b' ? 2 : p == 'o' ? 8 : 0;
        if(r && (unsigned)digit_of(s[i + 2]) < r) { n.radix = r; i += 2; }
    }
    while(i < s.size() && (unsigned)digit_of(s[i]) < n.radix) n.digits += s[i++];
    n.end = i; n.ok = !n.digits.empty();
    return n;
}
static uint64_t mod64(Num const& n) { uint64_t v = 0; for(char c : n.digits) v = v * n.radix + (unsigned)digit_of(c); return n.neg ? 0 - v : v; }
static bool in_range(Num const& n, bool sgn, unsigned bits) {
    __uint128_t v = 0, cap = (__uint128_t)1 << 100; for(char c : n.digits) { v = v * n.radix + (unsigned)digit_of(c); if(v > cap) v = cap; }
    if(!sgn) return !(n.neg && v) && v < ((__uint128_t)1 << bits);
    return n.neg ? v <= ((__uint128_t)1 << (bits - 1)) : v < ((__uint128_t)1 << (bits - 1));
}
static Num model_int(std::string const& s, bool sgn) { Num n = scan_int(s, 0, sgn); if(n.end != s.size()) n.ok = false; return n; }
static Num model_int_first(std::string const& s, bool sgn) {
    size_t i = 0; while(i < s.size() && is_ws(s[i])) ++i;
    Num n = scan_int(s, i, sgn);
    if(n.ok && n.end < s.size() && !is_delim(s[n.end])) n.ok = false;
    return n;
}
static int model_bool(std::string const& s) { // -1 fail
    if(s == "false" || s == "False" || s == "FALSE") return 0;
    if(s == "true" || s == "True" || s == "TRUE") return 1;
    Num n = model_int(s, true); if(!n.ok) return -1;
    return (uint32_t)mod64(n) != 0;
}
static std::string token(std::string const& s, size_t *end) { size_t i = 0; while(i < s.size() && is_ws(s[i])) ++i; size_t b = i; while(i < s.size() && !is_ws(s[i])) ++i; *end = i; return s.substr(b, i - b); }

// ---------------------------------------------------------------- destinations
enum { dInt, dReal, dBool, dChar, dPtr, dStr, dRaw, dN };
struct Dst { // one field; real c4core readers behind it
    int kind = dInt, type = 4; // type: the 8 fixed integer types, long long/unsigned long long as 8,9; reals: 0 float 1 double
    char *mem = nullptr; size_t cap = 0; size_t len = 0; // scalar at mem; strings and raw: buffer of cap bytes at mem, len after reading
};
template<class F> auto with_type(int t, F &&f) {
    switch(t) { case 0: return f((int8_t*)0); case 1: return f((uint8_t*)0); case 2: return f((int16_t*)0); case 3: return f((uint16_t*)0); case 4: return f((int32_t*)0);
    case 5: return f((uint32_t*)0); case 6: return f((int64_t*)0); case 7: return f((uint64_t*)0); case 8: return f((long long*)0); default: return f((unsigned long long*)0); }
}
static bool type_sgn(int t) { return !(t & 1); }
static unsigned type_bits(int t) { return t >= 8 ? 64 : int_bits(t); }
static size_t dst_size(Dst const& d) { switch(d.kind) { case dInt: return type_bits(d.type) / 8; case dReal: return d.type ? 8 : 4; case dBool: case dChar: return 1; case dPtr: return sizeof(void*); default: return d.cap; } }
static size_t from_chars_first(csubstr b, Dst *d) {
    switch(d->kind) {
    case dInt: return with_type(d->type, [&](auto *t) { return c4::from_chars_first(b, (decltype(t))d->mem); });
    case dReal: return d->type ? c4::from_chars_first(b, (double*)d->mem) : c4::from_chars_first(b, (float*)d->mem);
    case dBool: return c4::from_chars_first(b, (bool*)d->mem);
    case dChar: return c4::from_chars_first(b, d->mem);
    case dPtr: return c4::from_chars_first(b, (void**)d->mem);
    case dStr: { substr s(d->mem, d->cap); size_t r = c4::from_chars_first(b, &s); if(r != npos) d->len = s.len; return r; }
    default: { c4::fmt::raw_wrapper w = c4::fmt::raw(c4::blob(d->mem, d->cap), 1); size_t r = c4::from_chars_first(b, &w); d->len = d->cap; return r; }
    }
}
static bool from_chars(csubstr b, Dst *d) {
    switch(d->kind) {
    case dInt: return with_type(d->type, [&](auto *t) { return c4::from_chars(b, (decltype(t))d->mem); });
    case dReal: return d->type ? c4::from_chars(b, (double*)d->mem) : c4::from_chars(b, (float*)d->mem);
    case dBool: return c4::from_chars(b, (bool*)d->mem);
    case dChar: return c4::from_chars(b, d->mem);
    case dPtr: return c4::from_chars(b, (void**)d->mem);
    case dStr: { substr s(d->mem, d->cap); bool r = c4::from_chars(b, &s); if(r) d->len = s.len; return r; }
    default: { c4::fmt::raw_wrapper w = c4::fmt::raw(c4::blob(d->mem, d->cap), 1); d->len = d->cap; return c4::from_chars(b, &w); }
    }
}
// value written in d after a successful read, as bytes
static std::string dst_value(Dst const& d) { return d.kind == dStr || d.kind == dRaw ? std::string(d.mem, d.len) : std::string(d.mem, dst_size(d)); }

// ---------------------------------------------------------------- fields of a record
struct Field { Dst proto; std::string text; std::string value; }; // text as written by c4core, value: bytes the reader must yield
static const char *dname(int k) { static const char *n[] = {"int", "real", "bool", "char", "ptr", "string", "raw"}; return n[k]; }

static Field draw_field(Ctx &cx, bool strings = true) {
    static const uint32_t w[] = {8, 4, 2, 2, 2, 3, 1}; static const uint32_t w0[] = {8, 4, 0, 2, 2, 0, 0};
    Field f; f.proto.kind = (int)(strings ? cx.weighted(w) : cx.weighted(w0));
    char buf[2048]; substr sb(buf, sizeof buf); size_t n = 0; Dst &d = f.proto;
    switch(d.kind) {
    case dInt: { d.type = (int)cx.draw(10); uint64_t bits = draw_bits(cx, type_bits(d.type)); uint32_t style = cx.draw(5); size_t wd = cx.draw(20);
        n = with_type(d.type, [&](auto *t) { auto v = (std::remove_reference_t<decltype(*t)>)bits; f.value.assign((char*)&v, sizeof v);
            return style == 0 ? c4::to_chars(sb, v) : style == 1 ? c4::to_chars(sb, c4::fmt::hex(v)) : style == 2 ? c4::to_chars(sb, c4::fmt::oct(v)) : style == 3 ? c4::to_chars(sb, c4::fmt::bin(v)) : c4::to_chars(sb, c4::fmt::zpad(v, wd)); }); break; }
    case dReal: { d.type = (int)cx.draw(2); double x = draw_double(cx); if(x != x) x = 1.5; int fm = cx.draw(3) ? 0 : cx.draw(2) ? 2 : 3;
        if(d.type) { n = fm ? c4::to_chars(sb, c4::fmt::real(x, fm == 2 ? 17 : -1, realfmt(fm))) : c4::to_chars(sb, x); f.value.assign((char*)&x, 8); if(std::isinf(x) && fm == 3) { x = 0.25; n = c4::to_chars(sb, x); f.value.assign((char*)&x, 8); } }
        else { float y = (float)x; if(std::isinf(y)) fm = 0; n = fm ? c4::to_chars(sb, c4::fmt::real(y, fm == 2 ? 9 : -1, realfmt(fm))) : c4::to_chars(sb, y); f.value.assign((char*)&y, 4); }
        break; }
    case dBool: { bool v = cx.draw(2); n = cx.draw(2) ? c4::to_chars(sb, v) : c4::to_chars(sb, c4::fmt::boolalpha(v)); f.value.assign((char*)&v, 1); break; }
    case dChar: { char c = (char)(33 + cx.draw(94)); n = c4::to_chars(sb, c); f.value.assign(1, c); break; }
    case dPtr: { void *p = (void*)(uintptr_t)draw_bits(cx, 47); n = c4::to_chars(sb, p); f.value.assign((char*)&p, sizeof p); break; }
    case dStr: { std::string s; uint32_t k = 1 + cx.skewed(20); for(uint32_t i = 0; i < k; ++i) s += (char)(33 + cx.draw(94)); f.value = s; n = c4::to_chars(sb, csubstr(s.data(), s.size())); d.cap = s.size() + cx.draw(4); break; }
    default: { std::string s; uint32_t k = 1 + cx.skewed(20); for(uint32_t i = 0; i < k; ++i) s += (char)cx.draw(256); f.value = s; d.cap = k; n = c4::to_chars(sb, c4::fmt::raw(c4::cblob(s.data(), s.size()), 1)); break; }
    }
    f.text.assign(buf, n);
#ifdef SIM_SNPRINTF // printf's default formats are not exact: the text is what counts
    if(d.kind == dReal) { if(d.type) { double x = strtod(f.text.c_str(), nullptr); f.value.assign((char*)&x, 8); } else { float y = strtof(f.text.c_str(), nullptr); f.value.assign((char*)&y, 4); } }
#endif
    return f;
}
static std::string damage(Ctx &cx, std::string s) {
    for(uint32_t k = 1 + cx.draw(2); k; --k) {
        uint32_t n = (uint32_t)s.size();
        switch(cx.draw(9)) {
        case 0: s.resize(cx.draw(n + 1)); cx.inject("cut"); break;
        case 1: if(n) { uint32_t a = cx.draw(n); s.erase(a, 1 + cx.draw(3)); cx.inject("lost-bytes"); } break;
        case 2: if(n) { s[cx.draw(n)] ^= (char)(1u << cx.draw(8)); cx.inject("bit-flip"); } break;
        case 3: if(n) { s[cx.draw(n)] = "0123456789+-. xXbBoOpPeE,;]}\0\n=/:@G`g"[cx.draw(38)]; cx.inject("garbage-byte"); } break;
        case 4: { std::string t; for(uint32_t j = 1 + cx.draw(6); j; --j) t += "0x+-.pe 19fF=\xff\0,"[cx.draw(17)]; s.insert(cx.draw(n + 1), t); cx.inject("garbage-inserted"); break; }
        case 5: if(n) { uint32_t a = cx.draw(n); for(size_t j = a; j < s.size(); ++j) s[j] = 0; cx.inject("zeroed-tail"); } break;
        case 6: if(n) { uint32_t a = cx.draw(n); s += s.substr(a); cx.inject("duplicated-tail"); } break;
        case 7: { uint32_t a = cx.draw(n + 1); for(uint32_t j = 0; j < n && !(a > 0 && isdigit((unsigned char)s[a - 1])); ++j) a = (a + 1) % (n + 1); std::string t; for(uint32_t j = 1 + cx.draw(14); j; --j) t += (char)('0' + cx.draw(10)); s.insert(a, t); cx.inject("digits-inserted"); break; }
        default: if(n) { s.erase(0, cx.draw(n) + 1); cx.inject("lost-head"); } break;
        }
    }
    return s;
}
// garbage close to the grammar, not derived from a record
static std::string near_text(Ctx &cx) {
    static const char *pre[] = {"", "-", "+", "0x", "-0x", "0b", "0o", "-0b", "0X", " ", "--", "0", "-0", "1e", "0x1.p", "inf", "nan", "tru", "fals", "0x.", "\t0", "0B", "-0B", "0O"};
    std::string s = pre[cx.draw(24)]; for(uint32_t k = cx.draw(8); k; --k) s += "0123456789abcdefABCDEFgx.-+pPeE ,]"[cx.draw(34)];
    return s;
}

// ---------------------------------------------------------------- reading in several placements
struct Res { bool raised = false; size_t ret = 0; std::string out; bool ok = false; };
using ReadFn = std::function<Res(csubstr)>;

static char *place(Ctx &cx, std::string const& s, uint32_t how, uint64_t salt) {
    memset(g.base, how & 1 ? '9' : (int)(salt & 0xff), g.cap());
    for(size_t i = 0; how == 3 && i < g.cap(); ++i) g.base[i] = "0x1fFe+-.79 =true"[(i + salt) % 17];
    char *p = how == 0 ? g.at_end(s.size()) : how == 1 ? g.at_begin() : g.at_begin() + 1024 + (salt % 16);
    if(how == 2 && s.empty()) return nullptr;
    memcpy(p, s.data(), s.size());
    return p;
}
static void check_view(Ctx &cx, char *p, std::string const& s, std::string const& what) { if(p && memcmp(p, s.data(), s.size())) cx.fail("input-changed", what + " changed the bytes it reads"); }

// reads s from every placement and checks that the answers agree
static Res read_all(Ctx &cx, std::string const& what, std::string const& s, ReadFn const& rd) {
    Res first; uint32_t n = 2 + cx.draw(2), start = cx.draw(4);
    for(uint32_t i = 0; i < n; ++i) {
        uint32_t how = (start + i) & 3; char *p = place(cx, s, how, cx.draw(200));
        if(!p) cx.inject("null-view");
        Res r;
        try { r = rd(csubstr(p, s.size())); } catch(C4Error const& e) { r = Res(); r.raised = true; }
        check_view(cx, p, s, what);
        if(i == 0) first = r;
        else {
            cx.check(r.raised == first.raised && r.ok == first.ok && r.ret == first.ret, "verdict-not-from-view", what + " of " + sim::quote(s) + " answered " + (first.raised ? "error" : std::to_string((long long)first.ret)) + " then " + (r.raised ? "error" : std::to_string((long long)r.ret)) + " elsewhere in memory / with other stale destinations");
            if(r.ok) cx.check(r.out == first.out, "output-not-from-view", what + " of " + sim::quote(s) + " gave " + sim::quote(first.out) + " then " + sim::quote(r.out) + " elsewhere in memory / with other stale destinations");
        }
    }
    cx.ev("read", what, s, (uint64_t)first.ret, first.ok); cx.sig(first.ret); cx.sig(std::hash<std::string>()(s));
    return first;
}

// destination memory for a set of fields: canaries between them, stale contents kept or re-drawn
struct Dsts {
    std::vector<Dst> d; std::vector<std::pair<char*, size_t>> gaps;
    void lay(std::vector<Field> const& fs) {
        char *p = gd.at_end(0); // from the end, strings against the guard page first
        gaps.clear(); d.clear();
        for(size_t i = 0; i < fs.size(); ++i) {
            Dst x = fs[i].proto; size_t sz = dst_size(x); char *q = p - sz; size_t al = x.kind == dStr || x.kind == dRaw ? 1 : sz; q -= (uintptr_t)q % al;
            gaps.push_back({q + sz, (size_t)(p - q - sz)}); x.mem = q; d.push_back(x); p = q - 8; gaps.push_back({p, 8});
        }
    }
    void fill() { for(auto &gp : gaps) memset(gp.first, 0x5c, gp.second); }
    void stale(Ctx &cx) { for(auto &x : d) { size_t n = dst_size(x); uint32_t k = cx.draw(3); uint8_t b = (uint8_t)cx.draw(256); if(x.kind == dBool) { *x.mem = (char)(b & 1); continue; } if(k == 0) memset(x.mem, b, n); else if(k == 1) for(size_t i = 0; i < n; ++i) x.mem[i] = (char)(b * (i + 3)); /* else keep */ } }
    void verify(Ctx &cx, std::string const& what) { for(auto &gp : gaps) for(size_t i = 0; i < gp.second; ++i) if(gp.first[i] != 0x5c) cx.fail("out-of-bounds", what + " wrote outside its destination"); }
};

// model of one field read with from_chars_first; for reals the code itself is asked (alone), the value is judged against strtod
static size_t model_first(Ctx &cx, Dst const& proto, std::string const& s, std::string *value) {
    size_t end;
    switch(proto.kind) {
    case dInt: { Num n = model_int_first(s, type_sgn(proto.type)); if(!n.ok) return npos; uint64_t v = mod64(n); value->assign((char*)&v, type_bits(proto.type) / 8); return n.end; }
    case dPtr: { Num n = model_int_first(s, true); if(!n.ok) return npos; uint64_t v = mod64(n); value->assign((char*)&v, 8); return n.end; }
    case dBool: { std::string t = token(s, &end); int b = t.empty() ? -1 : model_bool(t); if(b < 0) return npos; value->assign(1, (char)b); return end; }
    case dChar: if(s.empty()) return npos; value->assign(1, s[0]); return 1;
    case dStr: { std::string t = token(s, &end); if(t.empty() || t.size() > proto.cap) return npos; *value = t; return end; }
    case dRaw: if(s.size() < proto.cap) throw C4Error{""}; *value = s.substr(0, proto.cap); return proto.cap;
    default: {
        double alone = 0; Dst d = proto; d.mem = (char*)&alone; size_t r = from_chars_first(csubstr(s.data(), s.size()), &d);
        if(r != npos) { cx.check(r <= s.size(), "overlong", "a real was read past the end of the view"); value->assign((char*)&alone, dst_size(d)); }
        return r; }
    }
}
static bool real_close(double a, double b, double tol) { if(a == b || (a != a && b != b)) return true; if(std::isinf(a) || std::isinf(b)) return false; return std::fabs(a - b) <= tol * std::fmax(std::fabs(a), std::fabs(b)); }
// a real that was read from text must be the number the text denotes
static void judge_real(Ctx &cx, Dst const& d, std::string t, bool whole) {
    size_t i = 0; while(i < t.size() && is_ws(t[i])) ++i; t = t.substr(i);
    size_t b = t.size() && (t[0] == '-' || t[0] == '+'); bool hex = t.size() > b + 1 && t[b] == '0' && (t[b + 1] | 32) == 'x';
    if(!hex) for(size_t k = b; k + 1 < t.size(); ++k) if(t[k] == '0' && (t[k + 1] == 'x' || t[k + 1] == 'X')) return;
#if C4CORE_HAVE_FAST_FLOAT || C4CORE_HAVE_STD_FROMCHARS // sscanf() settles for the leading zero
    if(hex) { size_t i = b + 2; if(i < t.size() && t[i] == '.') ++i; cx.check(i < t.size() && isxdigit((unsigned char)t[i]), "untruthful", "real text " + sim::quote(t) + " was accepted, it has no digits"); }
#endif
    size_t nd = 0; for(char c : t) nd += hex && digit_of(c) < 99; if(hex && nd > 24) return;
    double got, ref; if(d.type) { memcpy(&got, d.mem, 8); ref = strtod(t.c_str(), nullptr); } else { float f; memcpy(&f, d.mem, 4); got = f; ref = strtof(t.c_str(), nullptr); }
    char *end; strtod(t.c_str(), &end); size_t used = (size_t)(end - t.c_str());
#if C4CORE_HAVE_FAST_FLOAT
    if(hex) whole = true; // the other readers stop at the first character that does not belong
#endif
    cx.check(whole ? used == t.size() : used > 0, "untruthful", "real text " + sim::quote(t) + " was read, only " + std::to_string(used) + " of its characters denote a number");
    bool exact = !hex || nd <= (d.type ? 15u : 7u) ;
    bool ok = exact && !hex ? real_close(got, ref, 0) : real_close(got, ref, d.type ? 1e-14 : 1e-6) || std::fabs(ref) < (d.type ? 1e-300 : 1e-36);
    cx.check(ok, "untruthful", "real text " + sim::quote(t) + " was read as " + std::to_string(got) + ", it denotes " + std::to_string(ref));
}

static void run_scalar(Ctx &cx) {
    Field f = draw_field(cx); bool firstform = cx.draw(2); Dsts ds; ds.lay({f}); ds.fill();
    std::string what = std::string(firstform ? "from_chars_first " : "from_chars ") + dname(f.proto.kind) + std::to_string(f.proto.type);
    cx.ev("record", what, f.text);
    auto attempt = [&](std::string s, bool intact) {
        Dst const& P = f.proto;
        if(!firstform && P.kind == dReal) { size_t i = 0; while(i < s.size() && is_ws(s[i])) ++i; s = s.substr(i); if(s.empty()) return; } // must be trimmed and not empty
        auto rd = [&](csubstr v) { ds.stale(cx); Res r; Dst &d = ds.d[0];
            if(firstform) { r.ret = from_chars_first(v, &d); r.ok = r.ret != npos; } else { r.ok = from_chars(v, &d); r.ret = r.ok; }
            if(r.ok) r.out = dst_value(d); ds.verify(cx, what); return r; };
        Res r = read_all(cx, what, s, rd);
        if(r.ok && firstform) cx.check(r.ret <= s.size(), "overlong", what + " of " + sim::quote(s) + " reports " + std::to_string(r.ret) + " characters read of " + std::to_string(s.size()));
        std::string val; bool known = true, mok = false, mraise = false; size_t mret = 0;
        if(firstform) { try { mret = model_first(cx, P, s, &val); mok = mret != npos; } catch(C4Error const&) { mraise = true; } }
        else switch(P.kind) {
            case dInt: { Num n = model_int(s, type_sgn(P.type)); mok = n.ok; uint64_t v = mod64(n); val.assign((char*)&v, type_bits(P.type) / 8); break; }
            case dPtr: { Num n = model_int(s, true); mok = n.ok; uint64_t v = mod64(n); val.assign((char*)&v, 8); break; }
            case dBool: { int b = model_bool(s); mok = b >= 0; val.assign(1, (char)b); break; }
            case dChar: mok = s.size() == 1; if(mok) val = s; break;
            case dStr: mok = s.size() <= P.cap; val = s; break;
            case dRaw: mraise = s.size() < P.cap; mok = !mraise; if(mok) val = s.substr(0, P.cap); break;
            default: known = false;
        }
        if(known) {
            cx.check(r.ok == mok && r.raised == mraise, "untruthful", what + " of " + sim::quote(s) + (r.raised ? " raised an error" : r.ok ? " succeeded" : " failed") + ", it should " + (mraise ? "raise an error" : mok ? "succeed" : "fail"));
            if(mok) cx.check(r.out == val && (!firstform || r.ret == mret), "untruthful", what + " of " + sim::quote(s) + " gave value bytes " + sim::quote(r.out) + " and " + std::to_string(r.ret) + ", expected " + sim::quote(val) + " and " + std::to_string(mret));
        }
        if(r.ok && P.kind == dReal) { memcpy(ds.d[0].mem, r.out.data(), r.out.size()); judge_real(cx, ds.d[0], firstform ? s.substr(0, r.ret) : s, firstform); cx.probe("real-accepted"); }
        if(r.ok) cx.probe(intact ? "intact-accepted" : "damaged-accepted"); else cx.probe("rejected");
        if(intact) cx.check(r.ok && r.out == f.value && (!firstform || r.ret == s.size()), "intact-misread", what + " of the intact record " + sim::quote(s) + (r.ok ? " gave value bytes " + sim::quote(r.out) + ", written was " + sim::quote(f.value) : " failed"));
    };
    for(uint32_t k = cx.draw(5); k; --k) attempt(cx.draw(3) ? damage(cx, f.text) : near_text(cx), false);
    attempt(f.text, true);
}

static void run_pack(Ctx &cx) {
    uint32_t form = cx.draw(3); static const char *nm[] = {"uncat", "uncatsep", "unformat"}; uint32_t n = 1 + cx.draw(4);
    static const char wsep[] = " \t\n", nsep[] = " ,;\t\n])}";
    std::vector<Field> fs; std::string text, fmt; char sep = 0;
    auto add = [&](bool strings) { Field f = draw_field(cx, strings); fs.push_back(f); };
    auto chr = [&](char c) { Field f; f.proto.kind = dChar; f.text = f.value = std::string(1, c); fs.push_back(f); };
    auto needs_ws = [](Field const& f) { return f.proto.kind == dStr || f.proto.kind == dBool; };
    if(form == 0) { for(uint32_t i = 0; i < n; ++i) { if(i) chr(needs_ws(fs.back()) ? wsep[cx.draw(3)] : nsep[cx.draw(8)]); add(true); } }
    else for(uint32_t i = 0; i < n; ++i) add(true);
    bool ws = false; for(auto &f : fs) ws |= needs_ws(f);
    sep = ws ? wsep[cx.draw(3)] : nsep[cx.draw(8)];
    if(form == 2) for(uint32_t i = 0; i <= n; ++i) { std::string l; if(i) { if(i < n || cx.draw(2)) l += fs[i - 1].proto.kind == dChar || fs[i-1].proto.kind == dRaw ? 'q' : needs_ws(fs[i - 1]) ? wsep[cx.draw(3)] : nsep[cx.draw(8)]; } if(l.size() || !i) for(uint32_t k = cx.draw(4); k; --k) l += "ab=:"[cx.draw(4)]; if(i && i < n && fs[i].proto.kind != dChar && fs[i].proto.kind != dRaw && cx.draw(2)) l += ' '; fmt += l; if(i < n) fmt += "{}"; }
    // the record, written by the library
    char buf[8192]; substr sb(buf, sizeof buf); size_t w = 0;
    std::vector<csubstr> tx; for(auto &f : fs) tx.push_back(csubstr(f.text.data(), f.text.size()));
    csubstr cf(fmt.data(), fmt.size());
    if(form == 0) { for(auto t : tx) w += c4::cat(sb.sub(w), t); }
    else switch(n) {
        case 1: w = form == 1 ? c4::catsep(sb, sep, tx[0]) : c4::format(sb, cf, tx[0]); break;
        case 2: w = form == 1 ? c4::catsep(sb, sep, tx[0], tx[1]) : c4::format(sb, cf, tx[0], tx[1]); break;
        case 3: w = form == 1 ? c4::catsep(sb, sep, tx[0], tx[1], tx[2]) : c4::format(sb, cf, tx[0], tx[1], tx[2]); break;
        default: w = form == 1 ? c4::catsep(sb, sep, tx[0], tx[1], tx[2], tx[3]) : c4::format(sb, cf, tx[0], tx[1], tx[2], tx[3]); break;
    }
    text.assign(buf, w); std::string what = nm[form]; cx.ev("record", what, text, fmt);
    Dsts ds; ds.lay(fs); ds.fill(); char rsep = 0;
    auto rd = [&](csubstr v) { ds.stale(cx); Res r; auto &d = ds.d; rsep = 'S';
        switch(d.size()) {
        case 1: r.ret = form == 0 ? c4::uncat(v, d[0]) : form == 1 ? c4::uncatsep(v, rsep, d[0]) : c4::unformat(v, cf, d[0]); break;
        case 2: r.ret = form == 0 ? c4::uncat(v, d[0], d[1]) : form == 1 ? c4::uncatsep(v, rsep, d[0], d[1]) : c4::unformat(v, cf, d[0], d[1]); break;
        case 3: r.ret = form == 0 ? c4::uncat(v, d[0], d[1], d[2]) : form == 1 ? c4::uncatsep(v, rsep, d[0], d[1], d[2]) : c4::unformat(v, cf, d[0], d[1], d[2]); break;
        case 4: r.ret = form == 0 ? c4::uncat(v, d[0], d[1], d[2], d[3]) : form == 1 ? c4::uncatsep(v, rsep, d[0], d[1], d[2], d[3]) : c4::unformat(v, cf, d[0], d[1], d[2], d[3]); break;
        case 5: r.ret = c4::uncat(v, d[0], d[1], d[2], d[3], d[4]); break;
        default: r.ret = c4::uncat(v, d[0], d[1], d[2], d[3], d[4], d[5], d[6]); break;
        }
        r.ok = r.ret != npos; if(r.ok) for(auto &x : d) { r.out += dst_value(x); r.out += '|'; } ds.verify(cx, what); return r; };
    auto attempt = [&](std::string const& s, bool intact) {
        Res r = read_all(cx, what, s, rd);
        if(r.ok) cx.check(r.ret <= s.size(), "overlong", what + " of " + sim::quote(s) + " reports " + std::to_string(r.ret) + " characters read of " + std::to_string(s.size()));
        // reference: field by field
        size_t pos = 0; std::string out; bool ok = true, raised = false; size_t fpos = 0;
        try {
            for(size_t i = 0; i < fs.size() && ok; ++i) {
                if(form == 1 && i) { if(pos >= s.size()) { ok = false; break; } ++pos; }
                if(form == 2) { size_t e = fmt.find("{}", fpos); pos += e - fpos; fpos = e + 2; if(pos > s.size()) { ok = false; break; } }
                std::string val; size_t c = model_first(cx, fs[i].proto, s.substr(pos), &val); if(c == npos) { ok = false; break; }
                pos += c; out += val + "|";
            }
            if(form == 2 && ok) { pos += fmt.size() - fpos; if(pos > s.size()) ok = false; }
        } catch(C4Error const&) { raised = true; ok = false; }
        // a short view may be refused by a field before the literal that is missing is noticed, or the other way round: both are failures
        cx.check(r.ok == ok, "untruthful", what + " of " + sim::quote(s) + (r.ok ? " succeeded" : " failed") + ", field by field it " + (ok ? "succeeds" : "fails") + " (format " + sim::quote(fmt) + ")");
        if(ok) cx.check(r.out == out && r.ret == pos, "untruthful", what + " of " + sim::quote(s) + " gave " + sim::quote(r.out) + " and " + std::to_string(r.ret) + ", field by field it is " + sim::quote(out) + " and " + std::to_string(pos));
        (void)raised;
        if(intact) { std::string want; for(auto &f : fs) want += f.value + "|"; cx.check(r.ok && r.ret == s.size() && r.out == want && (form != 1 || fs.size() < 2 || rsep == sep), "intact-misread", what + " of the intact record " + sim::quote(s) + " gave " + (r.ok ? sim::quote(r.out) + " and " + std::to_string(r.ret) : "a failure") + ", written was " + sim::quote(want)); }
        cx.probe(r.ok ? intact ? "intact-accepted" : "damaged-accepted" : "rejected");
    };
    if(ds.d.size() == 6) return; // seven readers only come in odd numbers for uncat
    for(uint32_t k = cx.draw(5); k; --k) attempt(damage(cx, text), false);
    attempt(text, true);
}

static void run_checked(Ctx &cx) { // overflow_checked
    int type = (int)cx.draw(8); uint64_t bits = draw_bits(cx, int_bits(type)); static const unsigned rx[] = {10, 16, 8, 2}; unsigned radix = rx[cx.draw(4)];
    std::string text = ref_int(int_neg(type, bits), int_mag(type, bits), radix, cx.draw(3) ? 0 : cx.draw(24)); uint32_t byptr = cx.draw(2);
    Field f; f.proto.kind = dInt; f.proto.type = type; Dsts ds; ds.lay({f}); ds.fill(); bool sgn = type_sgn(type);
    auto rd = [&](csubstr v) { ds.stale(cx); Res r; r.ok = with_type(type, [&](auto *t) { auto *p = (decltype(t))ds.d[0].mem; auto w = c4::fmt::overflow_checked(*p); return byptr ? c4::from_chars(v, &w) : c4::from_chars(v, w); }); r.ret = r.ok; if(r.ok) r.out = dst_value(ds.d[0]); ds.verify(cx, "overflow_checked"); return r; };
    auto attempt = [&](std::string const& s, bool intact) {
        if(!intact && s.size() && s[0] == '+') return;
        Res r = read_all(cx, "overflow_checked" + std::to_string(type), s, rd);
        Num n = model_int(s, sgn); bool ok = n.ok && in_range(n, sgn, int_bits(type));
        uint64_t v = mod64(n); std::string val((char*)&v, int_bits(type) / 8);
        cx.check(r.ok == ok, "untruthful", "overflow_checked read of " + sim::quote(s) + " as type " + std::to_string(type) + (r.ok ? " succeeded" : " failed") + ", it should not");
        if(ok) cx.check(r.out == val, "untruthful", "overflow_checked read of " + sim::quote(s) + " as type " + std::to_string(type) + " gave " + sim::quote(r.out) + " expected " + sim::quote(val));
        cx.probe(r.ok ? "checked-accepted" : n.ok ? "overflow-rejected" : "rejected");
    };
    for(uint32_t k = cx.draw(6); k; --k) attempt(cx.draw(3) == 0 ? near_text(cx) : cx.draw(3) == 0 ? ref_int(cx.draw(2), cx.draw64() >> cx.draw(64), radix, 0) : damage(cx, text), false);
    attempt(text, true);
}

static void run_base64(Ctx &cx) {
    std::string data = draw_text(cx, 40, true), enc(ref_base64(data)); char buf[128]; size_t w = c4::base64_encode(substr(buf, sizeof buf), c4::cblob(data.data(), data.size()));
    cx.check(std::string(buf, w) == enc, "untruthful", "base64_encode disagrees with RFC 4648");
    static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    size_t cap = data.size() + cx.draw(4); if(cx.draw(4) == 0) cap = cx.draw((uint32_t)data.size() + 1);
    auto attempt = [&](std::string const& s, bool intact) {
        bool valid = s.size() % 4 == 0; size_t pad = 0; std::string dec;
        for(size_t i = 0; i < s.size() && valid; ++i) { if(s[i] == '=') { ++pad; if(i + 2 < s.size()) valid = false; } else { if(pad || al.find(s[i]) == std::string::npos) valid = false; } }
        Res r = read_all(cx, "base64_valid", s, [&](csubstr v) { Res x; x.ok = true; x.ret = c4::base64_valid(v); return x; });
        cx.check((r.ret != 0) == valid, "untruthful", "base64_valid of " + sim::quote(s) + " says " + (r.ret ? "valid" : "invalid"));
        if(!valid) { cx.probe("rejected"); return; }
        for(size_t i = 0; i + 4 <= s.size(); i += 4) { uint32_t v = 0; int np = 0; for(int k = 0; k < 4; ++k) { v <<= 6; if(s[i + k] == '=') ++np; else v |= (uint32_t)al.find(s[i + k]); } dec += (char)(v >> 16); if(np < 2) dec += (char)(v >> 8); if(np < 1) dec += (char)v; }
        char *dst = gd.at_end(cap); bool viafmt = cx.draw(2);
        r = read_all(cx, "base64_decode", s, [&](csubstr v) { Res x; memset(dst - 16, 0x5c, 16); memset(dst, (int)cx.draw(256), cap); c4::fmt::base64_wrapper bw(c4::blob(dst, cap)); x.ret = viafmt ? c4::from_chars(v, &bw) : c4::base64_decode(v, c4::blob(dst, cap)); x.ok = x.ret <= cap; if(x.ok) x.out.assign(dst, x.ret); for(int k = 1; k <= 16; ++k) if(dst[-k] != 0x5c) cx.fail("out-of-bounds", "base64_decode wrote before its destination"); return x; });
        cx.check(r.ret == dec.size(), "untruthful", "base64_decode of " + sim::quote(s) + " reports " + std::to_string(r.ret) + " bytes, there are " + std::to_string(dec.size()));
        if(r.ok) cx.check(r.out == dec, "untruthful", "base64_decode of " + sim::quote(s) + " gave " + sim::quote(r.out) + " expected " + sim::quote(dec));
        if(intact && cap >= data.size()) cx.check(r.ok && r.out == data, "intact-misread", "base64 round trip of " + sim::quote(data));
        cx.probe(intact ? "intact-accepted" : "damaged-accepted");
    };
    for(uint32_t k = cx.draw(5); k; --k) attempt(damage(cx, enc), false);
    attempt(enc, true);
}

static void run_utf(Ctx &cx) {
    uint32_t cp = cx.draw(3) ? cx.draw(0x110000) : cx.draw(2) ? cx.draw(0x900) : 0x10ff00 + cx.draw(0x200); if(cx.draw(4) == 0) { static const uint32_t edge[] = {0x80, 0x800, 0x1000, 0xd800, 0xe000, 0x10000, 0x100000, 0x110000}; cp = edge[cx.draw(8)] + cx.draw(3) - 1; } if(!cp) cp = 1;
    std::string text = ref_digits(cp, 16); if(cx.draw(2)) for(char &c : text) if(c >= 'a') c -= 32;
    char *dst = gd.at_end(4); bool at_end = cx.draw(2); size_t cap = at_end ? 4 : 8; if(!at_end) dst = gd.at_end(8);
    auto attempt = [&](std::string s, bool intact) {
        if(s.empty() || s.size() > 8 || s[0] == '0' || s.rfind("U+", 0) == 0 || s.rfind("\\x", 0) == 0 || s.rfind("\\u", 0) == 0 || s.rfind("\\U", 0) == 0) return; // preconditions
        Res r = read_all(cx, "decode_code_point", s, [&](csubstr v) { Res x; memset(gd.base, 0x5c, gd.cap()); memset(dst, (int)cx.draw(256), cap); substr o = c4::decode_code_point(substr(dst, cap), v); x.ret = o.len; x.ok = true; cx.check(o.len <= 4 && (o.len == 0 || o.str == dst), "overlong", "decode_code_point returned a view outside its output"); x.out.assign(o.str, o.len); for(char *q = dst - 32; q < dst; ++q) if(*q != 0x5c) cx.fail("out-of-bounds", "decode_code_point wrote before its output"); return x; });
        bool ok = true; uint64_t v = 0; for(char c : s) { if(digit_of(c) > 15) { ok = false; break; } v = v * 16 + (unsigned)digit_of(c); }
        cx.check(r.raised == !ok, "untruthful", "decode_code_point of " + sim::quote(s) + (r.raised ? " raised an error" : " was accepted"));
        if(ok) { std::string u; if(v < 0x80) u += (char)v; else if(v < 0x800) { u += (char)(0xc0 | v >> 6); u += (char)(0x80 | (v & 63)); } else if(v < 0x10000) { u += (char)(0xe0 | v >> 12); u += (char)(0x80 | (v >> 6 & 63)); u += (char)(0x80 | (v & 63)); } else if(v < 0x110000) { u += (char)(0xf0 | v >> 18); u += (char)(0x80 | (v >> 12 & 63)); u += (char)(0x80 | (v >> 6 & 63)); u += (char)(0x80 | (v & 63)); }
            cx.check(r.out == u, "untruthful", "decode_code_point of " + sim::quote(s) + " gave " + sim::quote(r.out) + " expected " + sim::quote(u)); }
        cx.probe(intact ? "intact-accepted" : ok ? "damaged-accepted" : "rejected");
    };
    for(uint32_t k = cx.draw(5); k; --k) attempt(damage(cx, text), false);
    attempt(text, true);
}

static void run_raw(Ctx &cx) { // aligned raw data: written and read at drawn addresses
    std::string data; uint32_t k = cx.draw(10) ? 1 + cx.skewed(40) : 0; for(uint32_t i = 0; i < k; ++i) data += (char)cx.draw(256);
    size_t al = size_t(1) << cx.draw(6), off = cx.draw(64), total = data.size() + al + cx.draw(8); char *p;
    for(uint32_t a = 1 + cx.draw(3); a; --a) {
        bool end = cx.draw(2); p = end ? g.at_end(total) : g.at_begin() + off; memset(g.base, 0x77, g.cap());
        size_t wr = c4::to_chars(substr(p, total), c4::fmt::raw(c4::cblob(data.data(), data.size()), al)); if(wr > total) continue;
        size_t cut = cx.draw(3) ? wr : cx.draw((uint32_t)wr + 1); bool torn = cut < wr; if(torn) cx.inject("cut");
        if(torn) { char *q = g.at_end(cut); size_t m = (uintptr_t)q % al == (uintptr_t)p % al; if(m) { memmove(q, p, cut); p = q; } }
        char *dst = gd.at_end(data.size()); memset(dst, (int)cx.draw(256), data.size()); memset(dst - 16, 0x5c, 16);
        c4::fmt::raw_wrapper w = c4::fmt::raw(c4::blob(dst, data.size()), al); uint32_t form = cx.draw(4); size_t ret = 0; bool raised = c4err_raised([&] { csubstr v(p, cut); ret = form == 0 ? c4::from_chars(v, &w) : form == 1 ? c4::from_chars(v, w) : form == 2 ? c4::from_chars_first(v, &w) : c4::from_chars_first(v, w); });
        cx.ev("raw", (uint64_t)data.size(), (uint64_t)al, (uint64_t)cut, (uint64_t)ret, raised);
        for(int i = 1; i <= 16; ++i) if(dst[-i] != 0x5c) cx.fail("out-of-bounds", "raw read wrote before its destination");
        if(torn) { cx.check(raised || ret == 0 || ret == npos, "untruthful", "a torn raw record of " + std::to_string(cut) + " of " + std::to_string(wr) + " bytes was accepted"); cx.probe("rejected"); continue; }
        cx.check(!raised && !memcmp(dst, data.data(), data.size()), "intact-misread", "an intact raw record was not read back");
        if(form >= 2) cx.check(ret == wr, form >= 2 && ret > wr ? "overlong" : "untruthful", "from_chars_first(raw) reports " + std::to_string(ret) + " bytes, the record has " + std::to_string(wr)); else cx.check(ret == 1, "untruthful", "from_chars(raw) failed");
        cx.probe("intact-accepted");
    }
}

static void run_text(Ctx &cx) { // std::string, csubstr, number spans
    std::string text = cx.draw(2) ? draw_text(cx, 60, true) : draw_field(cx).text, s = text; std::string dest(cx.draw(40), 'z');
    for(uint32_t k = cx.draw(5) + 1; k; --k) {
        s = k == 1 ? text : damage(cx, text);
        Res r = read_all(cx, "std::string", s, [&](csubstr v) { Res x; x.ok = c4::from_chars(v, &dest); x.ret = x.ok; x.out = dest; return x; });
        cx.check(r.ok && r.out == s, "untruthful", "std::string read of " + sim::quote(s) + " gave " + sim::quote(r.out));
        r = read_all(cx, "std::vector<char>", s, [&](csubstr v) { Res x; std::vector<char> o(cx.draw(40), 'z'); x.ok = c4::from_chars(v, &o); x.ret = x.ok; x.out.assign(o.data(), o.size()); return x; });
        cx.check(r.ok && r.out == s, "untruthful", "std::vector<char> read of " + sim::quote(s) + " gave " + sim::quote(r.out));
        r = read_all(cx, "csubstr", s, [&](csubstr v) { Res x; csubstr o("stale"); x.ok = c4::from_chars(v, &o); x.ret = x.ok; cx.check(o.len == v.len && (o.len == 0 || o.str == v.str), "untruthful", "csubstr read is not the view"); return x; });
        auto inside = [&](csubstr v, csubstr sp) { cx.check(sp.len <= v.len && (sp.len == 0 || (sp.str >= v.str && sp.str + sp.len <= v.str + v.len)), "overlong", "a number span lies outside the view"); return sp.len ? (uint64_t)(sp.str - v.str) << 20 | sp.len : 0; };
        r = read_all(cx, "spans", s, [&](csubstr v) { Res x; x.ok = true; uint64_t h = 0; auto m = [&](uint64_t y) { h = h * 31 + y; };
            m(inside(v, v.first_int_span())); m(inside(v, v.first_uint_span())); m(inside(v, v.first_real_span())); m(inside(v, v.first_non_empty_span()));
            m(v.is_number()); m(v.is_real()); m(v.is_integer()); m(v.is_unsigned_integer()); m(inside(v, v.trim(" \t\r\n"))); m(c4::overflows<int32_t>(v)); m(c4::overflows<uint8_t>(v)); m(c4::overflows<int64_t>(v)); m(c4::overflows<uint64_t>(v)); x.ret = h & 0xffffffff; return x; });
    }
}

// symbol names and bitmask expressions
template<class E> struct Names { std::vector<std::pair<std::string, uint64_t>> v; // every accepted spelling
    explicit Names(bool scoped) { for(auto const& y : c4::esyms<E>()) { std::string n = y.name; uint64_t val = (uint64_t)y.value; v.push_back({n, val}); if(scoped) { v.push_back({n.substr(8), val}); v.push_back({n.substr(10), val}); } else v.push_back({n.substr(2), val}); } }
    bool find(std::string const& n, uint64_t *val) const { for(auto &x : v) if(x.first == n) { *val = x.second; return true; } return false; } };
// -1: must raise, 1: must give *val, 0: may raise, but gives *val if it does not
template<class E> static int model_bm(Names<E> const& nm, std::string s, uint64_t *val) {
    *val = 0; int verdict = 1; size_t z = s.find('\0'); bool term = z != std::string::npos; if(term) s.resize(z);
    for(char c : s) if(!isalnum((unsigned char)c) && !strchr("_: |", c)) return -1;
    if(s.find_first_not_of(": ") == std::string::npos) return term ? -1 : 1;
    for(size_t i = 0; i <= s.size(); ) {
        size_t e = s.find('|', i); if(e == std::string::npos) e = s.size(); std::string t = s.substr(i, e - i); i = e + 1; uint64_t v = 0;
        size_t a = t.find_first_not_of(": "), b = t.find_last_not_of(": "); if(a == std::string::npos) return -1;
        if(a != 0 || b + 1 != t.size()) verdict = 0;
        t = t.substr(a, b + 1 - a);
        if(nm.find(t, &v)) { *val |= v; continue; }
        Num n = model_int(t, false); if(!n.ok) n = model_int_first(t, false); if(!n.ok) return -1; // "1 2" is tolerated
        if(n.radix != 10 || n.end != t.size() || (n.radix == 10 && n.digits.size() > 15)) verdict = 0;
        *val |= mod64(n);
    }
    return verdict;
}
template<class E> static void run_enum_of(Ctx &cx, bool scoped) {
    using I = typename std::underlying_type<E>::type; static const Names<E> nm(scoped); std::string what = scoped ? "str2bm<scoped>" : "str2bm<plain>";
    // an expression written by the library, or put together from accepted spellings and numbers
    std::string text; uint64_t want = 0; uint32_t k = 1 + cx.draw(4);
    for(uint32_t i = 0; i < k; ++i) { auto &x = nm.v[cx.draw((uint32_t)nm.v.size())]; want |= x.second; if(i) text += '|'; uint32_t how = cx.draw(4); text += how == 0 ? std::to_string(x.second) : how == 1 && x.second < 10 ? "0x" + std::to_string(x.second) : x.first; }
    if(cx.draw(2)) { char buf[256]; memset(buf, '#', sizeof buf); size_t n = c4::bm2str<E>((I)want, buf, sizeof buf, (c4::EnumOffsetType)cx.draw(3)); cx.check(n <= sizeof buf && n && buf[n - 1] == 0, "intact-misread", "bm2str wrote no terminator"); text.assign(buf, n - cx.draw(2)); }
    auto attempt = [&](std::string const& s, bool intact) {
        Res r = read_all(cx, what, s, [&](csubstr v) { Res x; I b = c4::str2bm<E>(v.str, v.len); x.ok = true; x.ret = (uint64_t)b; return x; });
        uint64_t val = 0; int m = model_bm(nm, s, &val); val = (uint64_t)(I)val;
        if(intact) cx.check(!r.raised && r.ret == want, "intact-misread", what + " of " + sim::quote(s) + (r.raised ? " raised an error" : " gave " + std::to_string(r.ret)) + ", it denotes " + std::to_string(want));
        if(m < 0) cx.check(r.raised, "untruthful", what + " of " + sim::quote(s) + " gave " + std::to_string(r.ret) + ", it denotes nothing");
        else if(r.raised) cx.check(m == 0, "untruthful", what + " of " + sim::quote(s) + " raised an error, it denotes " + std::to_string(val));
        else cx.check(r.ret == val, "untruthful", what + " of " + sim::quote(s) + " gave " + std::to_string(r.ret) + ", it denotes " + std::to_string(val));
        cx.probe(r.raised ? "rejected" : intact ? "intact-accepted" : "damaged-accepted");
        // a single name: by length, and as a C string
        std::string n = s.substr(0, s.find('\0')); n = n.substr(0, n.find('|')); uint64_t nv = 0; bool known = nm.find(n, &nv);
        r = read_all(cx, "find(name,len)", n, [&](csubstr v) { Res x; auto const *p = v.str ? c4::esyms<E>().find(v.str, v.len) : nullptr; x.ok = true; x.ret = p ? (uint64_t)p->value : npos; return x; });
        cx.check(r.ret == (known ? nv : npos), "untruthful", "find() of the name " + sim::quote(n) + " gave symbol " + std::to_string((long long)r.ret));
        std::string nz = n + '\0';
        r = read_all(cx, "str2e", nz, [&](csubstr v) { Res x; x.ret = (uint64_t)c4::str2e<E>(v.str); x.ok = true; return x; });
        cx.check(r.raised == !known && (r.raised || r.ret == nv), "untruthful", "str2e() of the name " + sim::quote(n) + (r.raised ? " raised an error" : " gave " + std::to_string(r.ret)));
        switch(cx.draw(3)) {
        case 0: r = read_all(cx, "find(name)", nz, [&](csubstr v) { Res x; auto const *p = c4::esyms<E>().find(v.str); x.ret = p ? (uint64_t)p->value : npos; x.ok = true; return x; });
            cx.check(!r.raised && r.ret == (known ? nv : npos), "untruthful", "find() of the C string " + sim::quote(n) + " gave symbol " + std::to_string((long long)r.ret)); break;
        case 1: r = read_all(cx, "get(name)", nz, [&](csubstr v) { Res x; auto const *p = c4::esyms<E>().get(v.str); x.ret = p ? (uint64_t)p->value : npos; x.ok = true; return x; });
            cx.check(r.raised == !known && (r.raised || r.ret == nv), "untruthful", "get() of the C string " + sim::quote(n) + (r.raised ? " raised an error" : " gave " + std::to_string((long long)r.ret))); break;
        default: if(n.empty()) break; r = read_all(cx, "get(name,len)", n, [&](csubstr v) { Res x; auto const *p = c4::esyms<E>().get(v.str, v.len); x.ret = p ? (uint64_t)p->value : npos; x.ok = true; return x; });
            cx.check(r.raised == !known && (r.raised || r.ret == nv), "untruthful", "get() of the name " + sim::quote(n) + (r.raised ? " raised an error" : " gave " + std::to_string((long long)r.ret))); break;
        }
        // by value, and by position
        auto const sy = c4::esyms<E>(); I ev = (I)cx.draw(256); if(cx.draw(2)) ev = (I)want; const char *en = nullptr; for(auto const& y : sy) if((I)y.value == ev) { en = y.name; break; }
        auto const *p = sy.find((E)ev); cx.check(en ? p && p->name == en : !p, "untruthful", "find() of the value " + std::to_string((long long)ev) + " gave " + (p ? p->name : "nothing"));
        const char *gn = nullptr; bool ra = c4err_raised([&] { gn = sy.get((E)ev)->name; }); cx.check(ra == !en && (ra || gn == en), "untruthful", "get() of the value " + std::to_string((long long)ev) + (ra ? " raised an error" : " gave another symbol"));
        size_t ix = cx.draw((uint32_t)sy.size() + 3); ra = c4err_raised([&] { gn = sy[ix].name; }); cx.check(ra == (ix >= sy.size()) && (ra || gn == (sy.begin() + ix)->name), "untruthful", "the symbol at position " + std::to_string(ix) + (ra ? " raised an error" : " was given"));
    };
    for(uint32_t j = cx.draw(5); j; --j) attempt(damage(cx, text), false);
    attempt(text, true);
}
static void run_enum(Ctx &cx) { if(cx.draw(2)) run_enum_of<Plain>(cx, false); else run_enum_of<Scoped>(cx, true); }

void sim_run(Ctx &cx) {
    static const uint32_t w[] = {10, 8, 4, 3, 2, 2, 2, 3};
    switch(cx.weighted(w)) { case 0: run_scalar(cx); break; case 1: run_pack(cx); break; case 2: run_checked(cx); break; case 3: run_base64(cx); break; case 4: run_utf(cx); break; case 5: run_raw(cx); break; case 6: run_text(cx); break; default: run_enum(cx); }
}
