// C14: concurrent use on separate data gives the same results as use alone.
// Every thread runs a drawn script of library calls on its own data, pre-empted
// at drawn instructions; what each call yields is compared with the same
// script run alone in a fresh copy of the process.
#include "vals.hpp"
#include "thr.hpp"
#include "c4err.hpp"
#include <c4/utf.hpp>
#include <c4/bitmask.hpp>
#include <c4/dump.hpp>
#include <c4/hash.hpp>
#include <c4/type_name.hpp>
#include <c4/memory_resource.hpp>
#include <c4/memory_util.hpp>
#include <c4/allocator.hpp>
#include <c4/span.hpp>
#include <c4/szconv.hpp>
#include <c4/ext/sg14/inplace_function.h>
#include <c4/ext/rng/rng.hpp>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
using namespace vals;
enum Bm : unsigned { B_NONE = 0, B_ONE = 1, B_TWO = 2, B_FOUR = 4, B_THREE = 3, B_ALL = 7 };
enum class Sc : uint8_t { S_X = 1, S_Y = 2, S_XY = 3 };
namespace c4 {
template<> EnumSymbols<Bm> const esyms<Bm>() { static const EnumSymbols<Bm>::Sym s[] = {{B_NONE, "B_NONE"}, {B_ONE, "B_ONE"}, {B_TWO, "B_TWO"}, {B_FOUR, "B_FOUR"}, {B_THREE, "B_THREE"}, {B_ALL, "B_ALL"}}; return EnumSymbols<Bm>(s); }
template<> size_t eoffs_pfx<Bm>() { return 2; }
template<> EnumSymbols<Sc> const esyms<Sc>() { static const EnumSymbols<Sc>::Sym s[] = {{Sc::S_X, "Sc::S_X"}, {Sc::S_Y, "Sc::S_Y"}, {Sc::S_XY, "Sc::S_XY"}}; return EnumSymbols<Sc>(s); }
template<> size_t eoffs_cls<Sc>() { return 4; }
template<> size_t eoffs_pfx<Sc>() { return 6; }
} // namespace c4
namespace {
enum Kind { kIntW, kIntR, kRealW, kRealR, kCat, kUncat, kDump, kDumpResume, kContainer, kSub, kReplace, kSplit, kBase64, kUtf, kBm, kEnum, kHash, kType, kAlign, kAlloc, kAllocator, kLinear, kError, kSpans, kFunc, kWarn, kMisc, kPtrRw, kRawRw, kGrow, kDumpTpl, kStdRead, kNumForms, kRng, kSpanRs, kB64Read, kN };
const char *kname[] = {"int-write", "int-read", "real-write", "real-read", "cat/catsep/format", "uncat/uncatsep/unformat", "dump", "dump-resume", "container", "substr", "replace", "split", "base64", "utf", "bitmask", "enum", "hash", "type-name", "align/bool/raw", "aalloc", "allocators", "linear-resource", "error", "number-spans", "inplace_function", "spans-szconv", "misc", "pointer/bool/char", "raw", "growing", "dump-template", "std-read", "write/read-radix", "rng", "span-kinds", "base64-read"};
struct Op { int kind; uint64_t a, b; double x; std::string s, t; uint32_t i, j; };
struct T { std::vector<Op> prog; std::vector<std::string> out; };
T th[4]; int nth;

std::string ss(csubstr s) { return std::string(s.str ? s.str : "", s.len); }
template<class I> std::string intw(Op const& o) {
    char b[160]; substr sb(b, 8 + o.i % 140); I v = (I)o.a; size_t n;
    switch(o.j % 7) { case 0: n = c4::to_chars(sb, v); break; case 1: n = c4::to_chars(sb, c4::fmt::hex(v)); break; case 2: n = c4::to_chars(sb, c4::fmt::oct(v)); break; case 3: n = c4::to_chars(sb, c4::fmt::bin(v)); break; case 4: n = c4::to_chars(sb, c4::fmt::zpad(v, o.i % 30)); break; case 5: n = c4::xtoa(sb, v, (I)16, o.i % 24); break; default: n = c4::xtoa(sb, v, (I)10, o.i % 24); }
    return std::to_string(n) + ":" + (n <= sb.len ? std::string(b, n) : "");
}
template<class I> std::string intr(Op const& o) {
    csubstr v(o.s.data(), o.s.size()); I r = 0; bool ok = o.j & 1 ? c4::from_chars(v, &r) : c4::from_chars_first(v, &r) != csubstr::npos; std::string x = ok ? std::to_string(+r) : "fail";
    r = 0; auto w = c4::fmt::overflow_checked(r); ok = v.len && v.str[0] != '+' && c4::from_chars(v, w); x += ok ? " " + std::to_string(+r) : " ovf"; x += c4::overflows<I>(v) ? "!" : ".";
    return x;
}
template<class F> std::string by_int(uint32_t t, F &&f) { switch(t % 8) { case 0: return f((int8_t*)0); case 1: return f((uint8_t*)0); case 2: return f((int16_t*)0); case 3: return f((uint16_t*)0); case 4: return f((int32_t*)0); case 5: return f((uint32_t*)0); case 6: return f((int64_t*)0); default: return f((uint64_t*)0); } }
struct El { uint64_t v; };
thread_local std::string *tl_sink; void tpl_sink(csubstr s) { if(s.len) tl_sink->append(s.str, s.len); *tl_sink += '/'; }
template<class G> std::string rng(uint64_t a, uint64_t b) { G g; g.seed(a ^ b); std::string r; for(int i = 0; i < 4; ++i) r += std::to_string((uint64_t)g()) + " "; return r; }
std::string exec(Op const& o) {
    char b[1024]; size_t cap = o.i % 200; substr sb(b, cap), big(b, sizeof b); csubstr s(o.s.data(), o.s.size()), t(o.t.data(), o.t.size()); std::string r; auto put = [&](size_t n) { r += std::to_string(n); r += ':'; r.append(b, n < cap ? n : cap); r += ';'; };
    memset(b, '#', sizeof b);
    switch(o.kind) {
    case kIntW: return by_int(o.i / 7, [&](auto *p) { return intw<std::remove_reference_t<decltype(*p)>>(o); });
    case kIntR: return by_int(o.i / 7, [&](auto *p) { return intr<std::remove_reference_t<decltype(*p)>>(o); });
    case kRealW: { int f = (int)(o.j % 4); put(c4::to_chars(sb, o.x)); put(c4::to_chars(sb, (float)o.x)); put(c4::to_chars(sb, c4::fmt::real(o.x, f == 1 || f == 3 ? 4 : (int)(o.j / 4 % 17), realfmt(f)))); put(c4::ftoa(sb, (float)o.x, (int)(o.j % 9), realfmt(f == 1 ? 2 : f))); return r; }
    case kRealR: { double d = 0; float f = 0; bool pre = s.len && s.triml(" \t\r\n").len == s.len; bool ok = pre && c4::from_chars(s, &d); r += ok ? std::to_string(d) : "fail"; ok = pre && c4::from_chars(s, &f); r += ok ? std::to_string(f) : "fail"; d = 0; size_t n = c4::from_chars_first(s, &d); r += std::to_string(n) + "," + std::to_string(n != csubstr::npos ? d : 0.); return r; }
    case kCat: put(c4::cat(sb, o.a, '|', s, o.x, t, (int8_t)o.b)); put(c4::catsep(sb, t, o.b, s, (int16_t)o.a, o.x)); put(c4::format(sb, s, o.a, t, (float)o.x)); return r;
    case kUncat: { size_t n = c4::cat(big, o.a, ' ', (int64_t)o.b, ' ', o.i); uint64_t a = 0; int64_t c = 0; uint32_t d = 0; char q; n = c4::uncat(csubstr(b, n), a, q, c, q, d); r += std::to_string(n) + " " + std::to_string(a) + " " + std::to_string(c) + " " + std::to_string(d); n = c4::format(big, "k={}/{};", o.a, o.i); a = 0; d = 0; n = c4::unformat(csubstr(b, n), "k={}/{};", a, d); r += " " + std::to_string(n) + " " + std::to_string(a) + " " + std::to_string(d); char sep = ','; n = c4::catsep(big, sep, o.b, o.j); a = 0; d = 0; n = c4::uncatsep(csubstr(b, n), sep, a, d); r += " " + std::to_string(n) + " " + std::to_string(a) + " " + std::to_string(d); return r; }
    case kDump: { auto sink = [&](csubstr x) { r.append(x.str, x.len); r += '/'; }; size_t n = c4::cat_dump(sink, sb, o.a, s, o.x, t); r += std::to_string(n) + ";"; n = c4::catsep_dump(sink, sb, t, o.b, s, o.j); r += std::to_string(n) + ";"; n = c4::format_dump(sink, sb, s, o.a, t); return r + std::to_string(n); }
    case kDumpResume: { auto sink = [&](csubstr x) { r.append(x.str, x.len); r += '/'; }; c4::DumpResults q; size_t c = o.i % 6; for(int k = 0; k < 12; ++k) { q = o.j % 3 == 0 ? c4::cat_dump_resume(sink, q, substr(b, c), o.a, s, o.x, t) : o.j % 3 == 1 ? c4::catsep_dump_resume(sink, q, substr(b, c), t, o.b, s, o.x) : c4::format_dump_resume(sink, q, substr(b, c), s, o.a, t); r += std::to_string(q.bufsize) + "," + std::to_string(q.lastok) + ";"; if(q.bufsize <= c) break; c = q.bufsize; if(c > sizeof b) break; } return r; }
    case kContainer: { std::string x(o.j % 5, 'p'); c4::catrs(&x, o.a, s, o.x); c4::catseprs_append(&x, t, o.b, s); c4::formatrs_append(&x, s, o.a, t); std::vector<char> v; c4::formatrs(&v, s, o.b, o.x); r = x; r.append(v.data(), v.size()); return r; }
    case kSub: { for(csubstr z : {s.trim(t), s.triml(' '), s.trimr("z9"), s.stripl(t), s.basename(), s.dirname(), s.extshort(), s.extlong(), s.pop_left('/'), s.pop_right('/'), s.gpop_left('/', true), s.unquoted(), s.pair_range('a', 'b'), s.sub(o.i % (s.len + 1)), s.first(o.i % (s.len + 1))}) { r += ss(z); r += '/'; }
        r += std::to_string(s.find(t)) + "," + std::to_string(s.first_of("ab0")) + "," + std::to_string(s.last_of(t)) + "," + std::to_string(s.first_not_of("a")) + "," + std::to_string(s.count('a')) + "," + std::to_string(s.begins_with(t)) + "," + std::to_string(s.compare(t) > 0) + "," + std::to_string(s.select(t).len);
        auto fo = s.first_of_any("ab", "1", "zz"); r += "," + std::to_string(fo ? fo.which : 99); return r; }
    case kReplace: { c4::csubstr pat = t.len ? t : csubstr("a"); size_t n = s.replace_all(substr(b, cap), pat, "<>"); put(n); std::string m = o.s; substr q(&m[0], m.size()); q.replace('a', 'Z'); q.toupper(); q.reverse(); r += m; q.fill('x'); return r + m; }
    case kSplit: { char sep = o.t.empty() ? ',' : o.t[0]; for(csubstr z : s.split(sep, o.j & 1)) { r += ss(z); r += '\n'; } size_t pos = 0; csubstr z; while(s.next_split(sep, &pos, &z)) { r += ss(z); r += '\t'; } return r; }
    case kBase64: { size_t n = c4::base64_encode(big, c4::cblob(o.s.data(), o.s.size())); r.assign(b, n); char d[256]; size_t m = c4::base64_decode(csubstr(b, n), c4::blob(d, sizeof d)); r += std::to_string(m) + std::string(d, m); r += c4::base64_valid(s) ? "v" : "i"; put(c4::to_chars(sb, c4::fmt::base64(s))); return r; }
    case kUtf: { std::string h = ref_digits(o.a % 0x10ffff + 1, 16); substr q = c4::decode_code_point(substr(b, 8), csubstr(h.data(), h.size())); r = ss(q); uint8_t ub[8]; size_t n = c4::decode_code_point(ub, sizeof ub, (uint32_t)(o.b % 0x10ffff + 1)); return r + std::string((char*)ub, n); }
    case kBm: { unsigned v = (unsigned)(o.a % 8); uint8_t w = (uint8_t)(o.b % 4); size_t n = c4::bm2str<Bm>(v, b, sizeof b, (c4::EnumOffsetType)(o.i % 3)); r.assign(b, n); r += std::to_string(c4::str2bm<Bm>(b, n)); n = c4::bm2str<Sc>(w, b, sizeof b, (c4::EnumOffsetType)(o.j % 3)); r.append(b, n); r += std::to_string(c4::str2bm<Sc>(b, n)); std::ostringstream os; c4::bm2stream<Bm>(os, v); return r + os.str(); }
    case kEnum: { r = c4::e2str((Bm)(o.a % 5)); r += c4::e2stroffs((Sc)(1 + o.b % 3)); r += std::to_string(c4::str2e<Bm>("B_FOUR")); auto *p = c4::esyms<Bm>().find(s.str, s.len); r += p ? p->name : "none"; return r + std::to_string((int)c4::str2e<Sc>(o.j & 1 ? "S_XY" : "X")); }
    case kHash: return std::to_string(c4::hash_bytes(o.s.data(), o.s.size())) + " " + std::to_string(c4::hash_bytes(&o.a, 8));
    case kType: { auto p = [&](c4::cspan<char> z) { r.append(z.data(), z.size()); r += '/'; }; p(c4::type_name<int>()); p(c4::type_name<Bm>()); p(c4::type_name<c4::MemoryResourceCounts>()); if(o.j & 1) p(c4::type_name<std::vector<int>>()); else p(c4::type_name(o.x)); return r; }
    case kAlign: put(c4::to_chars(sb, c4::fmt::left(s, o.j % 40, '-'))); put(c4::to_chars(sb, c4::fmt::right(o.a, o.j % 40))); put(c4::to_chars(sb, c4::fmt::left(o.x, o.j % 40, '*'))); put(c4::to_chars(sb, c4::fmt::boolalpha(o.a & 1))); put(c4::to_chars(sb, c4::fmt::raw(c4::cblob(o.s.data(), o.s.size()), 1))); put(c4::to_chars(sb, (void*)(o.a & 0xffffffffffff))); return r;
    case kAlloc: { size_t al = size_t(16) << o.j % 5, n = 1 + o.i, m = 1 + (o.a % 900); char *p = (char*)c4::aalloc(n, al); r += (uintptr_t)p % al ? "mis" : "al"; for(size_t k = 0; k < n; ++k) p[k] = (char)(k * 7 + o.b); p = (char*)c4::arealloc(p, n, m, al); r += (uintptr_t)p % al ? "mis" : "al"; bool ok = true; for(size_t k = 0; k < n && k < m; ++k) ok &= p[k] == (char)(k * 7 + o.b); for(size_t k = 0; k < m; ++k) p[k] = (char)(k + o.a); for(size_t k = 0; k < m; ++k) ok &= p[k] == (char)(k + o.a); c4::afree(p); return r + (ok ? "kept" : "lost"); }
    case kAllocator: { c4::ScopedMemoryResourceCounts sc; std::vector<El, c4::Allocator<El>> v; for(uint64_t k = 0; k < o.i % 20; ++k) v.push_back(El{o.a + k}); uint64_t h = 0; for(auto &e : v) h = h * 31 + e.v; { c4::SmallAllocator<El, 4> sa; size_t n = 1 + o.j % 8; El *p = sa.allocate(n); for(size_t k = 0; k < n; ++k) p[k].v = o.b + k; p = sa.reallocate(p, n, n + 3); for(size_t k = 0; k < n; ++k) h = h * 31 + p[k].v; sa.deallocate(p, n + 3); } auto c = sc.mr.counts(); return std::to_string(h) + " " + std::to_string(c.curr.allocs) + " " + std::to_string(c.total.allocs) + " " + std::to_string(c.total.size) + " " + std::to_string(c.max.size); }
    case kLinear: { alignas(64) char arena[512]; c4::MemoryResourceLinear lin(arena, sizeof arena); for(int k = 0; k < 4; ++k) { void *p = nullptr; bool e = c4err_raised([&] { p = lin.allocate(1 + (o.a >> k * 8) % 160, size_t(1) << (o.b >> k * 4) % 6); }); if(e) r += "full "; else { memset(p, k, 1); r += std::to_string(lin.size()) + " "; } } return r; }
    case kError: { std::string m; bool e = c4err_raised([&] { C4_CHECK_MSG(o.a == o.b + 1, "thread data %s %d", o.s.c_str(), (int)o.i); }, &m); r = e ? m.substr(m.find("thread data") == std::string::npos ? 0 : m.find("thread data")) : "none"; e = c4err_raised([&] { c4::str2e<Bm>(o.t.c_str()); }, &m); r += e ? m : "found"; e = c4err_raised([&] { C4_ERROR("%.*s", (int)o.s.size(), o.s.data()); }, &m); return r + m; }
    case kSpans: r = ss(s.first_int_span()) + "/" + ss(s.first_uint_span()) + "/" + ss(s.first_real_span()) + "/" + ss(s.first_non_empty_span()); r += s.is_number() ? "n" : "-"; r += s.is_integer() ? "i" : "-"; r += s.is_real() ? "r" : "-"; r += s.is_unsigned_integer() ? "u" : "-"; return r;
    case kFunc: { uint64_t a = o.a; stdext::inplace_function<uint64_t(uint64_t), 64> f = [a](uint64_t y) { return a * 3 + y; }, g = f; stdext::inplace_function<uint64_t(uint64_t), 96> h = g; f = nullptr; bool thrown = false; try { f(1); } catch(std::bad_function_call const&) { thrown = true; } return std::to_string(g(o.b)) + std::to_string(h(o.i)) + (thrown ? "t" : "n"); }
    case kWarn: { c4::span<const char> v(o.s.data(), o.s.size()); for(char c : v) r += c; c4::spanrs<char> w(&b[0], cap, sizeof b); w.resize(cap / 2); r += std::to_string(w.size()) + std::to_string(w.capacity()); return r + std::to_string(c4::szconv<int16_t>(o.i % 30000)) + std::to_string(c4::hash_bytes(o.t.data(), o.t.size())); }
    case kPtrRw: { size_t n = c4::to_chars(big, (void*)(o.a & 0xffffffffffff)); void *p = nullptr; bool ok = c4::from_chars(csubstr(b, n), &p); r += ok ? std::to_string((uintptr_t)p) : "fail"; p = nullptr; n = c4::from_chars_first(csubstr(b, n), &p); r += "," + std::to_string(n) + "," + std::to_string((uintptr_t)p); int *q = nullptr; ok = s.len && c4::from_chars(s, &q); r += ok ? std::to_string((uintptr_t)q) : "fail";
        bool z = false; ok = s.len && s.str[0] != '+' && c4::from_chars(s, &z); r += ok ? (z ? "T" : "F") : "-"; char c = 0; ok = c4::from_chars(t, &c); r += ok ? c : '-'; put(c4::to_chars(sb, o.a & 1 ? true : false)); put(c4::to_chars(sb, (char)('a' + o.i % 26))); put(c4::to_chars(sb, o.s.c_str())); put(c4::to_chars(sb, c4::fmt::hex((void*)(o.b & 0xffffffffffff)))); return r; }
    case kRawRw: { alignas(64) char rb[256]; memset(rb, '.', sizeof rb); size_t al = size_t(1) << o.j % 6, off = o.i % 9; uint64_t v[4] = {o.a, o.b, o.i, o.j}; size_t len = 1 + o.i % 32; size_t n = c4::to_chars(substr(rb + off, 40 + o.j), c4::fmt::raw(c4::cblob((char*)v, len), al)); r = std::to_string(n) + ":" + std::string(rb, sizeof rb);
        if(n <= 40 + o.j) { uint64_t w[4] = {}; c4::fmt::raw_wrapper rw = c4::fmt::raw(c4::blob((char*)w, len), al); bool ok = c4::from_chars(csubstr(rb + off, n), &rw); r += ok ? "ok" : "no"; r.append((char*)w, len); memset(w, 0, sizeof w); n = c4::from_chars_first(csubstr(rb + off, n), &rw); r += std::to_string(n); r.append((char*)w, len); } return r; }
    case kGrow: { std::string x(o.j % 70, 'q'); std::vector<char> v(o.i % 40, 'w'); c4::catseprs(&x, t, o.a, s, o.x, o.b); r += x + "/"; c4::formatrs(&x, "<{}|{}|{}>", s, o.b, o.x); r += x + "/"; c4::catrs_append(&x, s, o.a); r += x + "/"; c4::catseprs(&v, ' ', s, t, o.j); r.append(v.data(), v.size()); csubstr w = c4::formatrs_append(&v, "{}={}", t, o.x); r += "/" + ss(w); r += c4::catrs<std::string>(o.a, s) + c4::formatrs<std::string>("{}~{}", s, o.b) + c4::catseprs<std::string>(',', t, o.i, s); return r; }
    case kDumpTpl: { tl_sink = &r; size_t n = c4::cat_dump<tpl_sink>(sb, o.a, s, o.x, t); r += std::to_string(n) + ";"; n = c4::catsep_dump<tpl_sink>(sb, t, o.b, s, o.j); r += std::to_string(n) + ";"; n = c4::format_dump<tpl_sink>(sb, s, o.a, t); r += std::to_string(n); c4::DumpResults q; size_t c = o.i % 6; for(int k = 0; k < 12; ++k) { q = c4::catsep_dump_resume<tpl_sink>(q, substr(b, c), t, o.b, s, o.a); r += std::to_string(q.bufsize) + "," + std::to_string(q.lastok) + ";"; if(q.bufsize <= c || q.bufsize > sizeof b) break; c = q.bufsize; } return r; }
    case kStdRead: { std::string x; std::vector<char> v; r += c4::from_chars(s, &x) ? x : "-"; r += c4::from_chars(t, &x) ? x : "-"; c4::from_chars(s, &v); r.append(v.data(), v.size()); put(c4::to_chars(sb, o.s)); put(c4::to_chars(sb, std::string_view(o.t))); r += c4::to_csubstr(o.s) == s ? "=" : "!"; substr q(b + 300, 50); bool ok = c4::from_chars(s, &q); r += ok ? ss(q) : "no"; return r; }
    case kNumForms: { put(c4::write_dec(sb, o.a)); put(c4::write_hex(sb, o.a, o.j)); put(c4::write_oct(sb, o.b, o.j)); put(c4::write_bin(sb, o.i, o.j)); put(c4::itoa(sb, (int64_t)o.b)); put(c4::utoa(sb, o.a)); int32_t i = 0; uint64_t u = 0; r += c4::atoi(s, &i) ? std::to_string(i) : "-"; r += c4::atou(s, &u) ? std::to_string(u) : "-"; r += t.len && c4::read_hex(t, &u) ? std::to_string(u) : "-"; r += t.len && c4::read_dec(t, &i) ? std::to_string(i) : "-"; r += std::to_string(c4::atoi_first(s, &i)) + std::to_string(c4::atou_first(s, &u)); return r; }
    case kRng: return o.j % 3 == 0 ? rng<c4::rng::splitmix>(o.a, o.b) : o.j % 3 == 1 ? rng<c4::rng::xorshift>(o.a, o.b) : rng<c4::rng::pcg>(o.a, o.b);
    case kSpanRs: { int m[24]; for(int k = 0; k < 24; ++k) m[k] = (int)(o.a >> (k % 8)) + k; size_t n = o.i % 25; c4::span<int> p(m, n); c4::spanrs<int> q(m, n, 24); c4::spanrsl<int> l(m, n, 24); if(n) { p.rtrim(o.j % n); q.rtrim(o.j % n); l.ltrim(o.j % n); } for(int k : p) r += std::to_string(k) + ","; for(int k : q) r += std::to_string(k) + ","; for(int k : l) r += std::to_string(k) + ","; if(n) { auto f = p.first(o.j % (p.size() + 1)); r += std::to_string(f.size()); } r += std::to_string(l.offset()) + std::to_string(q.capacity()) + (p == q ? "=" : "!"); return r; }
    case kB64Read: { std::string e = ref_base64(o.s); char d[200]; r = c4::base64_valid(csubstr(e.data(), e.size())) ? "v" : "i"; std::string bad = e + t.str[0]; r += c4::base64_valid(csubstr(bad.data(), bad.size())) ? "v" : "i"; if(!e.empty()) { bad = e; bad[o.i % e.size()] = '!'; } r += c4::base64_valid(csubstr(bad.data(), bad.size())) ? "v" : "i"; size_t n = c4::base64_decode(csubstr(e.data(), e.size()), c4::blob(d, sizeof d)); r += std::to_string(n); r.append(d, n); c4::fmt::base64_wrapper w(c4::blob(d, o.s.size())); memset(d, 0, sizeof d); bool ok = !o.s.empty() && c4::from_chars(csubstr(e.data(), e.size()), &w); r += ok ? "ok" : "no"; r.append(d, o.s.size()); return r; }
    default: { char m[64]; c4::mem_repeat(m, "abc", 3, 1 + o.i % 20); r.assign(m, 3 * (1 + o.i % 20)); r += std::to_string(c4::mem_overlaps(m, m + o.i % 9, 4, 4)); uint32_t v = (uint32_t)o.a; r += std::to_string(c4::msb(v | 1)) + std::to_string(c4::lsb(v | 1)) + std::to_string(c4::digits_dec(o.b)) + std::to_string(c4::digits_hex(o.b)); return r; }
    }
}
std::string guarded(Op const& o) { try { return exec(o); } catch(C4Error const& e) { return "error:" + e.msg; } }
void body(void *, int i) { T &t = th[i]; for(size_t k = 0; k < t.prog.size(); ++k) { std::string r = guarded(t.prog[k]); thr::Pause z; t.out.push_back(std::move(r)); } }
std::vector<std::string> alone(T const& t) { std::vector<std::string> v; for(auto &o : t.prog) { std::string r = guarded(o); thr::Pause z; v.push_back(std::move(r)); } return v; }
// in a fresh copy of the process: nothing has been called yet
std::vector<std::string> cold_alone(Ctx &cx, T const& t) {
    int fd[2]; if(pipe(fd)) _exit(93); pid_t p = fork(); if(p < 0) _exit(94);
    if(p == 0) { close(fd[0]); std::string all; thr::record_start(); auto outs = alone(t); thr::record_stop(); { uint32_t n = (uint32_t)thr::hot_count(); all.append((char*)&n, 4); for(uint32_t i = 0; i < n; ++i) { uintptr_t a = thr::hot_at((int)i); all.append((char*)&a, 8); } } for(auto &r : outs) { uint32_t n = (uint32_t)r.size(); all.append((char*)&n, 4); all += r; } size_t k = 0; while(k < all.size()) { ssize_t w = write(fd[1], all.data() + k, all.size() - k); if(w <= 0) _exit(95); k += (size_t)w; } _exit(0); }
    close(fd[1]); std::string all; char b[4096]; ssize_t n; while((n = read(fd[0], b, sizeof b)) > 0) all.append(b, (size_t)n); close(fd[0]); int st = 0; waitpid(p, &st, 0);
    cx.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "crash-alone", "a thread's script crashes when run alone");
    size_t k0 = 0; { uint32_t m = 0; if(all.size() >= 4) memcpy(&m, &all[0], 4); k0 = 4; for(; m && k0 + 8 <= all.size(); --m, k0 += 8) { uintptr_t a; memcpy(&a, &all[k0], 8); thr::hot_add(a); } }
    std::vector<std::string> v; for(size_t k = k0; k + 4 <= all.size();) { uint32_t m; memcpy(&m, &all[k], 4); v.push_back(all.substr(k + 4, m)); k += 4 + m; }
    return v;
}
std::string text(Ctx &cx) {
    static const char *tx[] = {"0x1f", "-12", "3.25e7", "abc/def.ghi.j", "a{}b{}c", "{}-{}", "true", "99999999999999999999", "0b101", "-0o17", " 42 ", "a,b,,c", "inf", "1e400", "B_ONE|B_TWO", "0x1.8p3", "QUJD", "\"quoted\"", "B_THREE", "-128"};
    if(cx.draw(3)) return tx[cx.draw(20)];
    std::string s; for(uint32_t k = cx.draw(30); k; --k) s += "ab01./-{},x z9"[cx.draw(14)]; return s;
}
} // namespace
void sim_init() { c4err_install(); }
void sim_run(Ctx &cx) {
    nth = 1 + (int)cx.draw(4); if(nth == 1) nth = 2;
    bool same = cx.draw(2); int focus = cx.draw(3) ? (int)cx.draw(kN) : -1; // all threads in the same functions collide most
    uint32_t len = 1 + cx.draw(5);
    for(int i = 0; i < nth; ++i) {
        th[i] = T();
        for(uint32_t k = 0; k < len; ++k) {
            Op o; o.kind = focus >= 0 && cx.draw(4) ? focus : same && i ? th[0].prog[k].kind : (int)cx.draw(kN);
            o.a = draw_bits(cx, 64); o.b = draw_bits(cx, 64); o.x = draw_double(cx); o.i = cx.draw(256); o.j = cx.draw(64); o.s = text(cx); o.t = text(cx).substr(0, 1 + cx.draw(6));
            th[i].prog.push_back(o); cx.ev("op", i, kname[o.kind], o.a, o.b, o.s, o.t, (uint64_t)o.i, (uint64_t)o.j); cx.probe(kname[o.kind]);
        }
    }
    std::vector<std::string> want[4]; thr::hot_clear();
    for(int i = 0; i < nth; ++i) want[i] = cold_alone(cx, th[i]);
    if(thr::hot_count()) cx.probe("scripts-write-global-memory");
    bool warm = cx.draw(3) == 0;
    if(warm) { for(int i = 0; i < nth; ++i) { auto v = alone(th[i]); for(size_t k = 0; k < v.size(); ++k) cx.check(v[k] == want[i][k], "history-dependent", std::string(kname[th[i].prog[k].kind]) + " gave " + sim::quote(v[k]) + " after other calls, and " + sim::quote(want[i][k]) + " in a fresh process"); } cx.probe("warm"); } else cx.probe("cold");
    thr::run(cx, nth, &body, nullptr, 2 + cx.draw(40));
    for(int i = 0; i < nth; ++i) {
        cx.check(th[i].out.size() == want[i].size(), "results-differ", "a thread did not finish its script");
        for(size_t k = 0; k < want[i].size(); ++k) { cx.ev("result", i, th[i].out[k]);
            cx.check(th[i].out[k] == want[i][k], "results-differ", "thread " + std::to_string(i) + ", call " + std::to_string(k) + " (" + kname[th[i].prog[k].kind] + "): concurrently " + sim::quote(th[i].out[k].substr(0, 150)) + ", alone " + sim::quote(want[i][k].substr(0, 150))); }
    }
    // and once more alone: nothing was left behind
    for(int i = 0; i < nth; ++i) { auto v = alone(th[i]); for(size_t k = 0; k < v.size(); ++k) cx.check(v[k] == want[i][k], "history-dependent", std::string(kname[th[i].prog[k].kind]) + " gives " + sim::quote(v[k].substr(0, 150)) + " after the threads ran, and " + sim::quote(want[i][k].substr(0, 150)) + " in a fresh process"); }
}
