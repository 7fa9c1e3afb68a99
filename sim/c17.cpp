// C17: views of one shared buffer: selections name what they say, edits stay
// inside their view, and piecewise consumption conserves the text.
#include "sim.hpp"
#include "c4err.hpp"
#include <c4/substr.hpp>
#include <functional>
#include <memory>
#include <algorithm>
using sim::Ctx; using c4::substr; using c4::csubstr;
namespace {
constexpr size_t npos = (size_t)-1;
#ifdef NDEBUG
constexpr bool asserting = false;
#else
constexpr bool asserting = true;
#endif
sim::Guarded gb; Ctx *g; std::string mem; // mem: what every byte of the page should be
char *base() { return gb.base; }
std::string num(size_t v) { return v == npos ? "npos" : std::to_string(v); }
struct Reg { size_t a, n; };               // a region of the page, by offset
std::string text(Reg r) { return mem.substr(r.a, r.n); }
substr make(Reg r) { char *p = base() + r.a; switch(g->draw(3)) { case 0: return substr(p, r.n); case 1: return substr(p, p + r.n); default: { substr s; s.assign(p, r.n); return s; } } }
csubstr cmake(Reg r) { return make(r); }
void whole(const char *op) {               // nothing changed but what the model changed
    if(!memcmp(base(), mem.data(), mem.size())) return;
    size_t i = 0; while(base()[i] == mem[i]) ++i;
    g->fail("wrong-bytes", std::string(op) + ": byte " + std::to_string(i) + " is " + sim::quote(base() + i, 1) + ", should be " + sim::quote(&mem[i], 1));
}
std::string alpha; char sep;
char any() { return alpha[g->draw((uint32_t)alpha.size())]; }
std::string word(uint32_t max) { std::string s(g->draw(max + 1), 0); for(char &c : s) c = any(); return s; }
std::string piece(Reg r, uint32_t max) { // a pattern: text that occurs, or a random one
    if(r.n && g->draw(3)) { size_t a = g->draw((uint32_t)r.n), n = 1 + g->draw((uint32_t)std::min<size_t>(max, r.n - a)); if(n > r.n - a) n = r.n - a; return mem.substr(r.a + a, n); }
    std::string s = word(max); if(s.empty()) s += any(); return s;
}
// a view handed to the library from its own exactly sized, guarded place
struct Arg { std::string s; explicit Arg(std::string v) : s(std::move(v)) { s.shrink_to_fit(); } operator csubstr() const { return csubstr(s.data(), s.size()); } };

// ---- selections: model result as region relative to r (npos first = anything empty)
struct Sel { size_t a, n; bool exact; };   // exact: position matters even if empty
size_t m_first_of(std::string const& s, std::string const& cs, size_t st) { for(size_t i = st; i < s.size(); ++i) if(cs.find(s[i]) != npos) return i; return npos; }
size_t m_last_of(std::string const& s, std::string const& cs, size_t st) { for(size_t i = std::min(st, s.size()); i-- > 0;) if(cs.find(s[i]) != npos) return i; return npos; }
size_t m_first_not(std::string const& s, std::string const& cs, size_t st) { for(size_t i = st; i < s.size(); ++i) if(cs.find(s[i]) == npos) return i; return npos; }
size_t m_last_not(std::string const& s, std::string const& cs, size_t st) { for(size_t i = std::min(st, s.size()); i-- > 0;) if(cs.find(s[i]) == npos) return i; return npos; }
Sel m_pop_left(std::string const& s, char c, bool skip) { size_t b = skip ? m_first_not(s, std::string(1, c), 0) : 0; if(b == npos) return {0, 0, false}; size_t e = s.find(c, b); return {0, e == npos ? s.size() : e, false}; }
Sel m_pop_right(std::string const& s, char c, bool skip) {
    size_t e = s.size(); if(skip) while(e && s[e - 1] == c) --e;
    if(skip && e == 0) return {0, 0, false};
    size_t b = e; while(b && s[b - 1] != c) --b;
    return {b, s.size() - b, false};
}
Sel m_gpop_left(std::string const& s, char c, bool skip) {
    Sel p = m_pop_right(s, c, skip); size_t n = p.a;
    if(n && s[n - 1] == c) { if(!skip) --n; else while(n && s[n - 1] == c) --n; }
    return {0, n, false};
}
Sel m_gpop_right(std::string const& s, char c, bool skip) {
    Sel p = m_pop_left(s, c, skip); size_t b = p.n;
    if(b < s.size() && s[b] == c) { if(!skip) ++b; else while(b < s.size() && s[b] == c) ++b; }
    return {b, s.size() - b, false};
}
Sel m_basename(std::string const& s, char c) { Sel p = m_pop_right(s, c, true); size_t e = p.a + p.n; while(e > p.a && s[e - 1] == c) --e; return {p.a, e - p.a, false}; }
void judge(const char *op, Reg r, csubstr got, Sel want, std::string const& args) {
    g->ev(op, args, got.str ? (uint64_t)(got.str - base()) : 0, (uint64_t)got.len);
    std::string where = std::string(op) + "(" + args + ") of " + sim::quote(text(r)) + ": ";
    if(got.len != want.n) g->fail("wrong-view", where + "a view of " + num(got.len) + " characters, should have " + num(want.n));
    if((got.len || want.exact) && got.str != base() + r.a + want.a) g->fail("wrong-view", where + "the view starts at " + std::to_string(got.str - (base() + r.a)) + ", should at " + num(want.a));
    if(!got.len && got.str && (got.str < base() + r.a || got.str > base() + r.a + r.n)) g->fail("outside", where + "an empty view outside the text");
}
// picks one selection, judges it, returns the selected region
Reg select(Reg r) {
    std::string s = text(r); substr v = make(r); csubstr cv = v; bool c = g->draw(2); size_t n = r.n; uint32_t N = (uint32_t)n; Sel w{0, 0, true}; csubstr got; const char *op; std::string args;
    auto both = [&](auto f) { if(c) got = f(cv); else got = f(v); };
    uint32_t which = g->draw(40); g->sig(which);
    switch(which) {
    case 0: { size_t a = g->draw(N + 1); op = "sub"; args = num(a); both([&](auto x) { return csubstr(x.sub(a)); }); w = {a, n - a, true}; break; }
    case 1: { size_t a = g->draw(N + 1), k = g->draw((uint32_t)(n - a) + 1); op = "sub"; args = num(a) + "," + num(k); both([&](auto x) { return csubstr(x.sub(a, k)); }); w = {a, k, true}; break; }
    case 2: { size_t a = g->draw(N + 1); op = "sub"; args = num(a) + ",npos"; both([&](auto x) { return csubstr(x.sub(a, npos)); }); w = {a, n - a, true}; break; }
    case 3: { size_t a = g->draw(N + 1), b = a + g->draw((uint32_t)(n - a) + 1); op = "range"; args = num(a) + "," + num(b); both([&](auto x) { return csubstr(x.range(a, b)); }); w = {a, b - a, true}; break; }
    case 4: { size_t a = g->draw(N + 1); op = "range"; args = num(a); both([&](auto x) { return csubstr(x.range(a)); }); w = {a, n - a, true}; break; }
    case 5: { size_t k = g->draw(N + 2); bool np = k > n; op = "first"; args = np ? "npos" : num(k); both([&](auto x) { return csubstr(x.first(np ? npos : k)); }); w = {0, np ? n : k, true}; break; }
    case 6: { size_t k = g->draw(N + 2); bool np = k > n; op = "last"; args = np ? "npos" : num(k); both([&](auto x) { return csubstr(x.last(np ? npos : k)); }); if(np) k = n; w = {n - k, k, true}; break; }
    case 7: { size_t a = g->draw(N + 1), b = g->draw((uint32_t)(n - a) + 1); op = "offs"; args = num(a) + "," + num(b); both([&](auto x) { return csubstr(x.offs(a, b)); }); w = {a, n - a - b, true}; break; }
    case 8: { size_t k = g->draw(N + 2); bool np = k > n; op = "left_of"; args = np ? "npos" : num(k); both([&](auto x) { return csubstr(x.left_of(np ? npos : k)); }); w = {0, np ? n : k, true}; break; }
    case 9: { size_t k = g->draw(N + 2); bool np = k > n, inc = g->draw(2); op = "left_of"; args = (np ? "npos" : num(k)) + (inc ? ",true" : ",false"); both([&](auto x) { return csubstr(x.left_of(np ? npos : k, inc)); }); w = {0, std::min(n, np ? n : k + inc), true}; break; }
    case 10: { size_t k = g->draw(N + 2); bool np = k > n; op = "right_of"; args = np ? "npos" : num(k); both([&](auto x) { return csubstr(x.right_of(np ? npos : k)); }); size_t a = np ? n : std::min(n, k + 1); w = {a, n - a, true}; break; }
    case 11: { size_t k = g->draw(N + 2); bool np = k > n, inc = g->draw(2); op = "right_of"; args = (np ? "npos" : num(k)) + (inc ? ",true" : ",false"); both([&](auto x) { return csubstr(x.right_of(np ? npos : k, inc)); }); size_t a = np ? n : std::min(n, k + !inc); w = {a, n - a, true}; break; }
    case 12: { size_t a = g->draw(N + 1), k = g->draw((uint32_t)(n - a) + 1); op = "left_of-view"; args = num(a) + "," + num(k); both([&](auto x) { return csubstr(x.left_of(cmake({r.a + a, k}))); }); w = {0, a, true}; break; }
    case 13: { size_t a = g->draw(N + 1), k = g->draw((uint32_t)(n - a) + 1); op = "right_of-view"; args = num(a) + "," + num(k); both([&](auto x) { return csubstr(x.right_of(cmake({r.a + a, k}))); }); w = {a + k, n - a - k, true}; break; }
    case 14: case 15: case 16: { char ch = n && g->draw(2) ? s[g->draw(2) ? 0 : n - 1] : any(); std::string cs(1, ch); size_t b = m_first_not(s, cs, 0), e = m_last_not(s, cs, npos); args = sim::quote(cs);
        if(which == 14) { op = "triml"; both([&](auto x) { return csubstr(x.triml(ch)); }); if(b != npos) w = {b, n - b, false}; else w = {0, 0, false}; }
        else if(which == 15) { op = "trimr"; both([&](auto x) { return csubstr(x.trimr(ch)); }); w = {0, e == npos ? 0 : e + 1, false}; }
        else { op = "trim"; both([&](auto x) { return csubstr(x.trim(ch)); }); if(b != npos) w = {b, e + 1 - b, false}; else w = {0, 0, false}; }
        break; }
    case 17: case 18: case 19: { Arg cs(word(3) + (n && g->draw(2) ? std::string(1, s[n - 1]) : "")); size_t b = m_first_not(s, cs.s, 0), e = m_last_not(s, cs.s, npos); args = sim::quote(cs.s);
        if(which == 17) { op = "triml-any"; both([&](auto x) { return csubstr(x.triml(cs)); }); if(b != npos) w = {b, n - b, false}; else w = {0, 0, false}; }
        else if(which == 18) { op = "trimr-any"; both([&](auto x) { return csubstr(x.trimr(cs)); }); w = {0, e == npos ? 0 : e + 1, false}; }
        else { op = "trim-any"; both([&](auto x) { return csubstr(x.trim(cs)); }); if(b != npos) w = {b, e + 1 - b, false}; else w = {0, 0, false}; }
        break; }
    case 20: { Arg p(g->draw(2) ? s.substr(0, g->draw(N + 1)) + (g->draw(4) == 0 ? "q" : "") : word(3)); op = "stripl"; args = sim::quote(p.s); both([&](auto x) { return csubstr(x.stripl(p)); }); size_t k = s.compare(0, p.s.size(), p.s) == 0 && p.s.size() <= n ? p.s.size() : 0; w = {k, n - k, true}; break; }
    case 21: { std::string q = g->draw(2) ? s.substr(g->draw(N + 1)) : word(3); if(g->draw(4) == 0) q = "q" + q; Arg p(q); op = "stripr"; args = sim::quote(p.s); both([&](auto x) { return csubstr(x.stripr(p)); }); size_t k = q.size() <= n && s.compare(n - q.size(), npos, q) == 0 ? q.size() : 0; w = {0, n - k, true}; break; }
    case 22: { char ch = any(); size_t st = g->draw(N + 1), at = s.find(ch, st); op = "select"; args = sim::quote(&ch, 1) + "," + num(st); both([&](auto x) { return csubstr(x.select(ch, st)); }); w = at == npos ? Sel{0, 0, false} : Sel{at, 1, false}; break; }
    case 23: { Arg p(piece(r, 4)); size_t st = g->draw(N + 1), at = s.find(p.s, st); op = "select-pattern"; args = sim::quote(p.s) + "," + num(st); both([&](auto x) { return csubstr(x.select(p, st)); }); w = at == npos ? Sel{0, 0, false} : Sel{at, p.s.size(), false}; break; }
    case 24: { size_t b = s.find('('), e = b == npos ? npos : s.find(')', b + 1); if(e != npos && s.find('(', b + 1) < e) return r; // no nested pairs
        op = "pair_range"; both([&](auto x) { return csubstr(x.pair_range('(', ')')); }); w = e == npos ? Sel{0, 0, false} : Sel{b, e + 1 - b, false}; break; }
    case 25: { char q = g->draw(2) ? '"' : any(), es = g->draw(3) ? '\\' : any(); if(q == es) return r; size_t b = s.find(q), e = npos; if(b != npos) for(size_t i = b + 1; i < n; ++i) if(s[i] == q && s[i - 1] != es) { e = i; break; }
        op = "pair_range_esc"; args = sim::quote(&q, 1) + "," + sim::quote(&es, 1); both([&](auto x) { return csubstr(x.pair_range_esc(q, es)); }); w = e == npos ? Sel{0, 0, false} : Sel{b, e + 1 - b, false}; break; }
    case 26: { size_t b = s.find('('), e = npos; int d = 0; if(b != npos) for(size_t i = b; i < n; ++i) { if(s[i] == '(') ++d; else if(s[i] == ')' && --d == 0) { e = i; break; } }
        op = "pair_range_nested"; both([&](auto x) { return csubstr(x.pair_range_nested('(', ')')); }); w = e == npos ? Sel{0, 0, false} : Sel{b, e + 1 - b, false}; break; }
    case 27: { op = "unquoted"; both([&](auto x) { return csubstr(x.unquoted()); }); bool q = n >= 2 && s[n - 2] != '\\' && s[0] == s[n - 1] && (s[0] == '"' || s[0] == '\''); w = q ? Sel{1, n - 2, false} : Sel{0, n, false}; break; }
    case 28: { op = "first_non_empty_span"; both([&](auto x) { return csubstr(x.first_non_empty_span()); }); size_t b = m_first_not(s, " \n\r\t", 0); if(b == npos) w = {0, 0, false}; else { size_t e = m_first_of(s, " \n\r\t", b); w = {b, (e == npos ? n : e) - b, false}; } break; }
    case 29: case 30: { bool sk = which == 30; op = "pop_left"; args = sim::quote(&sep, 1) + (sk ? ",true" : ",false"); both([&](auto x) { return csubstr(x.pop_left(sep, sk)); }); w = m_pop_left(s, sep, sk); break; }
    case 31: case 32: { bool sk = which == 32; op = "pop_right"; args = sim::quote(&sep, 1) + (sk ? ",true" : ",false"); both([&](auto x) { return csubstr(x.pop_right(sep, sk)); }); w = m_pop_right(s, sep, sk); break; }
    case 33: { bool sk = g->draw(2); op = "gpop_left"; args = sim::quote(&sep, 1) + (sk ? ",true" : ",false"); both([&](auto x) { return csubstr(x.gpop_left(sep, sk)); }); w = m_gpop_left(s, sep, sk); break; }
    case 34: { bool sk = g->draw(2); op = "gpop_right"; args = sim::quote(&sep, 1) + (sk ? ",true" : ",false"); both([&](auto x) { return csubstr(x.gpop_right(sep, sk)); }); w = m_gpop_right(s, sep, sk); break; }
    case 35: { char ch = g->draw(2) ? sep : '/'; op = "basename"; args = sim::quote(&ch, 1); both([&](auto x) { return ch == '/' ? csubstr(x.basename()) : csubstr(x.basename(ch)); }); w = m_basename(s, ch); break; }
    case 36: { char ch = g->draw(2) ? sep : '/'; op = "dirname"; args = sim::quote(&ch, 1); both([&](auto x) { return ch == '/' ? csubstr(x.dirname()) : csubstr(x.dirname(ch)); }); Sel b = m_basename(s, ch); w = b.n ? Sel{0, b.a, false} : Sel{0, n, false}; break; }
    case 37: { op = "ext"; switch(g->draw(4)) { case 0: both([&](auto x) { return csubstr(x.name_wo_extshort()); }); w = m_gpop_left(s, '.', false); break; case 1: both([&](auto x) { return csubstr(x.name_wo_extlong()); }); w = m_pop_left(s, '.', false); break; case 2: both([&](auto x) { return csubstr(x.extshort()); }); w = m_pop_right(s, '.', false); break; default: both([&](auto x) { return csubstr(x.extlong()); }); w = m_gpop_right(s, '.', false); break; } break; }
    case 38: { op = "iteration"; std::string it; for(char ch : cv) it += ch; if(it != s || v.size() != n || v.empty() != (n == 0) || cv.not_empty() != (n != 0) || v.data() != v.begin() || v.end() != v.begin() + n) g->fail("wrong-view", "iterating a view of " + sim::quote(s) + " gave " + sim::quote(it));
        if(n) { size_t i = g->draw(N); if(v[i] != s[i] || cv[i] != s[i] || &v[i] != base() + r.a + i || v.front() != s[0] || cv.front() != s[0] || cv.back() != s[n - 1] || &v.back() != base() + r.a + n - 1) g->fail("wrong-view", "element access of a view of " + sim::quote(s)); }
        got = cv; w = {0, n, true}; break; }
    default: { op = "copy"; substr x; x = v; substr y(std::move(x)); got = y; w = {0, n, true};
        // views of a private copy, made from C strings and arrays
        std::string z = s.substr(0, s.find('\0')); char *p = &z[0]; const char *cp = z.c_str(); bool ok = true; auto is = [&](csubstr q, const char *b, size_t k) { if(q.str != b || q.len != k) ok = false; };
        if(g->draw(4) == 0) { p = nullptr; cp = nullptr; z.clear(); }
        switch(g->draw(4)) {
        case 0: is(substr(p), p, z.size()); is(csubstr(cp), cp, z.size()); is(csubstr(p), p, z.size()); break;
        case 1: { substr a = v; csubstr b = cv; a.assign(p); b.assign(cp); is(a, p, z.size()); is(b, cp, z.size()); break; }
        case 2: { substr a = v; csubstr b = cv; a = p; b = cp; is(a, p, z.size()); is(b, cp, z.size()); is(c4::to_csubstr(cp), cp, z.size()); is(c4::to_substr(p), p, z.size()); break; }
        default: { char arr[8] = "1234567"; substr a(arr), b, c; b.assign(arr); c = arr; is(a, arr, 7); is(b, arr, 7); is(c, arr, 7); is(c4::to_substr(arr), arr, 7); csubstr d(a); is(d, arr, 7); d = v; is(d, base() + r.a, n); csubstr lit("ab"); if(lit.len != 2) ok = false; substr e(arr); e.assign(arr + 2, arr + 5); is(e, arr + 2, 3); if(e != "345" || e.has_str() != true) ok = false; break; }
        }
        if(!ok) g->fail("wrong-view", "a view made from a C string or array is not the whole of it");
        break; }
    }
    judge(op, r, got, w, args);
    return {r.a + w.a, w.n};
}
// ---- queries
template<class T> void same(const char *op, Reg r, std::string const& args, T got, T want) { g->ev(op, args, (uint64_t)got); if(got != want) g->fail("wrong-answer", std::string(op) + "(" + args + ") of " + sim::quote(text(r)) + " gave " + num((size_t)got) + ", should give " + num((size_t)want)); }
int sgn(int v) { return v < 0 ? -1 : v > 0; }
void query(Reg r, std::vector<Reg> const& all) {
    std::string s = text(r); csubstr v = cmake(r); size_t n = r.n; uint32_t N = (uint32_t)n, which = g->draw(20); g->sig(which + 100);
    char ch = any(); size_t st = g->draw(N + 1); bool def = g->draw(3) == 0; Arg cs(word(3)); std::string q = sim::quote(&ch, 1) + "," + num(st), qs = sim::quote(cs.s) + "," + num(st);
    switch(which) {
    case 0: same("find", r, q, def ? v.find(ch) : v.find(ch, st), s.find(ch, def ? 0 : st)); break;
    case 1: { Arg p(g->draw(8) ? piece(r, 5) : std::string()); same("find-pattern", r, sim::quote(p.s) + "," + num(st), def ? v.find(p) : v.find(p, st), s.find(p.s, def ? 0 : st)); break; }
    case 2: same("count", r, q, v.count(ch, st), (size_t)std::count(s.begin() + (long)st, s.end(), ch)); break;
    case 3: { Arg p(piece(r, 3)); size_t c = 0; for(size_t at = s.find(p.s, st); at != npos; at = s.find(p.s, at + p.s.size())) ++c; same("count-pattern", r, sim::quote(p.s) + "," + num(st), v.count(p, st), c); break; }
    case 4: same("first_of", r, q, def ? v.first_of(ch) : v.first_of(ch, st), m_first_of(s, std::string(1, ch), def ? 0 : st)); break;
    case 5: same("first_of-any", r, qs, def ? v.first_of(cs) : v.first_of(cs, st), m_first_of(s, cs.s, def ? 0 : st)); break;
    case 6: same("last_of", r, q, def ? v.last_of(ch) : v.last_of(ch, st), m_last_of(s, std::string(1, ch), def ? npos : st)); break;
    case 7: same("last_of-any", r, qs, def ? v.last_of(cs) : v.last_of(cs, st), m_last_of(s, cs.s, def ? npos : st)); break;
    case 8: same("first_not_of", r, q, def ? v.first_not_of(ch) : v.first_not_of(ch, st), m_first_not(s, std::string(1, ch), def ? 0 : st)); break;
    case 9: same("first_not_of-any", r, qs, def ? v.first_not_of(cs) : v.first_not_of(cs, st), m_first_not(s, cs.s, def ? 0 : st)); break;
    case 10: same("last_not_of", r, q, def ? v.last_not_of(ch) : v.last_not_of(ch, st), m_last_not(s, std::string(1, ch), def ? npos : st)); break;
    case 11: same("last_not_of-any", r, qs, def ? v.last_not_of(cs) : v.last_not_of(cs, st), m_last_not(s, cs.s, def ? npos : st)); break;
    case 12: { size_t k = g->draw(4); if(n && g->draw(2)) ch = s[0]; same("begins_with", r, q, v.begins_with(ch), n && s[0] == ch); same("begins_with-num", r, q, v.begins_with(ch, k), n >= k && s.compare(0, k, std::string(k, ch)) == 0); same("begins_with_any", r, qs, v.begins_with_any(cs), n && cs.s.find(s[0]) != npos); Arg p(g->draw(2) ? s.substr(0, st) + (g->draw(2) ? "z" : "") : cs.s); same("begins_with-pattern", r, sim::quote(p.s), v.begins_with(p), s.compare(0, p.s.size(), p.s) == 0); break; }
    case 13: { size_t k = g->draw(4); if(n && g->draw(2)) ch = s[n - 1]; same("ends_with", r, q, v.ends_with(ch), n && s[n - 1] == ch); same("ends_with-num", r, q, v.ends_with(ch, k), n >= k && s.compare(n - k, k, std::string(k, ch)) == 0); same("ends_with_any", r, qs, v.ends_with_any(cs), n && cs.s.find(s[n - 1]) != npos); Arg p(g->draw(2) ? (g->draw(2) ? "z" : "") + s.substr(st) : cs.s); same("ends_with-pattern", r, sim::quote(p.s), v.ends_with(p), p.s.size() <= n && s.compare(n - p.s.size(), npos, p.s) == 0); break; }
    case 14: case 15: { // comparisons with another view of the buffer, or with a near copy
        Arg o(which == 14 ? text(all[g->draw((uint32_t)all.size())]) : [&] { std::string t = s; if(n) { if(g->draw(2)) t[g->draw(N)] = any(); if(g->draw(3) == 0) t.resize(g->draw(N + 1)); if(g->draw(3) == 0) t += any(); } return t; }());
        size_t i = 0; while(i < n && i < o.s.size() && s[i] == o.s[i]) ++i; csubstr ov = o; bool eq = s == o.s; std::string a = sim::quote(o.s);
        same("==", r, a, v == ov, eq); same("!=", r, a, v != ov, !eq); same("compare", r, a, v.compare(ov) == 0, eq); same("compare", r, a, v.compare(ov.str, ov.len) == 0, eq);
        if((i < n && s[i] < 0) || (i < o.s.size() && o.s[i] < 0)) break; // order of non-ASCII is not defined
        int c = i < n && i < o.s.size() ? (s[i] < o.s[i] ? -1 : 1) : n < o.s.size() ? -1 : n > o.s.size();
        same("compare", r, a, sgn(v.compare(ov)), c); same("<", r, a, v < ov, c < 0); same("<=", r, a, v <= ov, c <= 0); same(">", r, a, v > ov, c > 0); same(">=", r, a, v >= ov, c >= 0); break; }
    case 16: { bool eq = n == 1 && s[0] == ch; same("==c", r, q, v == ch, eq); same("!=c", r, q, v != ch, !eq); same("c==", r, q, ch == v, eq); if(n && (s[0] < 0 || ch < 0)) break; int c = !n ? -1 : s[0] != ch ? (s[0] < ch ? -1 : 1) : n > 1; same("compare-c", r, q, sgn(v.compare(ch)), c); same("<c", r, q, v < ch, c < 0); same("c>=", r, q, ch >= v, c <= 0); same("c<", r, q, ch < v, c > 0); break; }
    case 17: { Reg o = all[g->draw((uint32_t)all.size())]; size_t a = o.n ? g->draw((uint32_t)o.n) : 0; o = {o.a + a, o.n - a}; if(!o.n || !n) break; bool in = o.a >= r.a && o.a + o.n <= r.a + n, ov = o.a < r.a + n && r.a < o.a + o.n; csubstr w = cmake(o); std::string ar = num(o.a) + "," + num(o.n);
        same("is_super", r, ar, v.is_super(w), in); same("is_sub", r, ar, w.is_sub(v), in); same("overlaps", r, ar, v.overlaps(w), ov); same("overlaps", r, ar, w.overlaps(v), ov); break; }
    default: { std::vector<Arg> ps; uint32_t k = 2 + g->draw(4); for(uint32_t i = 0; i < k; ++i) ps.emplace_back(piece(r, 3)); csubstr::first_of_any_result f;
        switch(k) { case 2: f = v.first_of_any(ps[0], ps[1]); break; case 3: f = v.first_of_any(ps[0], ps[1], ps[2]); break; case 4: f = v.first_of_any(ps[0], ps[1], ps[2], ps[3]); break; default: f = v.first_of_any(ps[0], ps[1], ps[2], ps[3], ps[4]); }
        size_t wp = npos, wi = npos; for(uint32_t i = 0; i < k && i < 5; ++i) { size_t at = s.find(ps[i].s); if(at < wp) { wp = at; wi = i; } }
        std::string a; for(auto &p : ps) a += sim::quote(p.s); same("first_of_any pos", r, a, f.pos, wp); same("first_of_any which", r, a, f.which, wi); same("first_of_any", r, a, (bool)f, wp != npos); break; }
    }
}
// ---- edits of a view; returns the region the edited text now has
Reg edit(Reg r, std::vector<Reg> const& other) {
    substr v = make(r); size_t n = r.n; uint32_t N = (uint32_t)n, which = g->draw(14); g->sig(which + 200); char *m = &mem[0] + r.a; Reg out = r; const char *op; substr got = v;
    switch(which) {
    case 0: { char ch = any(); op = "fill"; v.fill(ch); std::fill(m, m + n, ch); break; }
    case 1: op = "toupper"; v.toupper(); for(size_t i = 0; i < n; ++i) if(m[i] >= 'a' && m[i] <= 'z') m[i] = (char)(m[i] - 32); break;
    case 2: op = "tolower"; v.tolower(); for(size_t i = 0; i < n; ++i) if(m[i] >= 'A' && m[i] <= 'Z') m[i] = (char)(m[i] + 32); break;
    case 3: case 4: { // from elsewhere, or from a disjoint view of the same buffer
        Arg ext(word(12)); csubstr from = ext; std::string t = ext.s; if(which == 4 && !other.empty()) { Reg o = other[g->draw((uint32_t)other.size())]; from = cmake(o); t = text(o); }
        size_t at = g->draw(N + 1), k = n - at; op = "copy_from"; uint32_t form = g->draw(3); if(form == 0) { at = 0; k = n; v.copy_from(from); } else if(form == 1) v.copy_from(from, at); else { k = g->draw((uint32_t)k + 1); v.copy_from(from, at, k); }
        memcpy(m + at, t.data(), std::min(k, t.size())); break; }
    case 5: op = "reverse"; v.reverse(); std::reverse(m, m + n); break;
    case 6: { size_t a = g->draw(N + 1), k = g->draw((uint32_t)(n - a) + 1); op = "reverse_sub"; v.reverse_sub(a, k); std::reverse(m + a, m + a + k); break; }
    case 7: { size_t a = g->draw(N + 1), b = a + g->draw((uint32_t)(n - a) + 1); op = "reverse_range"; v.reverse_range(a, b); std::reverse(m + a, m + b); break; }
    case 8: case 9: case 10: { size_t a = g->draw(N + 1), k = g->draw((uint32_t)(n - a) + 1); if(which == 8) { op = "erase"; got = v.erase(a, k); } else if(which == 9) { op = "erase_range"; got = v.erase_range(a, a + k); } else { if(!n) return r; op = "erase-view"; got = v.erase(cmake({r.a + a, k})); }
        std::string t(m, n); t.erase(a, k); memcpy(m, t.data(), t.size()); out.n = n - k; break; } // the bytes behind stay
    case 11: { char a = any(), b = any(); size_t st = g->draw(N + 2), k = 0; bool np = st > n; op = "replace"; size_t c = g->draw(3) == 0 ? (st = 0, np = false, v.replace(a, b)) : v.replace(a, b, np ? npos : st); for(size_t i = np ? n : st; i < n; ++i) if(m[i] == a) { m[i] = b; ++k; } if(c != k) g->fail("wrong-answer", "replace reported " + num(c) + " replacements, made " + num(k)); break; }
    case 12: { Arg cs(word(3)); char b = any(); size_t st = g->draw(N + 2), k = 0; bool np = st > n; op = "replace-any"; size_t c = v.replace(csubstr(cs), b, np ? npos : st); for(size_t i = np ? n : st; i < n; ++i) if(cs.s.find(m[i]) != npos) { m[i] = b; ++k; } if(c != k) g->fail("wrong-answer", "replace of any of " + sim::quote(cs.s) + " reported " + num(c) + " replacements, should make " + num(k)); break; }
    default: { // rewrite into a disjoint view: only that one may change
        if(other.empty()) return r; Reg o = other[g->draw((uint32_t)other.size())]; Arg p(piece(r, 3)), q(word(4)); size_t st = g->draw(N + 1); std::string s = text(r), t = s.substr(0, st); for(size_t i = st; i < n;) { if(s.compare(i, p.s.size(), p.s) == 0) { t += q.s; i += p.s.size(); } else t += s[i++]; }
        op = "replace_all"; substr d = make(o); size_t c = v.replace_all(d, p, q, st); if(c != t.size()) g->fail("wrong-answer", "replace_all of " + sim::quote(p.s) + " by " + sim::quote(q.s) + " in " + sim::quote(s) + " reported " + num(c) + ", should " + num(t.size()));
        if(c > o.n) { g->inject("destination-short"); memcpy(&mem[o.a], base() + o.a, o.n); } else memcpy(&mem[o.a], t.data(), c); break; }
    }
    g->ev(op, (uint64_t)r.a, (uint64_t)r.n, (uint64_t)got.len, text(r));
    if(got.str != base() + out.a || got.len != out.n) g->fail("wrong-view", std::string(op) + ": the view of what remains is wrong");
    whole(op); return out;
}
// ---- requests outside the view: rejected by the assertions, changing nothing
void reject(Reg r) {
    if(!asserting) return;
    substr v = make(r); size_t n = r.n, off = n + 1 + g->draw(5); char ch = any(); Arg cs(word(2)); uint32_t which = g->draw(14); g->inject("request-outside-the-view"); g->sig(which + 300); const char *op = "?"; bool raised = false;
    try {
        switch(which) {
        case 0: op = "find"; (void)v.find(csubstr(cs), off); break;
        case 1: op = "first_of"; (void)v.first_of(ch, off); break;
        case 2: op = "last_of"; (void)v.last_of(ch, off); break;
        case 3: op = "first_not_of"; (void)v.first_not_of(ch, off); break;
        case 4: op = "last_not_of"; (void)v.last_not_of(csubstr(cs), off); break;
        case 5: op = "count"; (void)v.count(ch, off); break;
        case 6: op = "erase"; { size_t a = g->draw((uint32_t)n + 1); v.erase(a, n - a + 1 + g->draw(3)); } break;
        case 7: op = "erase_range"; { size_t a = g->draw((uint32_t)n + 1); if(g->draw(2)) v.erase_range(a + 1, a); else v.erase_range(a, off); } break;
        case 8: op = "copy_from"; v.copy_from(csubstr(cs), off); break;
        case 9: op = "copy_from"; { Arg t(std::string(n + 8, 'z')); size_t a = g->draw((uint32_t)n + 1); v.copy_from(csubstr(t), a, n - a + 1 + g->draw(3)); } break;
        case 10: op = "reverse_sub"; { size_t a = g->draw((uint32_t)n + 1); v.reverse_sub(a, n - a + 1 + g->draw(3)); } break;
        case 11: op = "reverse_range"; v.reverse_range(g->draw((uint32_t)n + 1), off); break;
        case 12: op = "replace"; v.replace(ch, any(), off); break;
        default: op = "first_of-any"; (void)v.first_of(csubstr(cs), off); break;
        }
    } catch(C4Error const&) { raised = true; }
    g->ev("rejected", op, raised); if(!raised) g->fail("not-rejected", std::string(op) + ": a request outside the view went through in a build with assertions"); whole(op);
}
// ---- the clients of the buffer, scheduled one step at a time
struct Task { Reg r; bool done = false; virtual ~Task() {} virtual void step(std::vector<Reg> const& other) = 0; virtual bool edits() const { return false; } };
std::vector<std::string> fields_of(std::string const& s) { std::vector<std::string> f; if(s.empty()) return f; size_t b = 0; for(;;) { size_t e = s.find(sep, b); if(e == npos) { f.push_back(s.substr(b)); return f; } f.push_back(s.substr(b, e - b)); b = e + 1; } }
void scribble(Reg f) { // the client works in place on a field it was given
    if(!f.n || !g->draw(3)) return; substr v = make(f); switch(g->draw(3)) { case 0: v.toupper(); for(size_t i = 0; i < f.n; ++i) if(mem[f.a + i] >= 'a' && mem[f.a + i] <= 'z') mem[f.a + i] = (char)(mem[f.a + i] - 32); break; case 1: v.reverse(); std::reverse(mem.begin() + (long)f.a, mem.begin() + (long)(f.a + f.n)); break; default: v.fill(sep); std::fill(mem.begin() + (long)f.a, mem.begin() + (long)(f.a + f.n), sep); } whole("scribble");
}
void deliver(std::vector<std::string> const& want, size_t &k, Reg r, csubstr f, size_t start = 0) {
    g->ev("field", (uint64_t)k, f.str ? (uint64_t)(f.str - base()) : 0, (uint64_t)f.len);
    if(k >= want.size()) g->fail("field-repeated", "a field more than the " + std::to_string(want.size()) + " there are");
    if(f.len && (f.str < base() + r.a || f.len > r.n || f.str + f.len > base() + r.a + r.n)) g->fail("outside", "a field outside the text");
    size_t at = start; for(size_t i = 0; i < k; ++i) at += want[i].size() + 1; if(f.str != base() + r.a + at) g->fail("wrong-field", "field " + std::to_string(k) + " is at " + std::to_string(f.str - (base() + r.a)) + ", should be at " + std::to_string(at));
    std::string got(f.len ? f.str : "", f.len); if(got != want[k]) g->fail("wrong-field", "field " + std::to_string(k) + " is " + sim::quote(got) + ", should be " + sim::quote(want[k])); ++k;
}
struct Splitter : Task { // next_split with nothing kept but the position
    std::vector<std::string> want; size_t pos = 0, k = 0, extra = 0; explicit Splitter(Reg q) { r = q; want = fields_of(text(q)); }
    void step(std::vector<Reg> const&) override {
        if(g->fault("restart-from-position", 1, 6)) { size_t p = pos; pos = p; }
        bool c = g->draw(2), more; csubstr f; substr w; if(c) more = cmake(r).next_split(sep, &pos, &f); else { more = make(r).next_split(sep, &pos, &w); f = w; }
        if(!more) { if(f.len) g->fail("wrong-field", "a field that is not empty after the last"); if(k != want.size()) g->fail("field-lost", std::to_string(k) + " fields of " + std::to_string(want.size()) + " delivered"); if(++extra > 2) done = true; return; }
        deliver(want, k, r, f); if(f.len) scribble({(size_t)(f.str - base()), f.len});
    }
};
struct Iterator : Task { // a split() iterator kept across steps
    std::vector<std::string> want; size_t k = 0, start = 0; csubstr v; using Proxy = csubstr::split_proxy; std::unique_ptr<Proxy> px; using It = decltype(std::declval<Proxy>().begin()); std::unique_ptr<It> it;
    explicit Iterator(Reg q) { r = q; v = cmake(q); std::string s = text(q); if(s.size() && g->draw(3) == 0) { size_t e = s.find(sep); if(e != npos && e + 1 < s.size()) start = e + 1; } want = fields_of(s.substr(start)); px.reset(new Proxy(v.split(sep, start))); it.reset(new It(px->begin())); }
    void step(std::vector<Reg> const&) override {
        It end = px->end(); bool fin = *it == end; if(fin == (*it != end)) g->fail("wrong-answer", "split iterators are neither equal nor different");
        if(fin) { if(k != want.size()) g->fail("field-lost", std::to_string(k) + " fields of " + std::to_string(want.size()) + " delivered by split()"); done = true; return; }
        It at = *it; csubstr f; if(g->draw(2)) { f = **it; ++*it; } else { It old = (*it)++; f = *old; if(!(old == at)) g->fail("wrong-answer", "a copied split iterator differs from its original"); }
        if(at->len != f.len) g->fail("wrong-field", "operator-> of a split iterator"); deliver(want, k, r, f, start); if(f.len) scribble({(size_t)(f.str - base()), f.len});
    }
};
struct Popper : Task { // pop_left/gpop_right or pop_right/gpop_left until nothing is left
    Reg rest; size_t steps = 0; bool left, skip; explicit Popper(Reg q) { r = rest = q; left = g->draw(2); skip = g->draw(2); }
    void step(std::vector<Reg> const&) override {
        std::string s = text(rest); substr v = make(rest); std::string a = sim::quote(&sep, 1) + (skip ? ",true" : ",false");
        csubstr f = left ? v.pop_left(sep, skip) : v.pop_right(sep, skip), q = left ? v.gpop_right(sep, skip) : v.gpop_left(sep, skip);
        Sel wf = left ? m_pop_left(s, sep, skip) : m_pop_right(s, sep, skip), wq = left ? m_gpop_right(s, sep, skip) : m_gpop_left(s, sep, skip);
        judge(left ? "pop_left" : "pop_right", rest, f, wf, a); judge(left ? "gpop_right" : "gpop_left", rest, q, wq, a);
        if(++steps > r.n + 2) g->fail("no-progress", "popping fields does not end"); if(!s.empty() && q.len >= s.size()) g->fail("no-progress", "popping a field left as much as there was"); Reg nf{rest.a + wf.a, wf.n}; rest = {rest.a + wq.a, wq.n}; if(s.empty()) { done = true; return; } scribble(nf);
    }
};
struct Lines : Task { // lines out of a stream that arrives in pieces, through a buffer compacted in place
    std::string stream, sofar, given; size_t at = 0, n = 0, idle = 0; explicit Lines(Reg q) { r = q; for(uint32_t k = g->draw(6); k--;) { stream += word(10); stream += sep; } stream += word(4); }
    void step(std::vector<Reg> const&) override {
        substr all = make(r), v = all.first(n); size_t e = g->draw(2) ? v.first_of(sep) : v.find(sep); size_t me = text({r.a, n}).find(sep); if(e != me) g->fail("wrong-answer", "the separator in " + sim::quote(text({r.a, n})) + " was found at " + num(e));
        if(e != npos) { csubstr line = g->draw(2) ? v.left_of(e) : v.first(e); judge("line", {r.a, n}, line, {0, e, true}, num(e)); given.append(mem, r.a, e + 1); csubstr rest = v.right_of(e); judge("right_of", {r.a, n}, rest, {e + 1, n - e - 1, true}, num(e)); substr left; switch(g->draw(3)) { case 0: left = v.erase(0, e + 1); break; case 1: left = v.erase_range(0, e + 1); break; default: left = v.erase(csubstr(v.str, e + 1)); } memmove(&mem[r.a], &mem[r.a + e + 1], n - e - 1); n -= e + 1; if(left.len != n || left.str != all.str) g->fail("wrong-view", "what remains after a line was taken out is not what remains"); whole("take-line"); return; }
        if(n == r.n) { if(!n) { done = true; return; } g->inject("buffer-full"); given.append(mem, r.a, n); n = v.erase(0, n).len; if(n) g->fail("wrong-view", "erasing everything left something"); whole("drain"); return; }
        if(at == stream.size()) { given.append(mem, r.a, n); g->ev("end-of-stream", given); if(given != stream) g->fail("field-lost", "the lines read, " + sim::quote(given) + ", are not the stream " + sim::quote(stream)); done = true; return; }
        size_t room = r.n - n, k = std::min(room, stream.size() - at); if(g->fault("short-read", 1, 2)) k = g->draw((uint32_t)k + 1); if(!k) { g->inject("no-data"); if(++idle > 40) done = true; return; }
        Arg chunk(stream.substr(at, k)); if(g->draw(2)) all.copy_from(csubstr(chunk), n); else all.copy_from(csubstr(chunk), n, k); memcpy(&mem[r.a + n], chunk.s.data(), k); n += k; at += k; g->ev("read", (uint64_t)k, (uint64_t)n); whole("append");
    }
};
struct Editor : Task { Reg cur; size_t n = 0; std::vector<Reg> const *all; Editor(Reg q, std::vector<Reg> const *a) : all(a) { r = cur = q; } bool edits() const override { return true; }
    void step(std::vector<Reg> const& other) override {
        switch(g->draw(8)) { case 0: case 1: case 2: cur = edit(cur, other); break; case 3: case 4: cur = select(cur); break; case 5: query(cur, *all); break; case 6: reject(cur); break; default: cur = r; }
        if(++n > 14) done = true;
    } };
struct Observer : Task { size_t n = 0; std::vector<Reg> const *all; Observer(Reg q, std::vector<Reg> const *a) : all(a) { r = q; }
    void step(std::vector<Reg> const&) override { Reg x = (*all)[g->draw((uint32_t)all->size())]; for(uint32_t k = g->draw(3); k--;) x = select(x); if(g->draw(3)) query(x, *all); else select(x); if(++n > 12) done = true; } };
}
void sim_init() { gb.init(1); c4err_install(); }
void sim_run(Ctx &cx) {
    g = &cx; static const char *alphas[] = {"ab/", "ab/. ", "a/b(c)", "ab\"'\\/", "aBz,.\n ", "a,\xe9\0x80"}; uint32_t al = cx.draw(6); alpha = al == 5 ? std::string("a,\xe9\0x\x80Z", 7) : std::string(alphas[al]); sep = al == 0 || al == 1 || al == 2 || al == 3 ? '/' : ',' ; if(cx.draw(6) == 0) sep = alpha[cx.draw((uint32_t)alpha.size())];
    mem.assign(gb.cap(), '~'); size_t total = cx.draw(8) == 0 ? cx.draw(3) : 4 + cx.draw(60), start = cx.draw(3) == 0 ? gb.cap() - total : cx.draw(2) ? 0 : 64 + cx.draw(32);
    for(size_t i = 0; i < total; ++i) mem[start + i] = any();
    memcpy(base(), mem.data(), mem.size()); cx.ev("text", mem.substr(start, total), (uint64_t)start);
    uint32_t nt = 1 + cx.draw(4); std::vector<size_t> cut; for(uint32_t i = 0; i + 1 < nt; ++i) cut.push_back(cx.draw((uint32_t)total + 1)); cut.push_back(0); cut.push_back(total); std::sort(cut.begin(), cut.end());
    std::vector<Reg> regs; for(uint32_t i = 0; i < nt; ++i) regs.push_back({start + cut[i], cut[i + 1] - cut[i]});
    std::vector<std::unique_ptr<Task>> tasks; std::vector<uint32_t> kinds;
    for(uint32_t i = 0; i < nt; ++i) { uint32_t k = cx.draw(8); kinds.push_back(k); switch(k) { case 0: tasks.emplace_back(new Splitter(regs[i])); break; case 1: tasks.emplace_back(new Iterator(regs[i])); break; case 2: tasks.emplace_back(new Popper(regs[i])); break; case 3: tasks.emplace_back(new Lines(regs[i])); break; case 4: tasks.emplace_back(new Observer(regs[i], &regs)); break; default: tasks.emplace_back(new Editor(regs[i], &regs)); } cx.ev("task", k, (uint64_t)regs[i].a, (uint64_t)regs[i].n); cx.sig(k); }
    size_t steps = 0; uint32_t last = 0;
    for(;;) {
        std::vector<uint32_t> live; for(uint32_t i = 0; i < nt; ++i) if(!tasks[i]->done) live.push_back(i); if(live.empty()) break;
        if(++steps > 4000) cx.fail("no-progress", "the clients do not finish");
        uint32_t t = live[cx.draw((uint32_t)live.size())]; if(t != last) { cx.nontrivial = true; ++cx.sh->sw_total; } last = t;
        std::vector<Reg> other; for(uint32_t i = 0; i < nt; ++i) if(i != t && tasks[i]->edits()) other.push_back(regs[i]);
        tasks[t]->step(other); whole("step"); if(cx.exhausted()) break;
    }
}
