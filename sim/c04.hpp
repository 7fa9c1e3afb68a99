#ifndef C04_HPP_
#define C04_HPP_
#include "vals.hpp"
#include "c4err.hpp"
#include <new>
namespace c04 {
using namespace vals;

// allocation seam: every allocation made inside a window may fail
struct Heap { Ctx *cx = nullptr; bool on = false; uint32_t num = 0; int64_t live = 0; uint64_t fails = 0, allocs = 0; bool fail(const char *what) { ++allocs; if(!on || !num) return false; on = false; bool f = cx->fault(what, num, 8); on = true; fails += f; return f; } };
extern Heap heap;
struct Window { bool prev; Window() : prev(heap.on) { heap.on = true; } ~Window() { heap.on = prev; } };

// a container as users may supply: moves on every resize, poisons what it leaves
struct SimCont {
    char *p = nullptr; size_t n = 0; size_t resizes = 0;
    SimCont() {}
    SimCont(SimCont &&o) : p(o.p), n(o.n), resizes(o.resizes) { o.p = nullptr; o.n = 0; o.resizes = 0; }
    SimCont(SimCont const&) = delete;
    ~SimCont() { drop(p, n); }
    static void drop(char *q, size_t k) { if(q) { memset(q, '?', k); ::operator delete(q); } }
    SimCont& operator=(SimCont &&o) { if(this != &o) { drop(p, n); p = o.p; n = o.n; resizes += o.resizes; o.p = nullptr; o.n = 0; o.resizes = 0; } return *this; }
    size_t size() const { return n; }
    // what the code may want to use of a container of chars: no spare capacity ever
    using value_type = char; using size_type = size_t; using iterator = char*; using const_iterator = char const*; using reference = char&; using const_reference = char const&;
    size_t length() const { return n; } size_t capacity() const { return n; } bool empty() const { return n == 0; } size_t max_size() const { return SIZE_MAX / 2; }
    char *data() { return p; } char const* data() const { return p; } char *begin() { return p; } char *end() { return p + n; } char const* begin() const { return p; } char const* end() const { return p + n; } char const* cbegin() const { return p; } char const* cend() const { return p + n; }
    char &operator[](size_t i) { return p[i]; } char const& operator[](size_t i) const { return p[i]; } char &front() { return p[0]; } char &back() { return p[n - 1]; }
    void clear() { resize(0); } void reserve(size_t) {} void shrink_to_fit() {} void swap(SimCont &o) { std::swap(p, o.p); std::swap(n, o.n); }
    void resize(size_t m, char c) { size_t k = n; resize(m); for(size_t i = k; i < m; ++i) p[i] = c; }
    void push_back(char c) { resize(n + 1); p[n - 1] = c; } void pop_back() { resize(n - 1); }
    SimCont& append(char const* s, size_t k) { size_t a = n; resize(n + k); if(k) memcpy(p + a, s, k); return *this; } SimCont& assign(char const* s, size_t k) { resize(k); if(k) memcpy(p, s, k); return *this; }
    template<class It> void insert(char const* at, It b, It e) { size_t o = (size_t)(at - p), k = (size_t)(e - b), t = n - o; resize(n + k); memmove(p + o + k, p + o, t); for(size_t i = 0; b != e; ++b, ++i) p[o + i] = *b; }
    char *erase(char const* b, char const* e) { size_t o = (size_t)(b - p), k = (size_t)(e - b); memmove(p + o, p + o + k, n - o - k); resize(n - k); return p + o; }
    void resize(size_t m) {
        ++resizes;
        if(m == n) return;
        char *q = m ? (char*)::operator new(m) : nullptr; // may throw
        if(m) { memset(q, '~', m); size_t k = m < n ? m : n; if(k) memcpy(q, p, k); }
        drop(p, n); p = q; n = m;
    }
};
using c4::to_substr; using c4::to_csubstr;
inline substr to_substr(SimCont &c) { return substr(c.p, c.n); }
inline csubstr to_csubstr(SimCont const& c) { return csubstr(c.p, c.n); }

struct Pack { int form = 0; std::vector<Arg> args; Arg sep; std::string fmt, ref; bool exact = true; };
enum Mode { mOver, mAppend, mReturn };
// runs the call on the container; *view gets the returned view of the append forms
template<class C> void run_pack(Pack const& p, int mode, C *c, csubstr *view);
extern template void run_pack<std::string>(Pack const&, int, std::string*, csubstr*);
extern template void run_pack<std::vector<char>>(Pack const&, int, std::vector<char>*, csubstr*);
extern template void run_pack<SimCont>(Pack const&, int, SimCont*, csubstr*);
}
#endif
