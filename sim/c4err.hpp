#ifndef C4ERR_HPP_
#define C4ERR_HPP_
#include <c4/error.hpp>
#include <string>
// errors raised by the library become exceptions the simulator can see
struct C4Error { std::string msg; };
inline void c4err_cb(const char *msg, size_t n) { throw C4Error{std::string(msg, n)}; }
inline void c4err_install() { c4::set_error_flags(c4::ON_ERROR_CALLBACK); c4::set_error_callback(&c4err_cb); }
// runs f, returns true if the library raised an error
template<class F> bool c4err_raised(F &&f, std::string *msg = nullptr) { try { f(); return false; } catch(C4Error const& e) { if(msg) *msg = e.msg; return true; } }
#endif
