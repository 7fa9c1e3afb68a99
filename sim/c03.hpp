#ifndef C03_HPP_
#define C03_HPP_
#include "vals.hpp"
#include "c4err.hpp"
namespace c03 {
using namespace vals;
struct Pack { int form = 0; std::vector<Arg> args; Arg sep; std::string fmt, ref; bool exact = true; };
size_t write_pack(Pack const& p, substr buf);
bool write_pack_sub(Pack const& p, substr buf, substr *out); // false: the library raised an error
}
#endif
