// forced into every translation unit of the "snp" flavours: a toolchain (or language
// level) without floating point std::to_chars, so that c4core takes its snprintf path
#ifndef NO_TOCHARS_HPP_
#define NO_TOCHARS_HPP_
#include <charconv>
#include <string>
#include <functional>
#undef __cpp_lib_to_chars
#endif
