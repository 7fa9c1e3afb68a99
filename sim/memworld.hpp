#ifndef MEMWORLD_HPP_
#define MEMWORLD_HPP_
#include "memsim.hpp"
struct Profile { uint32_t w[8]; uint32_t kinds[6]; bool realloc_heavy; }; // ops: alloc dealloc realloc clear acquire release null-dealloc switch-global
void memworld_run(sim::Ctx &cx, Profile const& pr);
void allocworld_run(sim::Ctx &cx, bool with_realloc);
#endif
