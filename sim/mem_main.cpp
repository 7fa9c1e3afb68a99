// C05..C08 and C10: which worlds and which verdicts belong to which property.
#include "memworld.hpp"
namespace memsim {
bool enabled(const char *cls) {
    static const char *mine[] = {
#if SIM_PROP == 5
        "misaligned", "out-of-bounds", "overlap", "bytes-changed", "spurious-failure", "accounting", "null-block", "chunk-source",
#elif SIM_PROP == 6
        "contents-lost", "failed-realloc", "bytes-changed", "out-of-bounds", "overlap", "null-block", "lost-after-failure",
#elif SIM_PROP == 7
        "wrong-free", "leak", "failed-acquire", "chunk-source",
#elif SIM_PROP == 8
        "counts",
#else
        "misaligned", "out-of-bounds", "overlap", "bytes-changed", "spurious-failure", "null-block", "wrong-free", "leak", "not-in-place", "array-to-resource", "undersized", "failure-effects",
#endif
        };
    for(const char *m : mine) if(!strcmp(m, cls)) return true;
    return false;
}
}
void sim_init() { c4err_install(); memsim::arena.init(); memsim::raw_install(0); }
//                             alloc dealloc realloc clear acquire release null switch      derived counts scoped owned lent arr
#if SIM_PROP == 5
static const Profile prof = {{10, 5, 6, 1, 1, 1, 1, 0}, {1, 2, 1, 4, 3, 3}, false};
#elif SIM_PROP == 6
static const Profile prof = {{6, 2, 14, 1, 1, 0, 0, 0}, {1, 2, 0, 4, 3, 3}, true};
#elif SIM_PROP == 7
static const Profile prof = {{3, 1, 2, 1, 8, 4, 1, 2}, {1, 1, 0, 6, 2, 1}, false};
#else
static const Profile prof = {{8, 6, 8, 0, 1, 1, 2, 0}, {1, 6, 3, 2, 1, 1}, false};
#endif
void sim_run(sim::Ctx &cx) {
#if SIM_PROP == 6
    if(cx.draw(2)) return allocworld_run(cx, true);
#elif SIM_PROP == 10
    return allocworld_run(cx, cx.draw(3) == 0);
#endif
    memworld_run(cx, prof);
}
