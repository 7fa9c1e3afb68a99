#include "c16.hpp"
namespace c16 {
template<class T> void run_world(Ctx &cx) { World<T>(cx).run(); }
template void run_world<Pod>(Ctx&);
template void run_world<Pod3>(Ctx&);
template void run_world<Al>(Ctx&);
template void run_world<AsNt>(Ctx&);
}
