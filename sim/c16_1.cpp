#include "c16.hpp"
namespace c16 {
template<class T> void run_world(Ctx &cx) { World<T>(cx).run(); }
template void run_world<Cp>(Ctx&);
template void run_world<NdPod>(Ctx&);
template void run_world<CtNt>(Ctx&);
}
