// Deterministic thread scheduler: real threads, one runs at a time, and every
// instrumented basic block, load and store of the library and the workload is
// a possible pre-emption, decided from the tape.
#ifndef THR_HPP_
#define THR_HPP_
#include "sim.hpp"
namespace thr {
// runs body(arg, i) in n threads under the scheduler
void run(sim::Ctx &cx, int n, void (*body)(void*, int), void *arg, uint32_t max_switches);
bool active();             // is a scheduled thread executing?
int self();                // index of the calling thread, -1 outside
// leaves the scheduled world for harness code (draws, bookkeeping)
struct Pause { Pause(); ~Pause(); };
void point();              // explicit pre-emption point
// which global memory is written while a script runs alone (8-byte cells); the
// scheduler then prefers accesses to it
void record_start(); void record_stop(); int hot_count(); uintptr_t hot_at(int i); void hot_add(uintptr_t cell); void hot_clear();
}
#endif
