#include "thr.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdarg.h>
using sim::Ctx;
namespace {
struct S { Ctx *cx; int n; sem_t sem[8], fin; bool done[8], blocked[8]; int cur; int64_t quantum; uint32_t switches, max_switches, gdraws, hdraws; uint64_t clock; void (*body)(void*, int); void *arg; int live; } s;
thread_local int t_self = -1; thread_local int t_off = 0;
volatile bool g_on = false;
extern "C" char __data_start, _end;

int64_t draw_quantum() {
    Ctx &cx = *s.cx;
    if(s.switches >= s.max_switches) return INT64_MAX;
    switch(cx.draw(6)) { case 0: return INT64_MAX; case 1: return 1 + cx.draw(6); case 2: return 1 + cx.draw(40); case 3: return 1 + cx.draw(250); case 4: return 1 + cx.draw(1500); default: return 1 + cx.draw(9000); }
}
void pass_to(int next) { int me = t_self; if(next == me) return; s.cur = next; sem_post(&s.sem[next]); while(sem_wait(&s.sem[me])) {} }
int pick(bool other) { // a runnable thread (other than me, if any)
    int c[8], k = 0; for(int i = 0; i < s.n; ++i) if(!s.done[i] && !s.blocked[i] && !(other && i == t_self)) c[k++] = i;
    if(k == 0) return -1;
    return c[s.cx->draw((uint32_t)k)];
}
void preempt(const char *why) {
    ++t_off;
    int nx = pick(true);
    if(nx >= 0) { ++s.switches; s.cx->nontrivial = true; s.cx->count('f', why); if(s.cx->stats) { ++s.cx->sh->sw_total; ++s.cx->sh->nfaults; } s.cx->ev("switch", t_self, nx, s.clock); s.cx->sig((uint64_t)(nx * 8 + t_self) ^ s.clock << 8); s.quantum = draw_quantum(); pass_to(nx); }
    else s.quantum = draw_quantum();
    --t_off;
}
inline void step() {
    if(!g_on || t_self < 0 || t_off) return;
    ++s.clock;
    if(--s.quantum <= 0) preempt("preemption");
    else if((s.clock & ((1u << 22) - 1)) == 0) preempt("forced-switch"); // spinning: let others run
}
// global memory seen written when the scripts ran alone: there a pre-emption matters most
uintptr_t g_hot[64]; int g_nhot = 0; bool g_rec = false;
inline bool global(void *p) { return p >= &__data_start && p < &_end; }
inline bool hot(void *p) { uintptr_t a = (uintptr_t)p >> 3; for(int i = 0; i < g_nhot; ++i) if(g_hot[i] == a) return true; return false; }
inline void record(void *p, size_t n = 8) {
    if(!g_rec || t_off || !global(p)) return;
    for(uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + (n ? n - 1 : 0)) >> 3, k = 0; a <= e && k < 8; ++a, ++k) { bool have = false; for(int i = 0; i < g_nhot; ++i) have |= g_hot[i] == a; if(!have && g_nhot < 64) g_hot[g_nhot++] = a; }
}
inline void access(void *p) {
    if(!g_on || t_self < 0 || t_off) return;
    if(g_nhot && s.switches < s.max_switches && s.hdraws < 400 && hot(p)) { ++t_off; ++s.hdraws; bool sw = s.cx->chance(1, 3); --t_off; if(sw) { ++s.clock; preempt("preemption-at-written-global"); return; } }
    if(p >= &__data_start && p < &_end && s.switches < s.max_switches && s.gdraws < 60) { ++t_off; ++s.gdraws; bool sw = s.cx->chance(1, 4); --t_off; if(sw) { ++s.clock; preempt("preemption-at-global-access"); return; } }
    step();
}
void *thread_main(void *v) {
    int i = (int)(intptr_t)v; t_self = i;
    while(sem_wait(&s.sem[i])) {}
    s.body(s.arg, i);
    ++t_off; s.done[i] = true; int nx = pick(true); // blocked threads become runnable when whoever they wait for finishes
    if(nx < 0) { for(int k = 0; k < s.n; ++k) s.blocked[k] = false; nx = pick(true); }
    if(nx >= 0) { s.quantum = draw_quantum(); s.cur = nx; s.cx->ev("finish", i, nx); sem_post(&s.sem[nx]); } else { s.cx->ev("finish", i, -1); sem_post(&s.fin); }
    t_self = -1; return nullptr;
}
}
namespace thr {
bool active() { return g_on && t_self >= 0 && t_off == 0; }
int self() { return t_self; }
Pause::Pause() { ++t_off; } Pause::~Pause() { --t_off; }
void point() { step(); }
void record_start() { g_nhot = 0; g_rec = true; } void record_stop() { g_rec = false; }
int hot_count() { return g_nhot; } uintptr_t hot_at(int i) { return g_hot[i]; } void hot_add(uintptr_t a) { for(int i = 0; i < g_nhot; ++i) if(g_hot[i] == a) return; if(g_nhot < 64) g_hot[g_nhot++] = a; } void hot_clear() { g_nhot = 0; }
void run(Ctx &cx, int n, void (*body)(void*, int), void *arg, uint32_t max_switches) {
    memset(&s, 0, sizeof s); s.cx = &cx; s.n = n; s.body = body; s.arg = arg; s.max_switches = max_switches;
    for(int i = 0; i < n; ++i) sem_init(&s.sem[i], 0, 0); sem_init(&s.fin, 0, 0);
    pthread_t t[8]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    g_on = true; int first = (int)cx.draw((uint32_t)n); s.quantum = draw_quantum();
    for(int i = 0; i < n; ++i) if(pthread_create(&t[i], &at, thread_main, (void*)(intptr_t)i)) _exit(92);
    s.cur = first; sem_post(&s.sem[first]);
    while(sem_wait(&s.fin)) {}
    g_on = false;
    for(int i = 0; i < n; ++i) pthread_join(t[i], nullptr);
}
// the calling thread waits until pred holds, others run meanwhile
template<class F> static void wait_for(F pred) {
    ++t_off; int idle = 0;
    while(!pred()) {
        int c = -1; for(int k = 1; k <= s.n; ++k) { int j = (t_self + k) % s.n; if(j != t_self && !s.done[j]) { c = j; break; } }
        if(c < 0 || ++idle > 100000) { s.cx->note_fail("deadlock", "a thread waits for something no other thread can provide"); _exit(0); }
        s.cx->nontrivial = true; s.quantum = draw_quantum(); s.cx->ev("wait", t_self, c); pass_to(c);
    }
    --t_off;
}
}
// ---- instrumentation callbacks
extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t *) { step(); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for(uint32_t i = 1; a < b; ++a) *a = i++; }
void __sanitizer_cov_load1(void *p) { access(p); } void __sanitizer_cov_load2(void *p) { access(p); } void __sanitizer_cov_load4(void *p) { access(p); } void __sanitizer_cov_load8(void *p) { access(p); } void __sanitizer_cov_load16(void *p) { access(p); }
void __sanitizer_cov_store1(void *p) { record(p, 1); access(p); } void __sanitizer_cov_store2(void *p) { record(p, 2); access(p); } void __sanitizer_cov_store4(void *p) { record(p, 4); access(p); } void __sanitizer_cov_store8(void *p) { record(p, 8); access(p); } void __sanitizer_cov_store16(void *p) { record(p, 16); access(p); }
// ---- library calls the compiler emits or the code makes: a pre-emption before and after
void *__real_memcpy(void*, const void*, size_t); void *__real_memmove(void*, const void*, size_t); void *__real_memset(void*, int, size_t); size_t __real_strlen(const char*);
void *__wrap_memcpy(void *d, const void *c, size_t n) { record(d, n); access(d); __real_memcpy(d, c, n); access(d); return d; }
void *__wrap_memmove(void *d, const void *c, size_t n) { record(d, n); access(d); __real_memmove(d, c, n); access(d); return d; }
void *__wrap_memset(void *d, int c, size_t n) { record(d, n); access(d); __real_memset(d, c, n); access(d); return d; }
size_t __wrap_strlen(const char *c) { access((void*)c); size_t n = __real_strlen(c); access((void*)c); return n; }
int __real_vsnprintf(char*, size_t, const char*, va_list);
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list a) { record(b, n); access(b); int r = __real_vsnprintf(b, n, f, a); access(b); return r; }
int __wrap_snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); record(b, n); access(b); int r = __real_vsnprintf(b, n, f, a); access(b); va_end(a); return r; }
// ---- synchronisation: blocking is done by the scheduler
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if(!thr::active()) return __real_pthread_mutex_lock(m); step(); thr::wait_for([&] { return pthread_mutex_trylock(m) == 0; }); return 0; }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { if(!thr::active()) return __real_pthread_rwlock_rdlock(m); step(); thr::wait_for([&] { return pthread_rwlock_tryrdlock(m) == 0; }); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { if(!thr::active()) return __real_pthread_rwlock_wrlock(m); step(); thr::wait_for([&] { return pthread_rwlock_trywrlock(m) == 0; }); return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) { // 0 new, 0x51 running, 0x52 done
    volatile int *st = (volatile int*)o;
    if(!thr::active()) { if(*st == 0x52) return 0; return __real_pthread_once(o, f); }
    step(); if(*st == 0x52 || *st == 2) return 0;
    thr::wait_for([&] { return *st != 0x51; });
    if(*st == 0x52) return 0;
    *st = 0x51; f(); *st = 0x52; return 0;
}
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
// byte 0: initialised; byte 4: being initialised under the scheduler
int __wrap___cxa_guard_acquire(uint64_t *gd) {
    if(!thr::active()) return __real___cxa_guard_acquire(gd);
    volatile char *c = (volatile char*)gd; step();
    thr::wait_for([&] { return c[0] || !c[4]; });
    if(c[0]) return 0;
    c[4] = 1; step(); return 1;
}
void __wrap___cxa_guard_release(uint64_t *gd) { volatile char *c = (volatile char*)gd; if(c[4]) { step(); c[4] = 0; c[0] = 1; step(); } else __real___cxa_guard_release(gd); }
void __wrap___cxa_guard_abort(uint64_t *gd) { volatile char *c = (volatile char*)gd; if(c[4]) c[4] = 0; else __real___cxa_guard_abort(gd); }
}
