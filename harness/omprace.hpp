// omprace.hpp - shows OpenMP's ordering to ThreadSanitizer and perturbs thread timing by a generated schedule.
// Linked with -Wl,--wrap=... (see "// flags:" in the check).  libgomp does the work; without the wrapping TSan cannot see its barriers.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <omp.h>
#ifdef __SANITIZE_THREAD__
extern "C" { void __tsan_acquire(void*); void __tsan_release(void*); }
#define OR_ACQ(p) __tsan_acquire(p)
#define OR_REL(p) __tsan_release(p)
#define OR_NOSAN __attribute__((no_sanitize("thread"), noinline))
#else
#define OR_ACQ(p) (void)(p)
#define OR_REL(p) (void)(p)
#define OR_NOSAN __attribute__((noinline))
#endif
#define OR_VIS __attribute__((externally_visible, used))
#ifdef __SANITIZE_THREAD__
extern "C" OR_VIS const char* __tsan_default_suppressions() { return "called_from_lib:libgomp.so\n"; }   // its own records are recycled between threads
#endif
namespace omprace {
inline volatile uint64_t schedule = 0;   // 0: no delays; otherwise thread t starts after a delay derived from it
inline int tok_crit, tok_atomic, tok_bar, tok_task;
struct Par { void (*fn)(void*); void* data; int in, out; };
OR_NOSAN inline uint64_t getSchedule() { return schedule; }
OR_NOSAN inline void setSchedule(uint64_t v) { schedule = v; }
OR_NOSAN inline void delay(uint64_t who) { uint64_t s = getSchedule(); if (!s) return; uint64_t z = s * 0x9e3779b97f4a7c15ull + who * 0xbf58476d1ce4e5b9ull; z ^= z >> 29; z *= 0x94d049bb133111ebull; z ^= z >> 32; unsigned us = (unsigned)(z % 5) * 40; if (us) usleep(us); }
OR_NOSAN inline void enter(void* p) { Par* q = (Par*)p; OR_ACQ(&q->in); delay(omp_get_thread_num() + 1); auto f = q->fn; f(q->data); OR_REL(&q->out); }
struct Task { void (*fn)(void*); char* args; int in, out; bool done; };
OR_NOSAN inline void enterTask(void* p) { Task* t; memcpy(&t, p, sizeof t); OR_ACQ(t); delay((uint64_t)(uintptr_t)t->fn % 997 + omp_get_thread_num()); t->fn(t->args); OR_REL(&tok_task); }
}
#define OR_PARLOOP(name) extern "C" void __real_##name(void (*)(void*), void*, unsigned, long, long, long, long, unsigned); \
    extern "C" OR_VIS OR_NOSAN void __wrap_##name(void (*fn)(void*), void* data, unsigned n, long a, long b, long c, long d, unsigned fl) { \
        omprace::Par p{fn, data, 0, 0}; OR_REL(&p.in); __real_##name(omprace::enter, &p, n, a, b, c, d, fl); OR_ACQ(&p.out); }
#define OR_PARLOOPR(name) extern "C" void __real_##name(void (*)(void*), void*, unsigned, long, long, long, unsigned); \
    extern "C" OR_VIS OR_NOSAN void __wrap_##name(void (*fn)(void*), void* data, unsigned n, long a, long b, long c, unsigned fl) { \
        omprace::Par p{fn, data, 0, 0}; OR_REL(&p.in); __real_##name(omprace::enter, &p, n, a, b, c, fl); OR_ACQ(&p.out); }
OR_PARLOOP(GOMP_parallel_loop_dynamic) OR_PARLOOP(GOMP_parallel_loop_guided) OR_PARLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) OR_PARLOOP(GOMP_parallel_loop_nonmonotonic_guided)
OR_PARLOOPR(GOMP_parallel_loop_runtime) OR_PARLOOPR(GOMP_parallel_loop_nonmonotonic_runtime) OR_PARLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
extern "C" {
void __real_GOMP_parallel(void (*)(void*), void*, unsigned, unsigned);
OR_VIS OR_NOSAN void __wrap_GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned fl) { omprace::Par p{fn, data, 0, 0}; OR_REL(&p.in); __real_GOMP_parallel(omprace::enter, &p, n, fl); OR_ACQ(&p.out); }
void __real_GOMP_parallel_sections(void (*)(void*), void*, unsigned, unsigned, unsigned);
OR_VIS OR_NOSAN void __wrap_GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned c, unsigned fl) { omprace::Par p{fn, data, 0, 0}; OR_REL(&p.in); __real_GOMP_parallel_sections(omprace::enter, &p, n, c, fl); OR_ACQ(&p.out); }
// the arguments are copied to memory of our own (freed never: a few bytes per task), so libgomp's recycling of task records is not seen
void __real_GOMP_task(void (*)(void*), void*, void (*)(void*, void*), long, long, bool, unsigned, void**, int, void*);
OR_VIS OR_NOSAN void __wrap_GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool ifc, unsigned fl, void** dep, int pr, void* det) {
    if (dep || det) { __real_GOMP_task(fn, data, cpy, sz, al, ifc, fl, dep, pr, det); return; }
    char* a = (char*)malloc(sz + al + 16); a = (char*)(((uintptr_t)a + al) / (al ? al : 1) * (al ? al : 1)); if (cpy) cpy(a, data); else memcpy(a, data, sz);
    auto* t = (omprace::Task*)malloc(sizeof(omprace::Task)); t->fn = fn; t->args = a; OR_REL(t);
    __real_GOMP_task(omprace::enterTask, &t, nullptr, sizeof t, alignof(void*), ifc, fl, nullptr, pr, nullptr);
}
void __real_GOMP_taskwait(); OR_VIS OR_NOSAN void __wrap_GOMP_taskwait() { __real_GOMP_taskwait(); OR_ACQ(&omprace::tok_task); }
void __real_GOMP_taskgroup_end(); OR_VIS OR_NOSAN void __wrap_GOMP_taskgroup_end() { __real_GOMP_taskgroup_end(); OR_ACQ(&omprace::tok_task); }
void __real_GOMP_barrier(); OR_VIS OR_NOSAN void __wrap_GOMP_barrier() { OR_REL(&omprace::tok_bar); __real_GOMP_barrier(); OR_ACQ(&omprace::tok_bar); }
void __real_GOMP_loop_end(); OR_VIS OR_NOSAN void __wrap_GOMP_loop_end() { OR_REL(&omprace::tok_bar); __real_GOMP_loop_end(); OR_ACQ(&omprace::tok_bar); }
void __real_GOMP_sections_end(); OR_VIS OR_NOSAN void __wrap_GOMP_sections_end() { OR_REL(&omprace::tok_bar); __real_GOMP_sections_end(); OR_ACQ(&omprace::tok_bar); }
void __real_GOMP_critical_start(); OR_VIS OR_NOSAN void __wrap_GOMP_critical_start() { __real_GOMP_critical_start(); OR_ACQ(&omprace::tok_crit); }
void __real_GOMP_critical_end(); OR_VIS OR_NOSAN void __wrap_GOMP_critical_end() { OR_REL(&omprace::tok_crit); __real_GOMP_critical_end(); }
void __real_GOMP_critical_name_start(void**); OR_VIS OR_NOSAN void __wrap_GOMP_critical_name_start(void** p) { __real_GOMP_critical_name_start(p); OR_ACQ(p); }
void __real_GOMP_critical_name_end(void**); OR_VIS OR_NOSAN void __wrap_GOMP_critical_name_end(void** p) { OR_REL(p); __real_GOMP_critical_name_end(p); }
void __real_GOMP_atomic_start(); OR_VIS OR_NOSAN void __wrap_GOMP_atomic_start() { __real_GOMP_atomic_start(); OR_ACQ(&omprace::tok_atomic); }
void __real_GOMP_atomic_end(); OR_VIS OR_NOSAN void __wrap_GOMP_atomic_end() { OR_REL(&omprace::tok_atomic); __real_GOMP_atomic_end(); }
void __real_GOMP_ordered_start(); OR_VIS OR_NOSAN void __wrap_GOMP_ordered_start() { __real_GOMP_ordered_start(); OR_ACQ(&omprace::tok_crit); }
void __real_GOMP_ordered_end(); OR_VIS OR_NOSAN void __wrap_GOMP_ordered_end() { OR_REL(&omprace::tok_crit); __real_GOMP_ordered_end(); }
}
