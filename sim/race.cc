// Happens-before race detection for the explored schedules: product objects
// compiled with -fsanitize=thread call these functions instead of the TSan
// runtime.  Only threads of one process are watched (raceOn).  Preemption
// between API calls only is complete for programs without data races; this
// shows their absence on every explored schedule.
#include "sim.h"
#include <unordered_map>
#include <string.h>
#include <stdio.h>
extern "C" char __executable_start, __data_start, _end;
namespace sim {
static const int N = 8;
struct Clk { uint32_t c[N] = {}; void join(const Clk &o) { for (int i = 0; i < N; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct RCell { uint8_t wt = 0xff; bool at = false; uint32_t wc = 0; uint32_t r[N] = {}; void *wpc = nullptr, *rpc[N] = {}; };
struct RaceState { Process *proc; std::unordered_map<Fiber *, int> id; Clk clk[N]; std::unordered_map<uintptr_t, Clk> sync; std::unordered_map<uintptr_t, RCell> mem; uint64_t accesses = 0; };
static RaceState *R; bool raceWatching;
uint64_t raceAccesses() { return R ? R->accesses : 0; }
void raceOn(Process *p) { NoTrack nt; delete R; R = new RaceState; R->proc = p; raceWatching = true; }
void raceOff() { NoTrack nt; delete R; R = nullptr; raceWatching = false; }
static int me() { if (!R || !W || !W->cur || W->cur->proc != R->proc) return -1; auto it = R->id.find(W->cur); if (it != R->id.end()) return it->second; int k = R->id.size(); if (k >= N) return -1; R->id[W->cur] = k; R->clk[k].c[k] = 1; return k; }
void raceAcquire(const void *a) { NoTrack nt; int k = me(); if (k < 0) return; auto it = R->sync.find((uintptr_t)a); if (it != R->sync.end()) R->clk[k].join(it->second); }
void raceRelease(const void *a) { NoTrack nt; int k = me(); if (k < 0) return; R->sync[(uintptr_t)a].join(R->clk[k]); R->clk[k].c[k]++; }
// every watched thread is idle and known to be so by whoever starts the next job
void raceBarrier() { NoTrack nt; if (!R) return; Clk all; for (auto &c : R->clk) all.join(c); for (int k = 0; k < N; k++) { R->clk[k] = all; R->clk[k].c[k]++; } }
void raceFreed(const void *p, size_t n) { if (!R) return; NoTrack nt; for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n; a++) { R->mem.erase(a); } }
static void access(uintptr_t a, size_t n, bool wr, void *pc, bool atomic = false) {
    if (!R) return; NoTrack nt; int k = me(); if (k < 0) return;
    // variables with static storage: not required to be free of races, but the threads may be switched at every access (which is taken to be ordered, as on x86)
    if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) { if (!atomic) { ApiScope s("global variable"); raceAcquire((void *)a); if (wr) raceRelease((void *)a); } return; }
    Fiber *f = W->cur; if (a >= (uintptr_t)f->stack && a < (uintptr_t)f->stack + f->stackSize) return;
    R->accesses++; Clk &c = R->clk[k]; if (n > 4096) n = 4096;
    for (size_t i = 0; i < n; i++) {
        RCell &m = R->mem[a + i]; void *other = nullptr; bool race = false;
        if (m.wt != 0xff && m.wt != k && m.wc > c.c[m.wt] && !(atomic && m.at)) race = true, other = m.wpc;
        if (wr && !race) for (int t = 0; t < N; t++) if (t != k && m.r[t] > c.c[t] && !atomic) race = true, other = m.rpc[t];
        if (race) { char b[200]; uintptr_t base = (uintptr_t)&__executable_start; snprintf(b, sizeof b, "data race in the library: two threads access the same memory without synchronization (code +0x%lx and +0x%lx)", (long)((uintptr_t)pc - base), (long)((uintptr_t)other - base)); static int n; if (n++ < 20) W->noteBad(b); return; }
        if (wr) { m.wt = k; m.wc = c.c[k]; m.wpc = pc; m.at = atomic; } else if (!atomic) { m.r[k] = c.c[k]; m.rpc[k] = pc; }
    }
}
void raceDeleted(const void *p, size_t n, void *pc) { access((uintptr_t)p, n, true, pc); }
static void atomicPoint(const void *a) { ApiScope s("atomic"); raceAcquire(a); raceRelease(a); }
} // namespace sim
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { access((uintptr_t)p, n, false, PC); } void __tsan_write##n(void *p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false, PC); } void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false, PC); } void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access((uintptr_t)p, 8, true, PC); } void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) { ApiScope s("fence"); } void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *p, int) { atomicPoint((void *)p); access((uintptr_t)p, sizeof(T), false, PC, true); return *p; } \
void __tsan_atomic##b##_store(volatile T *p, T v, int) { atomicPoint((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); *p = v; } \
T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { atomicPoint((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); T o = *p; *p = v; return o; } \
T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { atomicPoint((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { atomicPoint((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { atomicPoint((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { atomicPoint((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { atomicPoint((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int) { atomicPoint((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { atomicPoint((void *)p); access((uintptr_t)p, sizeof(T), true, PC, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int a, int c) { __tsan_atomic##b##_compare_exchange_strong(p, &e, v, a, c); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
// initialisation of function-local statics
int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *); void __real___cxa_guard_abort(uint64_t *);
static std::unordered_map<uint64_t *, Fiber *> g_initing;
int __wrap___cxa_guard_acquire(uint64_t *g) {
    if (!R || me() < 0) return __real___cxa_guard_acquire(g);
    NoTrack nt;
    for (;;) { auto it = g_initing.find(g); if (it == g_initing.end()) break; if (it->second->done) { g_initing.erase(it); break; } ApiScope s("static initialisation"); blockUntil("static initialisation", [g]() { return !g_initing.count(g); }); }
    raceAcquire(g); if (*(unsigned char *)g) return 0; g_initing[g] = W->cur; return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) { if (!R || me() < 0) return __real___cxa_guard_release(g); NoTrack nt; raceRelease(g); *(unsigned char *)g = 1; g_initing.erase(g); }
void __wrap___cxa_guard_abort(uint64_t *g) { if (!R || me() < 0) return __real___cxa_guard_abort(g); NoTrack nt; g_initing.erase(g); }
// exception objects come from malloc
void *__real___cxa_allocate_exception(size_t); void *__wrap___cxa_allocate_exception(size_t n) { char *p = (char *)__real___cxa_allocate_exception(n); if (R) raceFreed(p - 128, n + 128); return p; }
}
