#pragma once
// Controlled scheduling of threads that run the real library code.
//
// The library (only) is compiled with -fsanitize=thread, but not linked with that run time: the __tsan_*
// entry points below see every memory access it makes.  Threads are fibers; a fiber gives control back to
// the explorer before every synchronisation operation (mutex, once, guard of a static, atomic), and the
// explorer chooses which enabled fiber goes on, so that every schedule is enumerated.  A vector-clock
// happens-before relation over the synchronisation operations decides races, so that switching at
// synchronisation operations is enough: everything between them is free of conflicts or reported.
#include "rp.h"
#include <ucontext.h>
#include <dlfcn.h>
#include <pthread.h>
#include <unordered_map>
namespace smc {
static const int MAXT = 3;
struct VC { uint32_t c[MAXT] = {0, 0, 0}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Cell { uint32_t epoch, w[MAXT], r[MAXT]; };
struct Lock { int owner = -1, depth = 0, readers = 0; VC vc; };
enum Want { NONE, LOCK, RLOCK, GUARD };
struct Fiber { ucontext_t ctx; char* stack = nullptr; bool done = false; Want want = NONE; void* obj = nullptr; VC vc; std::function<void()> fn; std::vector<void*> calls; int spin = 0; };
struct World {
    Fiber f[MAXT]; int n = 0; int cur = -1; ucontext_t main; std::map<void*, Lock> locks; std::string race; uint32_t epoch = 1; uint64_t points = 0, accesses = 0;
    char* mem = nullptr; Cell* shadow = nullptr; size_t cap = size_t(1) << 27, used = 0; std::unordered_map<uintptr_t, Cell> other; std::map<void*, int> guards;
};
static World* W = nullptr;
static void* quarantine = nullptr;
static inline bool inside() { return W && W->cur >= 0; }
static const size_t STACK = 1 << 20;
static std::string where(void* pc) { Dl_info i; char b[300]; if (dladdr(pc, &i) && i.dli_sname) snprintf(b, 300, "%s+%td", i.dli_sname, (char*)pc - (char*)i.dli_saddr); else snprintf(b, 300, "%p", pc); return b; }
static void access(void* addr, size_t size, bool write, void* pc) {
    if (!inside()) return;
    World& w = *W; int t = w.cur; char* a = (char*)addr; Fiber& f = w.f[t]; w.accesses++;
    if (a >= f.stack && a < f.stack + STACK) return;
    for (size_t i = 0; i < size; i++) {
        Cell* c; if (a + i >= w.mem && a + i < w.mem + w.cap) c = &w.shadow[a + i - w.mem]; else c = &w.other[(uintptr_t)(a + i)];
        if (c->epoch != w.epoch) { memset(c, 0, sizeof *c); c->epoch = w.epoch; }
        for (int o = 0; o < w.n; o++) if (o != t) {
            bool bw = c->w[o] > f.vc.c[o], br = write && c->r[o] > f.vc.c[o];
            if ((bw || br) && w.race.empty()) { char b[900]; snprintf(b, 900, "%s of %zu bytes by thread %d in %s (called from %s) is unordered with a %s by thread %d", write ? "write" : "read", size, t, where(pc).c_str(), f.calls.empty() ? "?" : where(f.calls.back()).c_str(), bw ? "write" : "read", o); w.race = b; }
        }
        (write ? c->w : c->r)[t] = f.vc.c[t];
    }
}
static void yield() { World& w = *W; int t = w.cur; w.points++; w.cur = -1; swapcontext(&w.f[t].ctx, &w.main); }
static void tick() { World& w = *W; w.f[w.cur].vc.c[w.cur]++; }
static void acquire(void* o) { World& w = *W; w.f[w.cur].vc.join(w.locks[o].vc); }
static void publish(void* o) { World& w = *W; w.locks[o].vc.join(w.f[w.cur].vc); tick(); }
static void lockOp(void* m) { World& w = *W; int t = w.cur; w.f[t].want = LOCK; w.f[t].obj = m; yield(); w.f[t].want = NONE; Lock& l = w.locks[m]; l.owner = t; l.depth++; acquire(m); }
static void unlockOp(void* m) { World& w = *W; Lock& l = w.locks[m]; publish(m); if (l.readers && l.owner != w.cur) l.readers--; else if (--l.depth <= 0) { l.owner = -1; l.depth = 0; } }
static void rlockOp(void* m) { World& w = *W; int t = w.cur; w.f[t].want = RLOCK; w.f[t].obj = m; yield(); w.f[t].want = NONE; w.locks[m].readers++; acquire(m); }
static void atomicOp(void* a) { World& w = *W; int t = w.cur; w.f[t].spin++; yield(); acquire(a); publish(a); (void)t; }
static bool enabled(int t) { World& w = *W; Fiber& f = w.f[t]; if (f.done) return false; switch (f.want) { case LOCK: { Lock& l = w.locks[f.obj]; return l.owner < 0 && !l.readers; } case RLOCK: return w.locks[f.obj].owner < 0; case GUARD: { auto it = w.guards.find(f.obj); return it == w.guards.end() || it->second != 1; } default: return true; } }
static void trampoline() { World& w = *W; int t = w.cur; w.f[t].fn(); w.f[t].done = true; w.cur = -1; swapcontext(&w.f[t].ctx, &w.main); }
// base memory of the scenarios: never reused within an execution
static void* bump(size_t n) { World& w = *W; size_t k = (n + 15) & ~size_t(15); if (w.used + k > w.cap) { fprintf(stderr, "smc: arena full\n"); abort(); } void* p = w.mem + w.used; w.used += k; return p; }
struct BumpBase : rp3d::MemoryAllocator { std::map<void*, size_t> live; std::string error; bool counted = true;
    void* allocate(size_t n) override { void* p = bump(n); live[p] = n; return p; }
    void release(void* p, size_t n) override { auto it = live.find(p); if (it == live.end()) { if (error.empty()) error = "release of a block that is not outstanding"; return; } if (it->second != n && error.empty()) error = "block released with another size"; live.erase(it); } };
static void begin() {
    if (!W) { W = new World; W->mem = (char*)mmap(0, W->cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); W->shadow = (Cell*)mmap(0, W->cap * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (auto& f : W->f) f.stack = (char*)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    while (quarantine) { void* p = quarantine; quarantine = *(void**)p; free(p); }
    W->n = 0; W->cur = -1; W->locks.clear(); W->race.clear(); W->epoch++; W->points = 0; W->used = 4096; W->other.clear(); W->guards.clear();
}
// run the threads; pick(k, enabled) returns which of the enabled threads goes on
static void run(Run& r, std::vector<std::function<void()>> fs, std::function<int(const std::vector<int>&, int last)> pick) {
    World& w = *W; w.n = (int)fs.size();
    for (int i = 0; i < w.n; i++) { Fiber& f = w.f[i]; f.fn = fs[i]; f.done = false; f.want = NONE; f.vc = VC(); f.vc.c[i] = 1; f.calls.clear(); f.spin = 0; getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STACK; f.ctx.uc_link = nullptr; makecontext(&f.ctx, trampoline, 0); }
    int last = -1;
    for (;;) {
        std::vector<int> en; bool all = true; for (int i = 0; i < w.n; i++) { if (!w.f[i].done) all = false; if (enabled(i)) en.push_back(i); }
        if (all) break;
        if (en.empty()) { std::string s; for (int i = 0; i < w.n; i++) if (!w.f[i].done) s += " thread " + std::to_string(i) + " waits for a lock held by thread " + std::to_string(w.locks[w.f[i].obj].owner) + ";"; r.fail("deadlock", "deadlock:%s", s.c_str()); }
        int t;
        if (last >= 0 && w.f[last].spin > 200 && en.size() > 1) { std::vector<int> e2; for (int i : en) if (i != last) e2.push_back(i); w.f[last].spin = 0; t = e2[0]; }   // a thread that spins on atomics lets the others go on
        else t = en.size() == 1 ? en[0] : pick(en, last);
        r.transition(); if (t != last && last >= 0) MC_LOG(r, "switch to thread %d", t);
        last = t; w.cur = t; swapcontext(&w.main, &w.f[t].ctx);
        if (!w.race.empty()) break;
    }
    r.checked();
    if (!w.race.empty()) r.fail("race", "%s", w.race.c_str());
    w.cur = -1;
}
} // namespace smc
// ---- what the instrumented library calls
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (smc::inside()) smc::W->f[smc::W->cur].calls.push_back(pc); }
void __tsan_func_exit() { if (smc::inside()) { auto& c = smc::W->f[smc::W->cur].calls; if (!c.empty()) c.pop_back(); } }
#define RW(N) void __tsan_read##N(void* a) { smc::access(a, N, false, PC); } void __tsan_write##N(void* a) { smc::access(a, N, true, PC); } void __tsan_unaligned_read##N(void* a) { smc::access(a, N, false, PC); } void __tsan_unaligned_write##N(void* a) { smc::access(a, N, true, PC); } void __tsan_volatile_read##N(void* a) { smc::access(a, N, false, PC); } void __tsan_volatile_write##N(void* a) { smc::access(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v) { if (*a != v) smc::access(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { smc::access(a, 8, false, PC); }
void __tsan_read_range(void* a, size_t n) { smc::access(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { smc::access(a, n, true, PC); }
static inline void sa(const volatile void* a) { if (smc::inside()) smc::atomicOp((void*)a); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int) { sa(a); return __atomic_load_n(a, 5); } \
void __tsan_atomic##B##_store(volatile T* a, T v, int) { sa(a); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { sa(a); return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { sa(a); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { sa(a); return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { sa(a); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { sa(a); return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { sa(a); return __atomic_fetch_xor(a, v, 5); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { sa(a); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { sa(a); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int, int) { sa(a); __atomic_compare_exchange_n(a, &e, v, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// ---- synchronisation operations: real ones outside of fibers, modelled ones inside
#define REAL(name, type) static type real = (type)dlsym(RTLD_NEXT, name)
typedef int (*mfn)(void*);
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (!smc::inside()) { REAL("pthread_mutex_lock", mfn); return real(m); } if (smc::W->locks[m].owner == smc::W->cur && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { smc::W->locks[m].depth++; return 0; } smc::lockOp(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!smc::inside()) { REAL("pthread_mutex_trylock", mfn); return real(m); } smc::yield(); auto& l = smc::W->locks[m]; if (l.owner >= 0) return EBUSY; l.owner = smc::W->cur; l.depth = 1; smc::acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (!smc::inside()) { REAL("pthread_mutex_unlock", mfn); return real(m); } smc::unlockOp(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (!smc::inside()) { REAL("pthread_rwlock_rdlock", mfn); return real(m); } smc::rlockOp(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (!smc::inside()) { REAL("pthread_rwlock_wrlock", mfn); return real(m); } smc::lockOp(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (!smc::inside()) { REAL("pthread_rwlock_unlock", mfn); return real(m); } smc::unlockOp(m); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) { typedef int (*ofn)(pthread_once_t*, void (*)()); if (!smc::inside()) { REAL("pthread_once", ofn); return real(o, fn); } auto& w = *smc::W; int t = w.cur; w.f[t].want = smc::GUARD; w.f[t].obj = o; smc::yield(); w.f[t].want = smc::NONE; if (*(volatile int*)o == 0) { w.guards[o] = 1; fn(); *(volatile int*)o = 2; w.guards[o] = 2; smc::publish(o); } else smc::acquire(o); return 0; }
int __cxa_guard_acquire(long long int* g) { uint8_t* b = (uint8_t*)g; if (!smc::inside()) { if (*b) return 0; return 1; } auto& w = *smc::W; int t = w.cur; w.f[t].want = smc::GUARD; w.f[t].obj = g; smc::yield(); w.f[t].want = smc::NONE; if (*b) { smc::acquire(g); return 0; } w.guards[g] = 1; return 1; }
void __cxa_guard_release(long long int* g) { __atomic_store_n((uint8_t*)g, 1, 5); if (smc::inside()) { smc::W->guards[g] = 2; smc::publish(g); } }
void __cxa_guard_abort(long long int* g) { if (smc::inside()) smc::W->guards.erase(g); }
// block copies of the library
void* smc_memcpy(void* d, const void* s, size_t n) { smc::access((void*)s, n, false, PC); smc::access(d, n, true, PC); return memcpy(d, s, n); }
void* smc_memmove(void* d, const void* s, size_t n) { smc::access((void*)s, n, false, PC); smc::access(d, n, true, PC); return memmove(d, s, n); }
void* smc_memset(void* d, int v, size_t n) { smc::access(d, n, true, PC); return memset(d, v, n); }
}
// memory released while a fiber runs is not reused within the execution
void* operator new(size_t n) { void* p = malloc(n < 8 ? 8 : n); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && smc::inside()) { *(void**)p = smc::quarantine; smc::quarantine = p; } else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
