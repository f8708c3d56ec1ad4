// Deterministic worker threads: the parallel regions of code compiled with -fopenmp -fsanitize=thread run as
// coroutines of one thread; every memory access is a point at which a seeded schedule may change the worker.  The
// accesses of each region are summed up as [r, w, u, a, n]: n bytes read by r workers, written by w, used plainly by u
// workers in all, and atomically or under a lock by a.  This file itself is compiled without instrumentation.
#include "par_shim.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <sys/mman.h>
#include <link.h>
#include <ucontext.h>
#include <vector>
namespace {
const int MAXW = 64;
const size_t STACK = 1 << 20;
struct Worker { ucontext_t ctx; void* stack; bool done; int loops, singles, barriers; long lo, hi; int ws; };
struct Share { long next, end, incr, chunk; bool init; int sections; };
struct Cell { uintptr_t addr; uint64_t r, w, a; };
Worker W[MAXW];
ucontext_t sched;
int nw = 0, cur = -1, icv = 1, mode = 0, lock_owner = -1, lock_depth = 0, arrived = 0, waitgen = 0, turn = 0;
bool active = false, quiet = false;
uint64_t rng = 88172645463325252ULL;
void (*body)(void*) = nullptr; void* bodyarg = nullptr;
Cell* tab = nullptr; size_t cap = 0, used = 0; std::vector<size_t>* slots = nullptr;
std::vector<void*>* deferred = nullptr;
std::vector<Share>* shares = nullptr; std::vector<int>* singles = nullptr;
std::map<std::vector<long>, long>* sums = nullptr; long regions = 0; int maxw = 0;
uint64_t Rand() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
void Grow() {
    size_t oc = cap; Cell* o = tab; cap = cap ? cap * 2 : 1 << 16; tab = static_cast<Cell*>(calloc(cap, sizeof(Cell))); used = 0;
    if (!slots) slots = new std::vector<size_t>(); slots->clear();
    for (size_t i = 0; i < oc; i++) if (o[i].addr) { size_t h = (o[i].addr * 11400714819323198485ULL) >> 20 & (cap - 1); while (tab[h].addr) h = (h + 1) & (cap - 1); tab[h] = o[i]; slots->push_back(h); used++; }
    free(o);
}
void Mark(uintptr_t a, int kind) { // kind 0 read, 1 write, 2 atomic
    if (used * 2 >= cap) Grow();
    size_t h = (a * 11400714819323198485ULL) >> 20 & (cap - 1);
    while (tab[h].addr && tab[h].addr != a) h = (h + 1) & (cap - 1);
    if (!tab[h].addr) { tab[h].addr = a; used++; slots->push_back(h); }
    uint64_t b = 1ULL << cur; if (kind == 2) tab[h].a |= b; else if (kind) tab[h].w |= b; else tab[h].r |= b;
}
void Flush() { // what was accessed since the last point at which all workers met
    if (!slots) return;
    if (!sums) sums = new std::map<std::vector<long>, long>();
    for (size_t h : *slots) {
        Cell& c = tab[h];
        std::vector<long> k{__builtin_popcountll(c.r), __builtin_popcountll(c.w), __builtin_popcountll(c.r | c.w), __builtin_popcountll(c.a), __builtin_popcountll(c.r | c.w | c.a)};
        (*sums)[k]++; c = Cell();
    }
    slots->clear(); used = 0;
}
uintptr_t tlslo = 0, tlshi = 0; // this thread's own variables: every worker of a real team has its own
int TlsSize(struct dl_phdr_info* i, size_t, void* d) { for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) *static_cast<size_t*>(d) += i->dlpi_phdr[k].p_memsz + i->dlpi_phdr[k].p_align; return 0; }
void FindTls() { size_t n = 0; dl_iterate_phdr(TlsSize, &n); tlshi = reinterpret_cast<uintptr_t>(__builtin_thread_pointer()); tlslo = tlshi - n; }
int building = -1; // the worker that sets up a local static
void Yield() { swapcontext(&W[cur].ctx, &sched); }
void Access(const void* p, size_t n, int kind) {
    if (!active || quiet) return;
    quiet = true;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    uintptr_t s = reinterpret_cast<uintptr_t>(W[cur].stack);
    if (!tlshi) FindTls();
    bool own = (a >= s && a < s + STACK) || (a >= tlslo && a < tlshi) || building == cur;
    if (!own) for (size_t i = 0; i < n; i++) Mark(a + i, lock_owner == cur ? 2 : kind);
    quiet = false;
    if (own) return;
    bool sw = mode == 2 ? (Rand() & 1) : mode == 3 ? (Rand() & 15) == 0 : mode == 5 ? true : mode == 6 ? (Rand() & 127) == 0 : false;
    if (sw) Yield();
}
void Entry() { body(bodyarg); W[cur].done = true; Yield(); }
void Run(void (*fn)(void*), void* data, unsigned n) {
    if (active || nw) { fn(data); return; } // nested: by the worker alone
    nw = n ? static_cast<int>(n) : icv; if (nw < 1) nw = 1; if (nw > MAXW) nw = MAXW;
    if (nw > maxw) maxw = nw; regions++;
    body = fn; bodyarg = data; mode = static_cast<int>(Rand() % 7); lock_owner = -1; lock_depth = 0; arrived = 0; waitgen = 0; turn = 0;
    if (!shares) { shares = new std::vector<Share>(); singles = new std::vector<int>(); deferred = new std::vector<void*>(); }
    for (int i = 0; i < nw; i++) {
        Worker& w = W[i]; w.done = false; w.loops = w.singles = w.barriers = 0; w.ws = -1;
        if (!w.stack) w.stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&w.ctx); w.ctx.uc_stack.ss_sp = w.stack; w.ctx.uc_stack.ss_size = STACK; w.ctx.uc_link = nullptr;
        makecontext(&w.ctx, Entry, 0);
    }
    int last = -1;
    while (true) {
        int live = 0; for (int i = 0; i < nw; i++) live += !W[i].done; if (!live) break;
        int k = -1;
        if (mode == 0 || mode == 1 || mode == 4) { // one after another: in order, backwards, in any order
            if (last >= 0 && !W[last].done && W[last].barriers <= waitgen && (lock_owner < 0 || lock_owner == last)) k = last;
        }
        int from = mode == 5 ? last + 1 : mode == 0 ? 0 : mode == 1 ? nw - 1 : static_cast<int>(Rand() % nw);
        for (int t = 0; k < 0 && t < nw; t++) { int j = mode == 1 ? (from - t + nw) % nw : (from + t) % nw; if (!W[j].done && W[j].barriers <= waitgen) k = j; }
        if (k < 0) { fprintf(stderr, "PAR: workers wait for each other\n"); abort(); }
        last = cur = k; active = true; swapcontext(&sched, &W[k].ctx); active = false; cur = -1;
        int wait = 0, alive = 0; for (int i = 0; i < nw; i++) if (!W[i].done) { alive++; wait += W[i].barriers > waitgen; }
        if (alive && wait == alive) { waitgen++; Flush(); }
    }
    Flush(); nw = 0;
    shares->clear(); singles->clear();
    for (void* p : *deferred) free(p); deferred->clear();
}
void Lock() { if (!nw || cur < 0) return; if (mode == 2 || mode == 5) Yield(); while (lock_owner >= 0 && lock_owner != cur) Yield(); lock_owner = cur; lock_depth++; }
void Unlock() { if (!nw || cur < 0) return; if (--lock_depth == 0) lock_owner = -1; if (mode == 2 || mode == 5) Yield(); }
void Barrier() { if (!nw || cur < 0) return; W[cur].barriers++; Yield(); }
Share& Loop(int k, long s, long e, long i, long c, int sections) {
    while (static_cast<int>(shares->size()) <= k) { Share x; x.init = false; shares->push_back(x); }
    Share& h = (*shares)[k]; if (!h.init) { h.init = true; h.next = s; h.end = e; h.incr = i; h.chunk = c < 1 ? 1 : c; h.sections = sections; } return h;
}
Share one; // for loops outside of regions
Share& Cur() { return nw && cur >= 0 ? (*shares)[W[cur].ws] : one; }
bool Next(long* s, long* e) {
    Share& h = Cur(); if (mode == 2 || mode == 5) { if (nw && cur >= 0) Yield(); }
    Share& g = Cur(); (void)h;
    if (g.incr > 0 ? g.next >= g.end : g.next <= g.end) return false;
    *s = g.next; long t = g.next + g.incr * g.chunk; if (g.incr > 0 ? t > g.end : t < g.end) t = g.end; *e = t; g.next = t; return true;
}
bool Start(long s, long e, long i, long c, long* a, long* b) {
    if (nw && cur >= 0) { W[cur].ws = W[cur].loops++; Loop(W[cur].ws, s, e, i, c, 0); } else { one.next = s; one.end = e; one.incr = i; one.chunk = c < 1 ? 1 : c; }
    return Next(a, b);
}
void RunLoop(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c) {
    if (active || nw) { one.next = s; one.end = e; one.incr = i; one.chunk = c < 1 ? 1 : c; fn(d); return; }
    struct Pack { void (*fn)(void*); void* d; long s, e, i, c; } p = {fn, d, s, e, i, c};
    Run([](void* q) { Pack* x = static_cast<Pack*>(q); W[cur].ws = W[cur].loops++; Loop(W[cur].ws, x->s, x->e, x->i, x->c, 0); x->fn(x->d); }, &p, n);
}
}
namespace par {
void Seed(unsigned long long s) { rng = s * 2862933555777941757ULL + 3037000493ULL; if (!rng) rng = 1; for (int i = 0; i < 8; i++) Rand(); }
std::string Take() {
    std::string t = "{\"n\":" + std::to_string(regions) + ",\"workers\":" + std::to_string(maxw) + ",\"max\":" + std::to_string(icv) + ",\"use\":[";
    bool first = true;
    if (sums) for (auto& kv : *sums) { t += first ? "" : ","; first = false; t += "{\"r\":" + std::to_string(kv.first[0]) + ",\"w\":" + std::to_string(kv.first[1]) + ",\"u\":" + std::to_string(kv.first[2]) + ",\"a\":" + std::to_string(kv.first[3]) + ",\"ua\":" + std::to_string(kv.first[4]) + "}"; }
    if (sums) sums->clear(); regions = 0; maxw = 0;
    static const char* own = getenv("VT_PAR_AUTO"); // another team for every event
    if (own) { static bool init = false; if (!init) { init = true; Seed(strtoull(own, nullptr, 10)); } const int n[] = {1, 2, 3, 4, 5, 7, 8, 16, 40}; icv = n[Rand() % 9]; }
    return t + "]}";
}
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (!p) return; if (active && !quiet) { quiet = true; deferred->push_back(p); quiet = false; } else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { Run(fn, d, n); }
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { RunLoop(fn, d, n, s, e, i, c); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { RunLoop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { RunLoop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { RunLoop(fn, d, n, s, e, i, 1); }
#define LOOP(name) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return Start(s, e, i, c, a, b); } bool GOMP_loop_##name##_next(long* a, long* b) { return Next(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(name) bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return Start(s, e, i, 1, a, b); } bool GOMP_loop_##name##_next(long* a, long* b) { return Next(a, b); }
RLOOP(runtime) RLOOP(maybe_nonmonotonic_runtime) RLOOP(nonmonotonic_runtime)
void GOMP_loop_end() { Barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { Barrier(); }
bool GOMP_single_start() { if (!nw || cur < 0) return true; int k = W[cur].singles++; while (static_cast<int>(singles->size()) <= k) singles->push_back(0); return (*singles)[k]++ == 0; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return Start(1, n + 1, 1, 1, &a, &b) ? a : 0; }
unsigned GOMP_sections_next() { long a, b; return Next(&a, &b) ? a : 0; }
void GOMP_sections_end() { Barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned) { RunLoop(fn, d, n, 1, c + 1L, 1, 1); }
void GOMP_critical_start() { Lock(); }
void GOMP_critical_end() { Unlock(); }
void GOMP_critical_name_start(void**) { Lock(); }
void GOMP_critical_name_end(void**) { Unlock(); }
void GOMP_atomic_start() { Lock(); }
void GOMP_atomic_end() { Unlock(); }
int omp_get_num_threads() { return nw && cur >= 0 ? nw : 1; }
int omp_get_thread_num() { return nw && cur >= 0 ? cur : 0; }
int omp_get_max_threads() { return icv; }
int omp_in_parallel() { return nw > 1 && cur >= 0; }
void omp_set_num_threads(int n) { icv = n < 1 ? 1 : n > MAXW ? MAXW : n; }
void omp_init_lock(int* l) { *l = 0; }
void omp_destroy_lock(int*) {}
void omp_set_lock(int*) { Lock(); }
void omp_unset_lock(int*) { Unlock(); }
int __cxa_guard_acquire(long long* g) {
    char* c = reinterpret_cast<char*>(g);
    while (c[1] && nw && cur >= 0) Yield();
    if (c[0]) return 0;
    c[1] = 1; if (nw && cur >= 0 && building < 0) building = cur; return 1;
}
void __cxa_guard_release(long long* g) { char* c = reinterpret_cast<char*>(g); c[0] = 1; c[1] = 0; if (building == cur) building = -1; }
void __cxa_guard_abort(long long* g) { reinterpret_cast<char*>(g)[1] = 0; if (building == cur) building = -1; }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { Access(p, n, 0); } void __tsan_write##n(void* p) { Access(p, n, 1); } void __tsan_unaligned_read##n(void* p) { Access(p, n, 0); } void __tsan_unaligned_write##n(void* p) { Access(p, n, 1); } \
    void __tsan_volatile_read##n(void* p) { Access(p, n, 0); } void __tsan_volatile_write##n(void* p) { Access(p, n, 1); } void __tsan_read_write##n(void* p) { Access(p, n, 0); Access(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) Access(p, 8, 1); else Access(p, 8, 0); }
void __tsan_vptr_read(void** p) { Access(p, 8, 0); }
void __tsan_read_range(void* p, unsigned long n) { Access(p, n, 0); }
void __tsan_write_range(void* p, unsigned long n) { Access(p, n, 1); }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* p, int) { Access(const_cast<T*>(p), sizeof(T), 2); return __atomic_load_n(p, 5); } \
void __tsan_atomic##bits##_store(volatile T* p, T v, int) { Access(const_cast<T*>(p), sizeof(T), 2); __atomic_store_n(p, v, 5); } \
T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { Access(const_cast<T*>(p), sizeof(T), 2); return __atomic_exchange_n(p, v, 5); } \
T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { Access(const_cast<T*>(p), sizeof(T), 2); return __atomic_fetch_add(p, v, 5); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { Access(const_cast<T*>(p), sizeof(T), 2); return __atomic_fetch_sub(p, v, 5); } \
T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { Access(const_cast<T*>(p), sizeof(T), 2); return __atomic_fetch_and(p, v, 5); } \
T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { Access(const_cast<T*>(p), sizeof(T), 2); return __atomic_fetch_or(p, v, 5); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { Access(const_cast<T*>(p), sizeof(T), 2); return __atomic_fetch_xor(p, v, 5); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { Access(const_cast<T*>(p), sizeof(T), 2); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { Access(const_cast<T*>(p), sizeof(T), 2); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) { Access(const_cast<T*>(p), sizeof(T), 2); __atomic_compare_exchange_n(p, &c, v, false, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
