// Simulated OpenMP threads: run-time calls of the compiler, locks, and detection of conflicting accesses.
// Threads of a parallel region run one after the other, each with its static share of the iterations.
// Two accesses to the same memory by different threads of a region, at least one of them writing, without
// a common lock and not separated by a barrier, may happen in either order: that is reported.
#include "fs.h"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <locale>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <cxxabi.h>
extern "C" char __libc_single_threaded;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace {
struct Rec
{
    uint8_t mask, thread, write;
    uint32_t epoch, time;
    uint64_t locks;
    const char* fn;
};
int level = 0, thread = 0, threads = 4, ignore = 0;
uint32_t epoch = 0;
uintptr_t forkFrame = 0;
std::unordered_map<uintptr_t, std::vector<Rec>>* mem = nullptr;
std::vector<const void*> held;          // by the present thread, in order
std::vector<const void*>* known = nullptr; // numbers of locks
uint64_t heldMask = 0;
uint32_t now = 0;                // advances with every release of a lock
uint32_t released[4][64];        // time of the last release of a lock by a thread
uint64_t acquired = 0;           // locks the present thread has taken so far in the region
struct Block
{
    size_t size;
    int thread;
};
std::map<uintptr_t, Block>* blocks = nullptr; // allocated in the region
bool inHook = false;
void onMalloc(const volatile void* p, size_t n)
{
    if (level == 0 || inHook || !mem || !blocks)
        return;
    inHook = true;
    uintptr_t a = (uintptr_t)p;
    auto it = blocks->upper_bound(a);
    if (it != blocks->begin()) {
        --it;
        if (it->first + it->second.size > a)
            blocks->erase(it);
    }
    for (it = blocks->lower_bound(a); it != blocks->end() && it->first < a + n;)
        it = blocks->erase(it);
    (*blocks)[a] = Block{n, thread};
    if (n < (1u << 20))
        for (uintptr_t w = a & ~7ull; w < a + n; w += 8)
            mem->erase(w); // former use of the same addresses
    inHook = false;
}
/* memory which this thread allocated in the region is known to others only after it was published */
bool published(uintptr_t a, int by, uint32_t time)
{
    auto it = blocks->upper_bound(a);
    if (it == blocks->begin())
        return false;
    --it;
    if (it->first + it->second.size <= a || it->second.thread != by)
        return false;
    for (int l = 0; l < 64; l++)
        if ((acquired >> l & 1) && released[by][l] > time)
            return true;
    return false;
}
struct Init
{
    Init()
    {
        __libc_single_threaded = 0;
        __sanitizer_install_malloc_and_free_hooks(onMalloc, [](const volatile void*) {});
    }
} init;
uint64_t lockBit(const void* l)
{
    if (!known)
        known = new std::vector<const void*>;
    for (size_t i = 0; i < known->size(); i++)
        if ((*known)[i] == l)
            return 1ull << (i & 63);
    known->push_back(l);
    return 1ull << ((known->size() - 1) & 63);
}
std::string nice(const char* n)
{
    std::string s(n);
    size_t p = s.find(".omp_outlined");
    if (p != std::string::npos)
        s.resize(p);
    int st = 0;
    char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    if (d && st == 0)
        s = d;
    free(d);
    p = s.find('(');
    if (p != std::string::npos && p > 0)
        s.resize(p);
    return s;
}
void fail(const std::string& s)
{
    static char buf[600];
    snprintf(buf, sizeof buf, "%s", s.c_str());
    fs_fail_(buf);
}
void lock(const void* l, const char* what)
{
    for (const void* h : held)
        if (h == l)
            fail(std::string("a thread waits for ") + what + " that it holds itself");
    held.push_back(l);
    heldMask |= lockBit(l);
    acquired |= lockBit(l);
}
void unlock(const void* l, const char* what)
{
    for (size_t i = held.size(); i-- > 0;)
        if (held[i] == l) {
            held.erase(held.begin() + i);
            if (level > 0)
                released[thread][__builtin_ctzll(lockBit(l))] = ++now;
            heldMask = 0;
            for (const void* h : held)
                heldMask |= lockBit(h);
            return;
        }
    fail(std::string(what) + " is released by a thread that does not hold it");
}
} // namespace
extern "C" {
/* number of locks held */
int fs_locks_held() { return (int)held.size(); }
/* number of threads of parallel regions */
void fs_threads(int n) { threads = n < 1 ? 1 : n > 4 ? 4 : n; }
void __fs_fork()
{
    if (level++ == 0) {
        forkFrame = (uintptr_t)__builtin_frame_address(0);
        if (!mem)
            mem = new std::unordered_map<uintptr_t, std::vector<Rec>>;
        mem->clear();
        if (!blocks)
            blocks = new std::map<uintptr_t, Block>;
        blocks->clear();
        now = 0;
        memset(released, 0, sizeof released);
        epoch = 0;
        if (!held.empty())
            fail("threads are started while a lock is held");
    }
}
int __fs_thread(int t)
{
    if (level > 1)
        return t == 0;
    if (t >= threads)
        return 0;
    if (!held.empty())
        fail("a thread ends holding a lock");
    thread = t;
    epoch = 0;
    acquired = 0;
    return 1;
}
void __fs_join()
{
    if (level == 1 && !held.empty())
        fail("a thread ends holding a lock");
    if (--level == 0)
        thread = 0;
}
void __fs_race(void* p, uint64_t n, int write, const char* fn)
{
    if (level == 0 || ignore || threads == 1 || n == 0)
        return;
    uintptr_t a = (uintptr_t)p;
    if (a < forkFrame && a >= (uintptr_t)__builtin_frame_address(0))
        return; // on the stack of the thread
    static const uintptr_t facet = (uintptr_t)&std::use_facet<std::ctype<char>>(std::locale::classic());
    if (a >= facet && a < facet + sizeof(std::ctype<char>))
        return; // libstdc++ remembers conversions of characters there, every thread the same ones
    for (uintptr_t w = a & ~7ull; w < a + n; w += 8) {
        uint8_t m = 0xff;
        if (w < a)
            m &= (uint8_t)(0xff << (a - w));
        if (w + 8 > a + n)
            m &= (uint8_t)(0xff >> (w + 8 - (a + n)));
        auto& v = (*mem)[w];
        bool there = false;
        for (auto& r : v) {
            if (!(r.mask & m))
                continue;
            if (r.thread == thread) {
                if (r.epoch == epoch && r.locks == heldMask && r.time == now && r.write >= write && (r.mask & m) == m)
                    there = true;
                continue;
            }
            if (r.epoch == epoch && (r.write || write) && !(r.locks & heldMask) && !published(w, r.thread, r.time))
                fail("two threads use the same memory, one writing: " + nice(r.fn) + (r.write ? " (writing)" : " (reading)") + " and " + nice(fn) +
                     (write ? " (writing)" : " (reading)"));
        }
        if (!there)
            v.push_back(Rec{m, (uint8_t)thread, (uint8_t)write, epoch, now, heldMask, fn});
    }
}
/* compiler interface */
int __kmpc_global_thread_num(void*) { return thread; }
void __kmpc_push_num_threads(void*, int, int) {}
void __kmpc_push_proc_bind(void*, int, int) {}
void __kmpc_serialized_parallel(void*, int) { level += level ? 1 : 0; }
void __kmpc_end_serialized_parallel(void*, int) { level -= level ? 1 : 0; }
void __kmpc_barrier(void*, int)
{
    if (level == 1)
        epoch++;
}
void __kmpc_flush(void*) {}
void __kmpc_critical(void*, int, void* l) { lock(l, "a critical section"); }
void __kmpc_critical_with_hint(void*, int, void* l, uint32_t) { lock(l, "a critical section"); }
void __kmpc_end_critical(void*, int, void* l) { unlock(l, "a critical section"); }
int __kmpc_single(void*, int) { return level != 1 || thread == 0; }
void __kmpc_end_single(void*, int) {}
int __kmpc_master(void*, int) { return level != 1 || thread == 0; }
void __kmpc_end_master(void*, int) {}
int __kmpc_masked(void*, int, int) { return level != 1 || thread == 0; }
void __kmpc_end_masked(void*, int) {}
int __kmpc_reduce(void*, int, int, size_t, void*, void (*)(void*, void*), void* l)
{
    lock(l, "a reduction");
    return 1;
}
void __kmpc_end_reduce(void*, int, void* l) { unlock(l, "a reduction"); }
int __kmpc_reduce_nowait(void*, int, int, size_t, void*, void (*)(void*, void*), void* l)
{
    lock(l, "a reduction");
    return 1;
}
void __kmpc_end_reduce_nowait(void*, int, void* l) { unlock(l, "a reduction"); }
} // extern "C"
template <class T, class S>
static void share(T lo, T up, S incr, T& l, T& u, int& last)
{
    last = 1;
    l = lo;
    u = up;
    if (level != 1 || threads == 1)
        return;
    uint64_t n;
    if (incr > 0)
        n = up < lo ? 0 : (uint64_t)(up - lo) / (uint64_t)incr + 1;
    else
        n = lo < up ? 0 : (uint64_t)(lo - up) / (uint64_t)(-incr) + 1;
    uint64_t q = n / threads, r = n % threads;
    uint64_t first = thread * q + ((uint64_t)thread < r ? thread : r), cnt = q + ((uint64_t)thread < r ? 1 : 0);
    last = n && first + cnt == n && cnt;
    if (cnt == 0) {
        // nothing to do: an empty range
        l = incr > 0 ? up + 1 : up - 1;
        u = up;
        return;
    }
    l = (T)(lo + (T)((S)first * incr));
    u = (T)(l + (T)((S)(cnt - 1) * incr));
}
#define STATIC(suf, T, S)                                                                                                                                      \
    extern "C" void __kmpc_for_static_init_##suf(void*, int, int, int* last, T* lo, T* up, S* st, S incr, S)                                                   \
    {                                                                                                                                                          \
        T a = *lo, b = *up, l, u;                                                                                                                              \
        int la;                                                                                                                                                \
        share<T, S>(a, b, incr, l, u, la);                                                                                                                     \
        *lo = l;                                                                                                                                               \
        *up = u;                                                                                                                                               \
        *st = (S)(b - a + 1) > 0 ? (S)(b - a + 1) : 1;                                                                                                         \
        if (last)                                                                                                                                              \
            *last = la;                                                                                                                                        \
    }                                                                                                                                                          \
    static T dl_##suf, du_##suf;                                                                                                                               \
    static S ds_##suf;                                                                                                                                         \
    static int da_##suf, dd_##suf;                                                                                                                             \
    extern "C" void __kmpc_dispatch_init_##suf(void*, int, int, T lo, T up, S st, S)                                                                           \
    {                                                                                                                                                          \
        share<T, S>(lo, up, st, dl_##suf, du_##suf, da_##suf);                                                                                                 \
        ds_##suf = st;                                                                                                                                         \
        dd_##suf = st > 0 ? dl_##suf > du_##suf : dl_##suf < du_##suf;                                                                                         \
    }                                                                                                                                                          \
    extern "C" int __kmpc_dispatch_next_##suf(void*, int, int* last, T* lo, T* up, S* st)                                                                      \
    {                                                                                                                                                          \
        if (dd_##suf)                                                                                                                                          \
            return 0;                                                                                                                                          \
        dd_##suf = 1;                                                                                                                                          \
        *lo = dl_##suf;                                                                                                                                        \
        *up = du_##suf;                                                                                                                                        \
        *st = ds_##suf;                                                                                                                                        \
        if (last)                                                                                                                                              \
            *last = da_##suf;                                                                                                                                  \
        return 1;                                                                                                                                              \
    }                                                                                                                                                          \
    extern "C" void __kmpc_dispatch_fini_##suf(void*, int) {}
STATIC(4, int32_t, int32_t)
STATIC(4u, uint32_t, int32_t)
STATIC(8, int64_t, int64_t)
STATIC(8u, uint64_t, int64_t)
extern "C" {
void __kmpc_for_static_fini(void*, int) {}
void __kmpc_dispatch_deinit(void*, int) {}
int omp_in_parallel() { return level > 0; }
int omp_get_thread_num() { return level == 1 ? thread : 0; }
int omp_get_num_threads() { return level == 1 ? threads : 1; }
int omp_get_max_threads() { return threads; }
int omp_get_num_procs() { return threads; }
void omp_set_num_threads(int) {}
int omp_get_level() { return level; }
double omp_get_wtime() { return 0; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock(l, "a lock"); }
void omp_unset_lock(void* l) { unlock(l, "a lock"); }
int omp_test_lock(void* l)
{
    for (const void* h : held)
        if (h == l)
            return 0;
    lock(l, "a lock");
    return 1;
}
/* initialisation of static variables is done by one thread, the others wait */
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
void __wrap___cxa_guard_abort(uint64_t* g)
{
    ignore--;
    __real___cxa_guard_abort(g);
}
int __wrap___cxa_guard_acquire(uint64_t* g)
{
    int r = __real___cxa_guard_acquire(g);
    if (r)
        ignore++;
    return r;
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    ignore--;
    __real___cxa_guard_release(g);
}
}
