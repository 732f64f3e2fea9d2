// Runtime of the monitoring Kokkos stand-in: arenas, accounting, hostile schedules, thread pool.
#include <Kokkos_Core.hpp>

#include <condition_variable>
#include <csignal>
#include <map>
#include <mutex>
#include <thread>
#include <unordered_map>
#include <unordered_set>

#include <sys/mman.h>
#include <unistd.h>

#include "nfm_control.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define NFM_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define NFM_TSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) && !defined(NFM_ASAN)
#define NFM_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__) && !defined(NFM_TSAN)
#define NFM_TSAN 1
#endif

#ifdef NFM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define NFM_POISON(p, n) __asan_poison_memory_region((p), (n))
#define NFM_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define NFM_POISON(p, n) ((void)0)
#define NFM_UNPOISON(p, n) ((void)0)
#endif
#if defined(NFM_ASAN) || defined(NFM_TSAN)
#include <sanitizer/common_interface_defs.h>
#define NFM_TRACE() __sanitizer_print_stack_trace()
#else
#define NFM_TRACE() ((void)0)
#endif
#ifdef NFM_TSAN
extern "C" void AnnotateIgnoreSyncBegin(const char*, int);
extern "C" void AnnotateIgnoreSyncEnd(const char*, int);
#define NFM_NOSYNC_BEGIN() AnnotateIgnoreSyncBegin(__FILE__, __LINE__)
#define NFM_NOSYNC_END() AnnotateIgnoreSyncEnd(__FILE__, __LINE__)
#else
#define NFM_NOSYNC_BEGIN() ((void)0)
#define NFM_NOSYNC_END() ((void)0)
#endif

namespace NFM
{
namespace
{
constexpr std::size_t kArena = std::size_t(8) << 30;
constexpr std::size_t kRed = 64;

struct Arena
{
    char* base = nullptr;
    std::size_t top = 0;    // bump pointer
    std::size_t mapped = 0; // end of the part whose protection is managed
    bool open = false;      // its protection now
};
struct Block
{
    std::size_t bytes = 0;
    int mem = 0;
    bool live = false;
    uint64_t serial = 0;
    std::string label;
};

struct State
{
    Config cfg;
    Stats stats;
    Arena arena[2];
    std::recursive_mutex mtx;
    std::map<const char*, Block> blocks; // live and freed (until reset)
    std::size_t live = 0, liveBytes = 0;
    std::vector<std::function<void()>> queue;
    bool draining = false;
    int openDepth = 0;
    bool inDevice = false;
    uint64_t rng = 0x9e3779b97f4a7c15ull;
    std::unordered_set<uint64_t> orders;
    void (*abortHook)(const char*) = nullptr;
    bool arenas = true;
};
State& S()
{
    static State* s = []
    {
        auto* st = new State;
#ifdef NFM_TSAN
        st->arenas = false;
#endif
        if (st->arenas)
        {
            for (auto& a : st->arena)
            {
                void* p = mmap(
                    nullptr, kArena, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0
                );
                if (p == MAP_FAILED)
                {
                    std::perror("NFM: mmap");
                    _exit(97);
                }
                a.base = static_cast<char*>(p);
            }
        }
        return st;
    }();
    return *s;
}
uint64_t mix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void protect(int m, bool open)
{
    State& s = S();
    if (!s.arenas || s.arena[m].mapped == 0 || s.arena[m].open == open) return;
    s.arena[m].open = open;
    mprotect(s.arena[m].base, s.arena[m].mapped, open ? PROT_READ | PROT_WRITE : PROT_NONE);
}
// desired protection for the current mode
void applyProtection()
{
    State& s = S();
    if (!s.arenas) return;
    bool all = s.openDepth > 0 || !s.cfg.protect;
    protect(0, all || !s.inDevice);
    protect(1, all || s.inDevice);
}
struct Open
{
    Open()
    {
        S().openDepth++;
        applyProtection();
    }
    ~Open()
    {
        S().openDepth--;
        applyProtection();
    }
};
struct DeviceScope
{
    bool prev;
    DeviceScope() : prev(S().inDevice)
    {
        S().inDevice = true;
        applyProtection();
    }
    ~DeviceScope()
    {
        S().inDevice = prev;
        applyProtection();
    }
};

void segvHandler(int sig, siginfo_t* info, void*)
{
    const char* a = static_cast<const char*>(info->si_addr);
    State& s = S();
    int which = -1;
    for (int m = 0; m < 2; ++m)
        if (s.arenas && a >= s.arena[m].base && a < s.arena[m].base + kArena) which = m;
    char buf[256];
    if (which == 1)
        snprintf(buf, sizeof buf, "\nNFM-VIOLATION: host code dereferenced device memory\n");
    else if (which == 0)
        snprintf(buf, sizeof buf, "\nNFM-VIOLATION: device kernel dereferenced host memory\n");
    else snprintf(buf, sizeof buf, "\nNFM-VIOLATION: crash, signal %d at %p\n", sig, (void*)a);
    (void)!write(2, buf, strlen(buf));
    NFM_TRACE();
    _exit(66);
}

// ------------------------------------------------------------------------------- thread pool
struct Pool
{
    std::mutex m;
    std::condition_variable cv, done;
    std::vector<std::thread> th;
    const std::function<void(unsigned)>* job = nullptr;
    uint64_t epoch = 0;
    unsigned pending = 0;
    void ensure(unsigned n)
    {
        while (th.size() < n)
        {
            unsigned id = (unsigned)th.size();
            th.emplace_back(
                [this, id]
                {
                    uint64_t seen = 0;
                    for (;;)
                    {
                        const std::function<void(unsigned)>* j;
                        {
                            std::unique_lock<std::mutex> l(m);
                            cv.wait(l, [&] { return epoch != seen && job; });
                            seen = epoch;
                            j = job;
                        }
                        (*j)(id);
                        {
                            std::lock_guard<std::mutex> l(m);
                            if (--pending == 0) done.notify_all();
                        }
                    }
                }
            );
            th.back().detach();
        }
    }
    void run(unsigned n, const std::function<void(unsigned)>& f)
    {
        ensure(n);
        std::unique_lock<std::mutex> l(m);
        job = &f;
        pending = (unsigned)th.size();
        epoch++;
        cv.notify_all();
        done.wait(l, [&] { return pending == 0; });
        job = nullptr;
    }
};
Pool& pool()
{
    static Pool* p = new Pool;
    return *p;
}
} // namespace

Config& cfg() { return S().cfg; }
Stats& stats() { return S().stats; }

void install()
{
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = segvHandler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
}
void reseed(uint64_t seed)
{
    S().cfg.seed = seed;
    S().rng = seed * 0x9e3779b97f4a7c15ull + 12345;
}
void setAbortHook(void (*h)(const char*)) { S().abortHook = h; }
bool separateMemory() { return S().arenas && S().cfg.protect; }

[[noreturn]] void violation(const std::string& what)
{
    std::cout.flush();
    std::fprintf(stderr, "\nNFM-VIOLATION: %s\n", what.c_str());
    NFM_TRACE();
    std::fflush(stderr);
    _exit(66);
}

void* alloc(Mem m, std::size_t bytes, const char* label)
{
    State& s = S();
    std::lock_guard<std::recursive_mutex> g(s.mtx);
    if (s.cfg.failAlloc >= 0 && s.cfg.failAlloc-- == 0)
    {
        s.cfg.allocFailed = true;
        throw std::bad_alloc();
    }
    Inside inside;
    s.stats.allocs++;
    s.stats.bytes += bytes;
    if (bytes > (std::size_t(1) << 33))
        violation("allocation of " + std::to_string(bytes) + " bytes requested");
    std::size_t n = (bytes + 63) / 64 * 64;
    char* p;
    if (s.arenas)
    {
        Arena& a = s.arena[(int)m];
        std::size_t need = kRed + n + kRed;
        if (a.top + need > kArena)
        {
            std::fprintf(stderr, "NFM: arena exhausted\n");
            _exit(97);
        }
        char* start = a.base + a.top;
        a.top += need;
        std::size_t newMapped = (a.top + 4095) / 4096 * 4096;
        // grow in 1 MiB steps so that protection changes stay cheap
        if (newMapped > a.mapped)
        {
            std::size_t grow = (newMapped + (1 << 20) - 1) / (1 << 20) * (1 << 20);
            if (a.open) mprotect(a.base, a.mapped, PROT_NONE);
            a.open = false;
            a.mapped = std::min(grow, kArena);
            applyProtection();
        }
        p = start + kRed;
        {
            Open o;
            NFM_UNPOISON(p, n ? n : 1);
            std::memset(p, 0xFF, n);
        }
        NFM_POISON(start, kRed);
        NFM_POISON(p + bytes, n - bytes + kRed);
    }
    else
    {
        p = static_cast<char*>(std::aligned_alloc(64, n ? n : 64));
        std::memset(p, 0xFF, n ? n : 64);
    }
    Block b;
    b.bytes = bytes;
    b.mem = (int)m;
    b.live = true;
    b.serial = s.stats.allocs;
    b.label = label ? label : "";
    s.blocks[p] = b;
    s.live++;
    s.liveBytes += bytes;
    return p;
}

void release(Mem m, void* q, bool)
{
    Inside inside;
    State& s = S();
    std::lock_guard<std::recursive_mutex> g(s.mtx);
    char* p = static_cast<char*>(q);
    auto it = s.blocks.find(p);
    if (it == s.blocks.end())
        violation("free of a pointer that was never allocated by the executor");
    if (!it->second.live) violation("double free of executor memory");
    if (it->second.mem != (int)m)
        violation("memory allocated in one memory space freed in another");
    s.stats.frees++;
    it->second.live = false;
    s.live--;
    s.liveBytes -= it->second.bytes;
    if (s.arenas)
    {
        {
            Open o;
            std::memset(p, 0xFF, it->second.bytes);
        }
        NFM_POISON(p, std::max<std::size_t>(it->second.bytes, 1));
    }
    else
    {
        s.blocks.erase(it);
        std::free(p);
    }
}

void* reallocate(Mem m, void* q, std::size_t bytes)
{
    Inside inside;
    State& s = S();
    std::lock_guard<std::recursive_mutex> g(s.mtx);
    sync();
    auto it = s.blocks.find(static_cast<char*>(q));
    if (it == s.blocks.end() || !it->second.live)
        violation("realloc of a pointer that is not a live executor allocation");
    if (it->second.mem != (int)m) violation("realloc in a different memory space");
    std::size_t old = it->second.bytes;
    std::string label = it->second.label;
    void* p = alloc(m, bytes, label.c_str());
    {
        Open o;
        std::memcpy(p, q, std::min(old, bytes));
    }
    release(m, q);
    return p;
}

std::size_t liveBlocks() { return S().live; }
std::size_t liveBytes() { return S().liveBytes; }

void resetIfEmpty()
{
    State& s = S();
    std::lock_guard<std::recursive_mutex> g(s.mtx);
    if (!s.arenas || s.live) return;
    if (s.arena[0].top + s.arena[1].top < (std::size_t(2) << 20)) return;
    for (auto& a : s.arena)
    {
        NFM_UNPOISON(a.base, a.mapped);
        madvise(a.base, a.mapped, MADV_DONTNEED);
        mprotect(a.base, a.mapped, PROT_NONE);
        a.top = 0;
        a.mapped = 0;
        a.open = false;
    }
    s.blocks.clear();
}

int owner(const void* q)
{
    State& s = S();
    const char* p = static_cast<const char*>(q);
    if (s.arenas)
    {
        for (int m = 0; m < 2; ++m)
            if (p >= s.arena[m].base && p < s.arena[m].base + kArena) return m;
        return -1;
    }
    std::lock_guard<std::recursive_mutex> g(s.mtx);
    auto it = s.blocks.upper_bound(p);
    if (it == s.blocks.begin()) return -1;
    --it;
    if (p < it->first + std::max<std::size_t>(it->second.bytes, 1)) return it->second.mem;
    return -1;
}

std::vector<std::size_t> order(std::size_t b, std::size_t e)
{
    Inside inside;
    State& s = S();
    std::vector<std::size_t> v(e > b ? e - b : 0);
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = b + i;
    int mode = s.cfg.order;
    uint64_t r;
    {
        std::lock_guard<std::recursive_mutex> g(s.mtx);
        r = mix(s.rng);
    }
    if (mode == 4) mode = (int)(r % 4);
    if (mode == 1) std::reverse(v.begin(), v.end());
    else if (mode == 2)
    {
        for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[mix(r) % i]);
    }
    else if (mode == 3 && v.size() > 2)
    {
        std::size_t stride = 2 + mix(r) % 5;
        std::vector<std::size_t> w;
        for (std::size_t o = 0; o < stride; ++o)
            for (std::size_t i = o; i < v.size(); i += stride) w.push_back(v[i]);
        v.swap(w);
    }
    if (v.size() > 1)
    {
        uint64_t h = 1469598103934665603ull;
        for (auto x : v) h = (h ^ (x - b)) * 1099511628211ull;
        std::lock_guard<std::recursive_mutex> g(s.mtx);
        if (s.orders.size() < 2000000) s.orders.insert(h ^ (v.size() << 40));
        s.stats.orders = s.orders.size();
    }
    return v;
}

std::vector<std::pair<std::size_t, std::size_t>> chunks(std::size_t b, std::size_t e)
{
    Inside inside;
    State& s = S();
    std::vector<std::pair<std::size_t, std::size_t>> c;
    std::lock_guard<std::recursive_mutex> g(s.mtx);
    std::size_t n = e > b ? e - b : 0;
    std::size_t k = 1 + mix(s.rng) % 7;
    std::vector<std::size_t> cut {0, n};
    for (std::size_t i = 1; i < k; ++i) cut.push_back(n ? mix(s.rng) % (n + 1) : 0);
    std::sort(cut.begin(), cut.end());
    for (std::size_t i = 0; i + 1 < cut.size(); ++i) c.emplace_back(b + cut[i], b + cut[i + 1]);
    return c;
}

void runParallel(
    bool device, std::size_t b, std::size_t e, const std::function<void(std::size_t)>& body
)
{
    Inside inside;
    if (e <= b) return;
    auto idx = order(b, e);
    auto go = [&]
    {
        unsigned nt = S().cfg.threads;
        if (nt <= 1)
        {
            for (auto i : idx) body(i);
            return;
        }
        uint64_t r;
        {
            std::lock_guard<std::recursive_mutex> g(S().mtx);
            r = mix(S().rng);
        }
        bool roundRobin = (r & 1) != 0;
        pool().run(
            nt,
            [&](unsigned t)
            {
                if (t >= nt) return;
                if (roundRobin)
                    for (std::size_t k = t; k < idx.size(); k += nt) body(idx[k]);
                else
                {
                    std::size_t lo = idx.size() * t / nt, hi = idx.size() * (t + 1) / nt;
                    for (std::size_t k = lo; k < hi; ++k) body(idx[k]);
                }
            }
        );
    };
    if (device)
    {
        DeviceScope d;
        go();
    }
    else go();
}

void runChunks(bool device, std::size_t n, const std::function<void(std::size_t)>& body)
{
    Inside inside;
    auto idx = order(0, n);
    auto go = [&]
    {
        unsigned nt = S().cfg.threads;
        if (nt <= 1)
        {
            for (auto i : idx) body(i);
            return;
        }
        pool().run(
            nt,
            [&](unsigned t)
            {
                if (t >= nt) return;
                for (std::size_t k = t; k < idx.size(); k += nt) body(idx[k]);
            }
        );
    };
    if (device)
    {
        DeviceScope d;
        go();
    }
    else go();
}

void enqueueDevice(std::function<void()> f)
{
    Inside inside;
    State& s = S();
    if (s.cfg.deferDevice && !s.draining)
    {
        s.stats.deferred++;
        s.queue.push_back(std::move(f));
        return;
    }
    f();
}

void sync()
{
    Inside inside;
    State& s = S();
    if (s.draining) return;
    s.draining = true;
    for (std::size_t i = 0; i < s.queue.size(); ++i) s.queue[i]();
    s.queue.clear();
    s.draining = false;
}

void withHostAndDevice(const std::function<void()>& f)
{
    Open o;
    f();
}

void copyMemory(void* dst, int dstSpace, const void* src, int srcSpace, std::size_t bytes)
{
    Inside inside;
    State& s = S();
    s.stats.deepCopies++;
    if (dstSpace != srcSpace) s.stats.hostDeviceCopies++;
    if (bytes == 0) return;
    auto check = [&](const void* p, int space, const char* what)
    {
        int o = owner(p);
        if (o == -1) o = 0;
        if (o != space)
            violation(
                std::string("copy whose ") + what + " is declared in "
                + (space ? "device" : "host") + " memory but lies in " + (o ? "device" : "host")
                + " memory"
            );
    };
    check(dst, dstSpace, "destination");
    check(src, srcSpace, "source");
    Open o;
    if (dst != src) std::memcpy(dst, src, bytes);
}

namespace
{
struct Lock
{
    alignas(64) unsigned char v = 0;
};
Lock locks[256];
Lock& lockFor(const void* p)
{
    auto h = reinterpret_cast<uintptr_t>(p);
    h ^= h >> 12;
    return locks[(h >> 3) & 255];
}
}
void lockAddr(const void* p)
{
    Lock& l = lockFor(p);
    NFM_NOSYNC_BEGIN();
    while (__atomic_exchange_n(&l.v, 1, __ATOMIC_ACQUIRE))
        std::this_thread::yield();
    NFM_NOSYNC_END();
}
void unlockAddr(const void* p)
{
    Lock& l = lockFor(p);
    NFM_NOSYNC_BEGIN();
    __atomic_store_n(&l.v, 0, __ATOMIC_RELEASE);
    NFM_NOSYNC_END();
}
} // namespace NFM

namespace Kokkos
{
void abort(const char* msg)
{
    if (NFM::S().abortHook) NFM::S().abortHook(msg);
    NFM::violation(std::string("Kokkos::abort: ") + msg);
}
}
