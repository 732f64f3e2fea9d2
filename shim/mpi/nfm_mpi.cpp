#include "nfm_mpi.hpp"
#include <chrono>
#include <complex>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <mutex>
#include <string>
#include <thread>
#include <type_traits>
#include <unistd.h>
namespace NFMPI
{
namespace
{
[[noreturn]] void violation(const std::string& s)
{
    std::fprintf(stderr, "MONITOR MPI: %s\n", s.c_str());
    std::fflush(nullptr);
    _exit(66);
}
struct Req
{
    bool send = false, matched = false, done = false, freed = false;
    int src = 0, dst = 0, tag = 0, count = 0, delay = 0, peer = -1;
    MPI_Comm comm = 0;
    MPI_Datatype type = 0;
    const char* sbuf = nullptr;
    char* rbuf = nullptr;
    std::size_t bytes = 0;
    uint64_t sum = 0;
    bool copied = false, eager = false, delivered = false;
    std::vector<char> copy;
};
struct World
{
    std::mutex m;
    std::condition_variable cv;
    int n = 1, maxDelay = 4;
    uint64_t s = 1;
    std::deque<Req> reqs;
    std::vector<std::vector<int>> comms; // communicator -> world ranks (index 0 unused)
    uint64_t epoch = 0; // progress counter
    std::chrono::steady_clock::time_point lastProgress;
    // collectives, one at a time per communicator
    struct Coll
    {
        int arrived = 0, left = 0;
        uint64_t gen = 0;
        int count = 0;
        MPI_Datatype type = 0;
        MPI_Op op = 0;
        std::vector<std::vector<char>> in;
        std::vector<char> out;
    };
    std::vector<Coll> coll;
    Stats st;
    int level = MPI_THREAD_MULTIPLE;
    bool initialized = false;
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int delay() { return maxDelay ? (int)(next() % (uint64_t)(maxDelay + 1)) : 0; }
};
World& w()
{
    static World x;
    return x;
}
thread_local int myRank = 0;
std::size_t sizeOf(MPI_Datatype t)
{
    switch (t)
    {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: return 1;
    case MPI_WCHAR: return sizeof(wchar_t);
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: return sizeof(short);
    case MPI_INT: case MPI_UNSIGNED: return sizeof(int);
    case MPI_LONG: case MPI_UNSIGNED_LONG: return sizeof(long);
    case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: return sizeof(long long);
    case MPI_FLOAT: return sizeof(float);
    case MPI_DOUBLE: return sizeof(double);
    case MPI_LONG_DOUBLE: return sizeof(long double);
    case MPI_CXX_BOOL: return sizeof(bool);
    case MPI_CXX_FLOAT_COMPLEX: return sizeof(std::complex<float>);
    case MPI_CXX_DOUBLE_COMPLEX: return sizeof(std::complex<double>);
    case MPI_CXX_LONG_DOUBLE_COMPLEX: return sizeof(std::complex<long double>);
    }
    violation("unknown data type " + std::to_string(t));
}
const std::vector<int>& group(MPI_Comm c)
{
    if (c <= 0 || (std::size_t)c >= w().comms.size()) violation("invalid communicator " + std::to_string(c));
    return w().comms[(std::size_t)c];
}
int rankIn(MPI_Comm c)
{
    if (c == MPI_COMM_SELF) return 0;
    auto& g = group(c);
    for (std::size_t i = 0; i < g.size(); ++i)
        if (g[i] == myRank) return (int)i;
    violation("rank " + std::to_string(myRank) + " is not in communicator " + std::to_string(c));
}
int worldRank(MPI_Comm c, int r)
{
    if (c == MPI_COMM_SELF && r == 0) return myRank;
    auto& g = group(c);
    if (r < 0 || (std::size_t)r >= g.size()) violation("rank " + std::to_string(r) + " does not exist in a communicator of " + std::to_string(g.size()));
    return g[(std::size_t)r];
}
uint64_t sumOf(const char* p, std::size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (std::size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
    return h;
}
void progress()
{
    w().epoch++;
    w().lastProgress = std::chrono::steady_clock::now();
}
// reads the send buffer (which must still hold what was posted)
void take(Req& r)
{
    if (r.copied) return;
    if (sumOf(r.sbuf, r.bytes) != r.sum) violation("send buffer of message " + std::to_string(r.src) + " -> " + std::to_string(r.dst) + " (tag " + std::to_string(r.tag) + ") was changed while the message was in flight");
    r.copy.assign(r.sbuf, r.sbuf + r.bytes);
    r.copied = true;
}
void match()
{
    auto& q = w().reqs;
    for (std::size_t i = 0; i < q.size(); ++i)
    {
        auto& s = q[i];
        if (!s.send || s.matched) continue;
        for (std::size_t j = 0; j < q.size(); ++j)
        {
            auto& r = q[j];
            if (r.send || r.matched || r.comm != s.comm || r.tag != s.tag || r.src != s.src || r.dst != s.dst) continue;
            s.matched = r.matched = true;
            s.peer = (int)j;
            r.peer = (int)i;
            if (s.bytes > r.bytes) violation("message " + std::to_string(s.src) + " -> " + std::to_string(s.dst) + " of " + std::to_string(s.bytes) + " bytes is truncated by a receive of " + std::to_string(r.bytes) + " bytes");
            if (s.type != r.type) violation("message sent as type " + std::to_string(s.type) + " is received as type " + std::to_string(r.type));
            if (!s.done) s.delay = w().delay();
            r.delay = w().delay();
            progress();
            break;
        }
    }
}
bool poll(Req& r)
{
    if (r.done) return true;
    if (!r.matched && !r.eager) return false;
    if (r.delay-- > 0) return false;
    if (r.send)
    {
        take(r);
    }
    else
    {
        auto& s = w().reqs[(std::size_t)r.peer];
        take(s);
        if (s.bytes) std::memcpy(r.rbuf, s.copy.data(), s.bytes);
        s.delivered = true;
        w().st.delivered++;
        w().st.bytes += s.bytes;
    }
    r.done = true;
    progress();
    return true;
}
bool testLocked(MPI_Request* q)
{
    if (!q) violation("MPI_Test on a null pointer");
    if (*q == MPI_REQUEST_NULL) return true;
    if (*q < 0 || (std::size_t)*q >= w().reqs.size() || w().reqs[(std::size_t)*q].freed) violation("test of the invalid or completed request " + std::to_string(*q));
    auto& r = w().reqs[(std::size_t)*q];
    if ((r.send ? r.src : r.dst) != myRank) violation("rank " + std::to_string(myRank) + " tests a request of another rank");
    if (poll(r))
    {
        r.freed = true;
        *q = MPI_REQUEST_NULL;
        return true;
    }
    w().st.pendingTests++;
    if (w().st.pendingTests % 256 == 0 && std::chrono::steady_clock::now() - w().lastProgress > std::chrono::seconds(20))
        violation("no progress for 20 s: " + std::string(r.send ? "send" : "receive") + " request " + std::to_string(r.src) + " -> " + std::to_string(r.dst) + " (tag " + std::to_string(r.tag) + ") is never completed");
    return false;
}
template<typename T>
void combine(T* a, const T* b, int n, MPI_Op op)
{
    for (int i = 0; i < n; ++i)
    {
        if constexpr (std::is_arithmetic_v<T>)
        {
            switch (op)
            {
            case MPI_MAX: a[i] = b[i] > a[i] ? b[i] : a[i]; continue;
            case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; continue;
            default: break;
            }
        }
        if constexpr (std::is_integral_v<T>)
        {
            switch (op)
            {
            case MPI_LAND: a[i] = (T)(a[i] && b[i]); continue;
            case MPI_LOR: a[i] = (T)(a[i] || b[i]); continue;
            case MPI_BAND: a[i] = (T)(a[i] & b[i]); continue;
            case MPI_BOR: a[i] = (T)(a[i] | b[i]); continue;
            default: break;
            }
        }
        if constexpr (!std::is_same_v<T, bool>)
        {
            if (op == MPI_SUM) { a[i] = (T)(a[i] + b[i]); continue; }
            if (op == MPI_PROD) { a[i] = (T)(a[i] * b[i]); continue; }
        }
        violation("reduction operation " + std::to_string(op) + " is not defined for this data type");
    }
}
void combineAny(char* a, const char* b, int n, MPI_Datatype t, MPI_Op op)
{
    switch (t)
    {
    case MPI_CHAR: case MPI_SIGNED_CHAR: return combine((signed char*)a, (const signed char*)b, n, op);
    case MPI_UNSIGNED_CHAR: return combine((unsigned char*)a, (const unsigned char*)b, n, op);
    case MPI_WCHAR: return combine((wchar_t*)a, (const wchar_t*)b, n, op);
    case MPI_SHORT: return combine((short*)a, (const short*)b, n, op);
    case MPI_INT: return combine((int*)a, (const int*)b, n, op);
    case MPI_LONG: return combine((long*)a, (const long*)b, n, op);
    case MPI_LONG_LONG: return combine((long long*)a, (const long long*)b, n, op);
    case MPI_UNSIGNED_SHORT: return combine((unsigned short*)a, (const unsigned short*)b, n, op);
    case MPI_UNSIGNED: return combine((unsigned*)a, (const unsigned*)b, n, op);
    case MPI_UNSIGNED_LONG: return combine((unsigned long*)a, (const unsigned long*)b, n, op);
    case MPI_UNSIGNED_LONG_LONG: return combine((unsigned long long*)a, (const unsigned long long*)b, n, op);
    case MPI_FLOAT: return combine((float*)a, (const float*)b, n, op);
    case MPI_DOUBLE: return combine((double*)a, (const double*)b, n, op);
    case MPI_LONG_DOUBLE: return combine((long double*)a, (const long double*)b, n, op);
    case MPI_CXX_BOOL: return combine((bool*)a, (const bool*)b, n, op);
    case MPI_CXX_FLOAT_COMPLEX: return combine((std::complex<float>*)a, (const std::complex<float>*)b, n, op);
    case MPI_CXX_DOUBLE_COMPLEX: return combine((std::complex<double>*)a, (const std::complex<double>*)b, n, op);
    case MPI_CXX_LONG_DOUBLE_COMPLEX: return combine((std::complex<long double>*)a, (const std::complex<long double>*)b, n, op);
    }
    violation("reduction of data type " + std::to_string(t));
}
} // namespace
void world(int n, uint64_t seed, int maxDelay)
{
    std::lock_guard l(w().m);
    w().n = n;
    w().s = seed;
    w().maxDelay = maxDelay;
    w().reqs.clear();
    std::vector<int> all;
    for (int i = 0; i < n; ++i) all.push_back(i);
    w().comms = {{}, all, {}};
    w().coll.clear();
    w().coll.resize(3);
    w().lastProgress = std::chrono::steady_clock::now();
    w().initialized = false;
}
void setRank(int r) { myRank = r; }
MPI_Comm comm(const std::vector<int>& ranks)
{
    std::lock_guard l(w().m);
    w().comms.push_back(ranks);
    w().coll.emplace_back();
    return (MPI_Comm)w().comms.size() - 1;
}
void threads(int n, const std::function<void(int)>& f)
{
    std::vector<std::thread> t;
    for (int i = 0; i < n; ++i)
        t.emplace_back([&f, i] {
            setRank(i);
            f(i);
        });
    for (auto& x : t) x.join();
    setRank(0);
}
Stats& stats() { return w().st; }
std::size_t open()
{
    std::lock_guard l(w().m);
    std::size_t k = 0;
    for (auto& r : w().reqs) k += !r.freed;
    return k;
}
std::size_t unmatched()
{
    std::lock_guard l(w().m);
    std::size_t k = 0;
    for (auto& r : w().reqs) k += r.send && !r.delivered;
    return k;
}
int& threadLevel() { return w().level; }
} // namespace NFMPI
using namespace NFMPI;
int MPI_Init(int*, char***)
{
    std::lock_guard l(w().m);
    if (w().initialized) violation("MPI_Init called twice");
    w().initialized = true;
    w().st.inits++;
    return MPI_SUCCESS;
}
int MPI_Init_thread(int* a, char*** b, int, int* provided)
{
    MPI_Init(a, b);
    *provided = w().level;
    return MPI_SUCCESS;
}
int MPI_Initialized(int* f)
{
    *f = w().initialized;
    return MPI_SUCCESS;
}
int MPI_Finalize()
{
    std::lock_guard l(w().m);
    if (!w().initialized) violation("MPI_Finalize without MPI_Init");
    w().initialized = false;
    w().st.finals++;
    return MPI_SUCCESS;
}
int MPI_Comm_rank(MPI_Comm c, int* r)
{
    std::lock_guard l(w().m);
    *r = rankIn(c);
    return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm c, int* n)
{
    std::lock_guard l(w().m);
    *n = c == MPI_COMM_SELF ? 1 : (int)group(c).size();
    return MPI_SUCCESS;
}
namespace
{
void post(Req r, MPI_Request* q)
{
    if (r.tag < 0 || r.tag > 32767) violation("tag " + std::to_string(r.tag) + " is outside the guaranteed range");
    if (r.count < 0) violation("negative message size");
    w().reqs.push_back(std::move(r));
    *q = (MPI_Request)w().reqs.size() - 1;
    match();
}
}
int MPI_Isend(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* q)
{
    std::lock_guard l(w().m);
    Req r;
    r.send = true;
    r.src = myRank;
    rankIn(c);
    r.dst = worldRank(c, dst);
    r.tag = tag;
    r.count = n;
    r.comm = c;
    r.type = t;
    r.bytes = (std::size_t)n * sizeOf(t);
    r.sbuf = (const char*)p;
    r.sum = sumOf(r.sbuf, r.bytes);
    r.eager = w().next() % 3 == 0;
    r.delay = w().delay();
    (r.eager ? w().st.eager : w().st.rendezvous)++;
    w().st.sends++;
    post(std::move(r), q);
    return MPI_SUCCESS;
}
int MPI_Irecv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* q)
{
    std::lock_guard l(w().m);
    Req r;
    r.dst = myRank;
    rankIn(c);
    r.src = worldRank(c, src);
    r.tag = tag;
    r.count = n;
    r.comm = c;
    r.type = t;
    r.bytes = (std::size_t)n * sizeOf(t);
    r.rbuf = (char*)p;
    if (r.bytes) std::memset(p, 0x5a, r.bytes); // contents are undefined until the request completes
    w().st.receives++;
    post(std::move(r), q);
    return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status*)
{
    bool f;
    {
        std::lock_guard l(w().m);
        f = testLocked(q);
    }
    *flag = f;
    if (!f) std::this_thread::yield();
    return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status*)
{
    bool all = true;
    std::lock_guard l(w().m);
    for (int i = 0; i < n; ++i) all &= testLocked(q + i);
    *flag = all;
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* q, MPI_Status* s)
{
    int f = 0;
    while (!f) MPI_Test(q, &f, s);
    return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status*)
{
    for (int i = 0; i < n; ++i) MPI_Wait(q + i, MPI_STATUS_IGNORE);
    return MPI_SUCCESS;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    std::unique_lock l(w().m);
    auto size = c == MPI_COMM_SELF ? 1 : (int)group(c).size();
    int me = rankIn(c);
    std::size_t bytes = (std::size_t)n * sizeOf(t);
    const char* src = in == MPI_IN_PLACE ? (const char*)out : (const char*)in;
    if (c == MPI_COMM_SELF)
    {
        if (in != MPI_IN_PLACE) std::memcpy(out, in, bytes);
        return MPI_SUCCESS;
    }
    auto& k = w().coll[(std::size_t)c];
    w().cv.wait(l, [&] { return k.left == 0; }); // previous collective has been left by everybody
    if (k.arrived == 0)
    {
        k.count = n;
        k.type = t;
        k.op = op;
        k.in.assign((std::size_t)size, {});
    }
    if (k.count != n || k.type != t || k.op != op) violation("ranks call the same collective with different arguments");
    k.in[(std::size_t)me].assign(src, src + bytes);
    auto gen = k.gen;
    if (++k.arrived == size)
    {
        std::size_t first = w().next() % (std::size_t)size;
        // MPI leaves the order of the combination open for commutative operations
        k.out = k.in[first];
        for (std::size_t i = 1; i < (std::size_t)size; ++i) combineAny(k.out.data(), k.in[(first + i) % (std::size_t)size].data(), n, t, op);
        k.arrived = 0;
        k.left = size;
        k.gen++;
        w().st.reductions++;
        progress();
        w().cv.notify_all();
    }
    else if (!w().cv.wait_for(l, std::chrono::seconds(30), [&] { return k.gen != gen; })) violation("a rank never joins the collective operation");
    std::memcpy(out, k.out.data(), bytes);
    if (--k.left == 0) w().cv.notify_all();
    return MPI_SUCCESS;
}
int MPI_Barrier(MPI_Comm c)
{
    int x = 0;
    return MPI_Allreduce(MPI_IN_PLACE, &x, 1, MPI_INT, MPI_SUM, c);
}
int MPI_Abort(MPI_Comm c, int code)
{
    std::fprintf(stderr, "MPI_Abort(%d, %d)\n", c, code);
    std::fflush(nullptr);
    _exit(code ? 100 + code % 20 : 0);
}
