// Monitoring stand-in for Kokkos (Kokkos itself is not installed in this sandbox).
//
// It implements the documented semantics of the part of Kokkos the library uses, and watches the
// library while it runs:
//   Serial      sequential reference space, host memory
//   Threads     DefaultHostExecutionSpace; iterations are executed in a hostile, seeded order and,
//               when NFM::cfg().threads > 1, spread over real std::threads (used under TSan)
//   MonDevice   DefaultExecutionSpace; memory of its own which host code cannot touch and kernels
//               that cannot touch host fields (mprotect'ed arenas), asynchronous launch (optional)
// Every allocation is accounted (space, size, double free, wrong-space free, leak) and filled with a
// poison pattern; in ASan builds it is surrounded by poisoned redzones.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cfloat>
#include <climits>
#include <cmath>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <memory>
#include <new>
#include <numbers>
#include <any>
#include <iomanip>
#include <list>
#include <map>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <stdexcept>
#include <string_view>
#include <thread>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <span>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_INLINE_FUNCTION_DELETED
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_IMPL_DEVICE_FUNCTION
#define KOKKOS_RESTRICT __restrict__
#define KOKKOS_ASSERT(x) ((void)0)
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_ENABLE_THREADS
#define KOKKOS_VERSION 40300
#define KOKKOS_IF_ON_HOST(CODE) KOKKOS_IMPL_STRIP CODE
#define KOKKOS_IF_ON_DEVICE(CODE)
#define KOKKOS_IMPL_STRIP(...) __VA_ARGS__

// ---------------------------------------------------------------------------------------------
// monitor interface, implemented in nfm_runtime.cpp
// ---------------------------------------------------------------------------------------------
namespace NFM
{
enum class Mem : int
{
    Host = 0,
    Device = 1
};

struct Config
{
    unsigned threads = 1;       // real threads used by the parallel spaces
    uint64_t seed = 1;          // drives iteration orders and thread assignment
    int order = 0;              // 0 forward, 1 reverse, 2 shuffled, 3 strided, 4 fresh choice per kernel
    bool deferDevice = false;   // device kernels run at the next synchronisation point
    bool protect = true;        // separate address spaces (ignored in builds without arenas)
    long failAlloc = -1;        // executor allocations until one fails; -1: none
    bool allocFailed = false;   // one did
};
Config& cfg();
// inside the runtime itself (host allocations made here are none of the code under test)
inline thread_local int insideRuntime = 0;
struct Inside
{
    Inside() { ++insideRuntime; }
    ~Inside() { --insideRuntime; }
};

struct Stats
{
    uint64_t kernels = 0, iterations = 0, reduces = 0, scans = 0, deviceKernels = 0, deferred = 0;
    uint64_t allocs = 0, frees = 0, bytes = 0, deepCopies = 0, hostDeviceCopies = 0, fences = 0;
    std::atomic<uint64_t> atomics {0};
    uint64_t orders = 0; // distinct iteration orders handed out
};
Stats& stats();

void* alloc(Mem m, std::size_t bytes, const char* label);
void* reallocate(Mem m, void* p, std::size_t bytes);
void release(Mem m, void* p, bool fromFree = true);
std::size_t liveBlocks();       // live allocations (all spaces)
std::size_t liveBytes();
// which space owns p: 0 host arena, 1 device arena, -1 unknown (stack, heap, static)
int owner(const void* p);
[[noreturn]] void violation(const std::string& what);
// ranges executed by the spaces; body(begin,end) executes a chunk of the permuted index list
void runParallel(bool device, std::size_t begin, std::size_t end, const std::function<void(std::size_t)>& body);
// reduction / scan helper: deterministic chunking, returns chunk boundaries
std::vector<std::pair<std::size_t, std::size_t>> chunks(std::size_t begin, std::size_t end);
std::vector<std::size_t> order(std::size_t begin, std::size_t end);
void runChunks(bool device, std::size_t n, const std::function<void(std::size_t)>& body);
void enqueueDevice(std::function<void()> f); // runs now or at next sync
void sync();                                 // drain the device queue
void copyMemory(void* dst, int dstSpace, const void* src, int srcSpace, std::size_t bytes);
void withHostAndDevice(const std::function<void()>& f);
void lockAddr(const void* p);
void unlockAddr(const void* p);
}

namespace Kokkos
{

[[noreturn]] void abort(const char* msg);
[[noreturn]] inline void abort(const std::string& msg) { abort(msg.c_str()); }

struct InitializationSettings
{
};
template<typename... A>
inline void initialize(A&&...)
{}
inline void finalize() { NFM::sync(); }
inline bool is_initialized() { return true; }
struct ScopeGuard
{
    template<typename... A>
    explicit ScopeGuard(A&&...)
    {}
    ~ScopeGuard() { NFM::sync(); }
};
inline int device_id() { return 0; }
inline int num_devices() { return 1; }
inline void fence()
{
    NFM::stats().fences++;
    NFM::sync();
}
inline void fence(const std::string&) { fence(); }

template<typename A, typename B>
struct pair
{
    using first_type = A;
    using second_type = B;
    A first {};
    B second {};
    pair() = default;
    pair(const A& a, const B& b) : first(a), second(b) {}
    template<typename U, typename V>
    pair(const pair<U, V>& p) : first(p.first), second(p.second)
    {}
    template<typename U, typename V>
    pair(const std::pair<U, V>& p) : first(p.first), second(p.second)
    {}
    friend bool operator==(const pair& a, const pair& b)
    {
        return a.first == b.first && a.second == b.second;
    }
    friend bool operator<(const pair& a, const pair& b)
    {
        return a.first < b.first || (!(b.first < a.first) && a.second < b.second);
    }
};
template<typename A, typename B>
pair<A, B> make_pair(A a, B b)
{
    return pair<A, B>(a, b);
}
template<typename T, std::size_t N>
using Array = std::array<T, N>;

// ------------------------------------------------------------------------------- memory spaces
struct HostSpace
{
    using memory_space = HostSpace;
    using size_type = std::size_t;
    static constexpr NFM::Mem mem = NFM::Mem::Host;
    static constexpr const char* name() { return "Host"; }
};
struct MonDeviceSpace
{
    using memory_space = MonDeviceSpace;
    using size_type = std::size_t;
    static constexpr NFM::Mem mem = NFM::Mem::Device;
    static constexpr const char* name() { return "MonDevice"; }
};
using SharedSpace = HostSpace;
using DefaultHostMemorySpace = HostSpace;

struct LayoutRight
{
};
struct LayoutLeft
{
};
struct LayoutStride
{
};

enum MemoryTraitsFlags
{
    Unmanaged = 1,
    RandomAccess = 2,
    Atomic = 4,
    Restrict = 8,
    Aligned = 16
};
template<unsigned T>
struct MemoryTraits
{
    static constexpr unsigned impl_value = T;
};
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
using MemoryManaged = MemoryTraits<0>;
using MemoryRandomAccess = MemoryTraits<Unmanaged | RandomAccess>;

// ---------------------------------------------------------------------------- execution spaces
namespace Impl
{
template<typename Derived, typename MS>
struct SpaceBase
{
    using execution_space = Derived;
    using memory_space = MS;
    using size_type = std::size_t;
    using array_layout = LayoutRight;
    using device_type = Derived;
    void fence(const std::string& = "") const { Kokkos::fence(); }
    static int concurrency() { return (int)std::max(1u, NFM::cfg().threads); }
    static bool is_initialized() { return true; }
    friend bool operator==(const Derived&, const Derived&) { return true; }
    friend bool operator!=(const Derived&, const Derived&) { return false; }
};
}
struct Serial : Impl::SpaceBase<Serial, HostSpace>
{
    static constexpr const char* name() { return "Serial"; }
};
struct Threads : Impl::SpaceBase<Threads, HostSpace>
{
    static constexpr const char* name() { return "Threads"; }
};
struct MonDevice : Impl::SpaceBase<MonDevice, MonDeviceSpace>
{
    static constexpr const char* name() { return "MonDevice"; }
};
using DefaultHostExecutionSpace = Threads;
using DefaultExecutionSpace = MonDevice;

template<typename E, typename M>
struct Device
{
    using execution_space = E;
    using memory_space = typename M::memory_space;
};

template<typename AccessSpace, typename MemSpace>
struct SpaceAccessibility
{
    static constexpr bool accessible =
        std::is_same_v<typename AccessSpace::memory_space, typename MemSpace::memory_space>;
    static constexpr bool assignable = accessible;
    static constexpr bool deepcopy = true;
};

// ------------------------------------------------------------------------------ raw allocations
template<typename Space = DefaultExecutionSpace>
inline void* kokkos_malloc(const std::string& label, std::size_t n)
{
    return NFM::alloc(Space::memory_space::mem, n, label.c_str());
}
template<typename Space = DefaultExecutionSpace>
inline void* kokkos_malloc(std::size_t n)
{
    return NFM::alloc(Space::memory_space::mem, n, "no-label");
}
template<typename Space = DefaultExecutionSpace>
inline void* kokkos_realloc(void* p, std::size_t n)
{
    return NFM::reallocate(Space::memory_space::mem, p, n);
}
template<typename Space = DefaultExecutionSpace>
inline void kokkos_free(void* p)
{
    if (p == nullptr) return;
    NFM::sync();
    NFM::release(Space::memory_space::mem, p);
}

// -------------------------------------------------------------------------------------- View
enum ALL_t
{
    ALL
};
struct ViewAllocateWithoutInitializing
{
    std::string label;
    ViewAllocateWithoutInitializing(std::string l) : label(std::move(l)) {}
};

namespace Impl
{
template<typename D>
struct Rank
{
    using value_type = D;
    static constexpr int rank = 0;
};
template<typename D>
struct Rank<D*>
{
    using value_type = typename Rank<D>::value_type;
    static constexpr int rank = 1 + Rank<D>::rank;
};

template<typename P>
concept IsExec = requires { typename P::execution_space; };
template<typename P>
concept IsMem = requires { P::mem; } && !IsExec<P>;

template<typename... P>
struct PickSpace
{
    using type = MonDeviceSpace;
};
template<typename P0, typename... P>
struct PickSpace<P0, P...>
{
    static auto pick()
    {
        if constexpr (requires { typename P0::memory_space; })
            return typename P0::memory_space {};
        else return typename PickSpace<P...>::type {};
    }
    using type = decltype(pick());
};
}

template<typename DataType, typename... Props>
class View
{
public:

    using traits = View;
    using data_type = DataType;
    using value_type = typename Impl::Rank<DataType>::value_type;
    using non_const_value_type = std::remove_const_t<value_type>;
    using const_value_type = const non_const_value_type;
    using memory_space = typename Impl::PickSpace<Props...>::type;
    using execution_space = std::conditional_t<
        std::is_same_v<memory_space, MonDeviceSpace>,
        MonDevice,
        Threads>;
    using device_type = execution_space;
    using size_type = std::size_t;
    using pointer_type = value_type*;
    using reference_type = value_type&;
    using HostMirror = View<std::remove_const_t<DataType>, HostSpace>;
    using host_mirror_type = HostMirror;
    static constexpr int rank = Impl::Rank<DataType>::rank;

    View() = default;
    View(pointer_type p, std::size_t n0 = 1, std::size_t n1 = 1, std::size_t n2 = 1)
        : data_(p), ext_ {n0, n1, n2}
    {}
    explicit View(
        const std::string& label, std::size_t n0 = 1, std::size_t n1 = 1, std::size_t n2 = 1
    )
        : ext_ {n0, n1, n2}, label_(label)
    {
        allocate(true);
    }
    explicit View(
        const ViewAllocateWithoutInitializing& a,
        std::size_t n0 = 1,
        std::size_t n1 = 1,
        std::size_t n2 = 1
    )
        : ext_ {n0, n1, n2}, label_(a.label)
    {
        allocate(false);
    }
    template<typename D2, typename... P2>
        requires(std::is_convertible_v<typename View<D2, P2...>::pointer_type, pointer_type>)
    View(const View<D2, P2...>& o)
        : data_(o.data()), ext_ {o.extent(0), o.extent(1), o.extent(2)}, own_(o.own()),
          label_(o.label())
    {}

    value_type& operator()(std::size_t i) const { return data_[i]; }
    value_type& operator()(std::size_t i, std::size_t j) const { return data_[i * ext_[1] + j]; }
    value_type& operator()(std::size_t i, std::size_t j, std::size_t k) const
    {
        return data_[(i * ext_[1] + j) * ext_[2] + k];
    }
    value_type& operator[](std::size_t i) const { return data_[i]; }
    value_type& operator()() const { return data_[0]; }

    pointer_type data() const { return data_; }
    std::size_t extent(std::size_t r) const { return r < 3 ? ext_[r] : 1; }
    std::size_t size() const { return ext_[0] * ext_[1] * ext_[2]; }
    std::size_t span() const { return size(); }
    std::string label() const { return label_; }
    bool is_allocated() const { return data_ != nullptr; }
    std::shared_ptr<void> own() const { return own_; }

private:

    void allocate(bool init)
    {
        std::size_t bytes = size() * sizeof(value_type);
        void* p = NFM::alloc(memory_space::mem, bytes, label_.c_str());
        data_ = static_cast<pointer_type>(p);
        own_ = std::shared_ptr<void>(
            p,
            [](void* q)
            {
                NFM::sync();
                NFM::release(memory_space::mem, q);
            }
        );
        if (init)
            NFM::withHostAndDevice([p, bytes] { std::memset(p, 0, bytes); });
    }
    pointer_type data_ = nullptr;
    std::size_t ext_[3] = {0, 1, 1};
    std::shared_ptr<void> own_;
    std::string label_;
};

template<typename D, typename... P>
struct is_view_impl : std::false_type
{
};
template<typename D, typename... P>
struct is_view_impl<View<D, P...>> : std::true_type
{
};
template<typename V>
inline constexpr bool is_view_v = is_view_impl<V>::value;

template<typename D1, typename... P1, typename D2, typename... P2>
void deep_copy(const View<D1, P1...>& dst, const View<D2, P2...>& src)
{
    if (dst.size() != src.size())
        NFM::violation(
            "deep_copy between views of different size (" + std::to_string(dst.size()) + " <- "
            + std::to_string(src.size()) + ")"
        );
    NFM::sync();
    using T = typename View<D1, P1...>::non_const_value_type;
    NFM::copyMemory(
        (void*)dst.data(),
        (int)View<D1, P1...>::memory_space::mem,
        (const void*)src.data(),
        (int)View<D2, P2...>::memory_space::mem,
        dst.size() * sizeof(T)
    );
}
template<typename D, typename... P>
void deep_copy(
    const View<D, P...>& dst, const std::type_identity_t<typename View<D, P...>::value_type>& v
)
{
    NFM::sync();
    NFM::withHostAndDevice(
        [&]
        {
            for (std::size_t i = 0; i < dst.size(); i++) dst.data()[i] = v;
        }
    );
}
template<typename E, typename A, typename B>
    requires Impl::IsExec<E>
void deep_copy(const E&, const A& a, const B& b)
{
    deep_copy(a, b);
}

template<typename D, typename... P>
auto create_mirror(const View<D, P...>& v)
{
    using H = View<std::remove_const_t<typename View<D, P...>::value_type>*, HostSpace>;
    return H("mirror", v.extent(0), v.extent(1), v.extent(2));
}
template<typename D, typename... P>
auto create_mirror_view(const View<D, P...>& v)
{
    return create_mirror(v);
}
template<typename Space, typename D, typename... P>
auto create_mirror_view_and_copy(const Space&, const View<D, P...>& v)
{
    using H = View<
        std::remove_const_t<typename View<D, P...>::value_type>*,
        typename Space::memory_space>;
    H h("mirror", v.extent(0), v.extent(1), v.extent(2));
    deep_copy(h, v);
    return h;
}
template<typename D, typename... P>
void resize(View<D, P...>& v, std::size_t n)
{
    View<D, P...> w(v.label(), n);
    std::size_t m = std::min(n, v.extent(0)) * sizeof(typename View<D, P...>::value_type);
    NFM::sync();
    NFM::copyMemory(
        (void*)w.data(),
        (int)View<D, P...>::memory_space::mem,
        (const void*)v.data(),
        (int)View<D, P...>::memory_space::mem,
        m
    );
    v = w;
}
template<typename D, typename... P>
auto subview(const View<D, P...>& v, std::pair<std::size_t, std::size_t> r)
{
    return View<D, P...>(v.data() + r.first, r.second - r.first);
}

// -------------------------------------------------------------------------------- policies
struct AUTO_t
{
};
struct ChunkSize
{
    int value;
    explicit ChunkSize(int v) : value(v) {}
};
template<typename T>
struct IndexType
{
    using type = T;
};
template<typename T>
struct Schedule
{
};
struct Static
{
};
struct Dynamic
{
};
namespace Impl
{
template<typename... P>
struct PickExec
{
    using type = DefaultExecutionSpace;
};
template<typename P0, typename... P>
struct PickExec<P0, P...>
{
    static auto pick()
    {
        if constexpr (IsExec<P0>) return P0 {};
        else return typename PickExec<P...>::type {};
    }
    using type = decltype(pick());
};
}

template<typename... P>
class RangePolicy
{
public:

    using execution_space = typename Impl::PickExec<P...>::type;
    using index_type = std::size_t;
    using member_type = std::size_t;
    RangePolicy() = default;
    template<typename A, typename B>
        requires(std::is_integral_v<A> && std::is_integral_v<B>)
    RangePolicy(A b, B e)
        : begin_(static_cast<std::size_t>(b)), end_(e > (B)b ? static_cast<std::size_t>(e) : static_cast<std::size_t>(b))
    {}
    template<typename A, typename B, typename... C>
        requires(std::is_integral_v<A> && std::is_integral_v<B>)
    RangePolicy(A b, B e, ChunkSize) : RangePolicy(b, e)
    {}
    template<typename A, typename B>
        requires(std::is_integral_v<A> && std::is_integral_v<B>)
    RangePolicy(const execution_space&, A b, B e) : RangePolicy(b, e)
    {}
    template<typename A, typename B>
        requires(std::is_integral_v<A> && std::is_integral_v<B>)
    RangePolicy(const execution_space&, A b, B e, ChunkSize) : RangePolicy(b, e)
    {}
    std::size_t begin() const { return begin_; }
    std::size_t end() const { return end_; }
    RangePolicy& set_chunk_size(int) { return *this; }

private:

    std::size_t begin_ = 0, end_ = 0;
};

template<unsigned N, typename...>
struct RankTag
{
};
template<unsigned N>
struct Rank
{
    static constexpr unsigned value = N;
};
template<typename... P>
class MDRangePolicy
{
public:

    using execution_space = typename Impl::PickExec<P...>::type;
    MDRangePolicy(std::initializer_list<std::size_t> b, std::initializer_list<std::size_t> e)
        : b_(b), e_(e)
    {}
    std::vector<std::size_t> b_, e_;
};

// ------------------------------------------------------------------------------- reducers
namespace Impl
{
template<typename T>
struct SumOp
{
    static T init() { return T {}; }
    static void join(T& d, const T& s) { d += s; }
};
template<typename T>
struct ProdOp
{
    static T init() { return T(1); }
    static void join(T& d, const T& s) { d *= s; }
};
template<typename T>
struct MaxOp
{
    static T init() { return std::numeric_limits<T>::lowest(); }
    static void join(T& d, const T& s)
    {
        if (d < s) d = s;
    }
};
template<typename T>
struct MinOp
{
    static T init() { return std::numeric_limits<T>::max(); }
    static void join(T& d, const T& s)
    {
        if (s < d) d = s;
    }
};
template<typename T>
struct LAndOp
{
    static T init() { return T(1); }
    static void join(T& d, const T& s) { d = d && s; }
};
template<typename T>
struct LOrOp
{
    static T init() { return T(0); }
    static void join(T& d, const T& s) { d = d || s; }
};
template<typename T>
struct BAndOp
{
    static T init() { return static_cast<T>(~T(0)); }
    static void join(T& d, const T& s) { d = d & s; }
};
template<typename T>
struct BOrOp
{
    static T init() { return T(0); }
    static void join(T& d, const T& s) { d = d | s; }
};
struct ReducerTag
{
};
template<typename T, template<typename> class Op, typename Self>
struct ReducerBase : ReducerTag
{
    using reducer = Self;
    using value_type = T;
    ReducerBase(T& v) : v_(&v) {}
    template<typename... P>
    ReducerBase(const View<T, P...>& v) : v_(v.data())
    {}
    T& reference() const { return *v_; }
    void init(T& t) const { t = Op<T>::init(); }
    void join(T& d, const T& s) const { Op<T>::join(d, s); }
    bool references_scalar() const { return true; }

private:

    T* v_;
};
}
#define NFM_REDUCER(NAME, OP)                                                                      \
    template<typename Scalar, typename Space = HostSpace>                                          \
    struct NAME : Impl::ReducerBase<std::remove_cv_t<Scalar>, Impl::OP, NAME<Scalar, Space>>       \
    {                                                                                              \
        using Base = Impl::ReducerBase<std::remove_cv_t<Scalar>, Impl::OP, NAME<Scalar, Space>>;   \
        using Base::Base;                                                                          \
    };                                                                                             \
    template<typename T>                                                                           \
    NAME(T&) -> NAME<T, HostSpace>;
NFM_REDUCER(Sum, SumOp)
NFM_REDUCER(Prod, ProdOp)
NFM_REDUCER(Max, MaxOp)
NFM_REDUCER(Min, MinOp)
NFM_REDUCER(LAnd, LAndOp)
NFM_REDUCER(LOr, LOrOp)
NFM_REDUCER(BAnd, BAndOp)
NFM_REDUCER(BOr, BOrOp)
#undef NFM_REDUCER

template<typename S>
struct MinMaxScalar
{
    S min_val, max_val;
};
template<typename Scalar, typename Space = HostSpace>
struct MinMax : Impl::ReducerTag
{
    using reducer = MinMax;
    using value_type = MinMaxScalar<Scalar>;
    MinMax(value_type& v) : v_(&v) {}
    value_type& reference() const { return *v_; }
    void init(value_type& t) const
    {
        t.min_val = std::numeric_limits<Scalar>::max();
        t.max_val = std::numeric_limits<Scalar>::lowest();
    }
    void join(value_type& d, const value_type& s) const
    {
        if (s.min_val < d.min_val) d.min_val = s.min_val;
        if (d.max_val < s.max_val) d.max_val = s.max_val;
    }

private:

    value_type* v_;
};

template<typename S, typename I>
struct ValLocScalar
{
    S val;
    I loc;
};
namespace Impl
{
template<typename S, typename I, bool minimum>
struct ValLoc : ReducerTag
{
    using reducer = ValLoc;
    using value_type = ValLocScalar<S, I>;
    ValLoc(value_type& v) : v_(&v) {}
    value_type& reference() const { return *v_; }
    void init(value_type& t) const
    {
        t.val = minimum ? std::numeric_limits<S>::max() : std::numeric_limits<S>::lowest();
        t.loc = std::numeric_limits<I>::max();
    }
    void join(value_type& d, const value_type& s) const
    {
        if (minimum ? s.val < d.val : d.val < s.val) d = s;
    }

private:

    value_type* v_;
};
}
template<typename S, typename I, typename Space = HostSpace>
struct MinLoc : Impl::ValLoc<S, I, true>
{
    using Impl::ValLoc<S, I, true>::ValLoc;
};
template<typename S, typename I, typename Space = HostSpace>
struct MaxLoc : Impl::ValLoc<S, I, false>
{
    using Impl::ValLoc<S, I, false>::ValLoc;
};

template<typename T>
struct is_reducer
{
    static constexpr bool value = std::is_base_of_v<Impl::ReducerTag, std::remove_cvref_t<T>>;
};
template<typename T>
inline constexpr bool is_reducer_v = is_reducer<T>::value;

template<typename T>
struct reduction_identity
{
    static constexpr T sum() { return T {}; }
    static constexpr T prod() { return T(1); }
    static constexpr T max() { return std::numeric_limits<T>::lowest(); }
    static constexpr T min() { return std::numeric_limits<T>::max(); }
};

// ------------------------------------------------------------------------------- dispatch
template<typename... P, typename F>
void parallel_for(const std::string&, const RangePolicy<P...>& policy, const F& f)
{
    NFM::Inside inside;
    using E = typename RangePolicy<P...>::execution_space;
    NFM::stats().kernels++;
    NFM::stats().iterations += policy.end() - policy.begin();
    if constexpr (std::is_same_v<E, Serial>)
    {
        for (std::size_t i = policy.begin(); i < policy.end(); ++i) f(i);
    }
    else if constexpr (std::is_same_v<E, MonDevice>)
    {
        NFM::stats().deviceKernels++;
        auto b = policy.begin(), e = policy.end();
        NFM::enqueueDevice([f, b, e] { NFM::runParallel(true, b, e, [&f](std::size_t i) { f(i); }); });
    }
    else
    {
        const F copy(f);
        NFM::runParallel(
            false, policy.begin(), policy.end(), [&copy](std::size_t i) { copy(i); }
        );
    }
}
template<typename... P, typename F>
void parallel_for(const RangePolicy<P...>& policy, const F& f)
{
    parallel_for(std::string(), policy, f);
}
template<typename F, typename I>
    requires std::is_integral_v<I>
void parallel_for(const std::string& n, I work, const F& f)
{
    parallel_for(n, RangePolicy<>(I(0), work), f);
}
template<typename F, typename I>
    requires std::is_integral_v<I>
void parallel_for(I work, const F& f)
{
    parallel_for(std::string(), RangePolicy<>(I(0), work), f);
}
template<typename... P, typename F>
void parallel_for(const std::string& n, const MDRangePolicy<P...>& p, const F& f)
{
    using E = typename MDRangePolicy<P...>::execution_space;
    const std::size_t n0 = p.e_[0] - p.b_[0], n1 = p.e_[1] - p.b_[1];
    const std::size_t b0 = p.b_[0], b1 = p.b_[1];
    if (p.b_.size() == 2)
        parallel_for(
            n,
            RangePolicy<E>(std::size_t(0), n0 * n1),
            [=](const std::size_t q)
            {
                if constexpr (requires { f(std::size_t(0), std::size_t(0)); })
                    f(b0 + q / n1, b1 + q % n1);
            }
        );
    else NFM::violation("shim: MDRangePolicy of rank != 2 is not modelled");
}

namespace Impl
{
// value type of a reduction / scan functor: the last (or second) reference argument
template<typename M>
struct ArgOf;
template<typename C, typename R, typename I, typename T, typename... Rest>
struct ArgOf<R (C::*)(I, T, Rest...) const>
{
    using type = std::remove_cvref_t<T>;
};
template<typename C, typename R, typename I, typename T, typename... Rest>
struct ArgOf<R (C::*)(I, T, Rest...)>
{
    using type = std::remove_cvref_t<T>;
};

template<typename E, typename T, typename Init, typename Join, typename F>
T reduceImpl(std::size_t b, std::size_t e, const F& f, Init init, Join join)
{
    NFM::Inside inside;
    NFM::stats().reduces++;
    NFM::stats().kernels++;
    NFM::stats().iterations += e - b;
    T total;
    init(total);
    if constexpr (std::is_same_v<E, Serial>)
    {
        for (std::size_t i = b; i < e; ++i) f(i, total);
        return total;
    }
    else
    {
        constexpr bool dev = std::is_same_v<E, MonDevice>;
        NFM::sync();
        auto ch = NFM::chunks(b, e);
        auto* parts = static_cast<T*>(::operator new(sizeof(T) * (ch.size() + 1), std::align_val_t(64)));
        for (std::size_t c = 0; c < ch.size(); ++c)
        {
            ::new (parts + c) T(total);
            init(parts[c]);
        }
        auto idx = NFM::order(b, e);
        NFM::runChunks(
            dev,
            ch.size(),
            [&](std::size_t c)
            {
                for (std::size_t k = ch[c].first; k < ch[c].second; ++k) f(idx[k - b], parts[c]);
            }
        );
        for (std::size_t c = 0; c < ch.size(); ++c)
        {
            join(total, parts[c]);
            parts[c].~T();
        }
        ::operator delete(parts, std::align_val_t(64));
        return total;
    }
}
}

template<typename... P, typename F, typename R>
void parallel_reduce(const std::string&, const RangePolicy<P...>& p, const F& f, R&& r)
{
    using E = typename RangePolicy<P...>::execution_space;
    using RT = std::remove_cvref_t<R>;
    if constexpr (is_reducer<RT>::value)
    {
        using T = typename RT::value_type;
        T v = Impl::reduceImpl<E, T>(
            p.begin(), p.end(), f, [&](T& t) { r.init(t); }, [&](T& d, const T& s) { r.join(d, s); }
        );
        r.reference() = v;
    }
    else if constexpr (is_view_v<RT>)
    {
        using T = typename RT::non_const_value_type;
        T v = Impl::reduceImpl<E, T>(
            p.begin(), p.end(), f, [](T& t) { t = T {}; }, [](T& d, const T& s) { d += s; }
        );
        NFM::withHostAndDevice([&] { r() = v; });
    }
    else
    {
        using T = RT;
        T v = Impl::reduceImpl<E, T>(
            p.begin(), p.end(), f, [](T& t) { t = T {}; }, [](T& d, const T& s) { d += s; }
        );
        r = v;
    }
}
template<typename... P, typename F, typename R>
void parallel_reduce(const RangePolicy<P...>& p, const F& f, R&& r)
{
    parallel_reduce(std::string(), p, f, r);
}
template<typename F, typename R, typename I>
    requires std::is_integral_v<I>
void parallel_reduce(const std::string& n, I work, const F& f, R&& r)
{
    parallel_reduce(n, RangePolicy<>(I(0), work), f, r);
}

namespace Impl
{
template<typename E, typename T, typename F>
T scanImpl(std::size_t b, std::size_t e, const F& f)
{
    NFM::Inside inside;
    NFM::stats().scans++;
    NFM::stats().kernels++;
    NFM::stats().iterations += e - b;
    if constexpr (std::is_same_v<E, Serial>)
    {
        T upd {};
        for (std::size_t i = b; i < e; ++i) f(i, upd, true);
        return upd;
    }
    else
    {
        constexpr bool dev = std::is_same_v<E, MonDevice>;
        NFM::sync();
        auto ch = NFM::chunks(b, e);
        std::vector<T> part(ch.size());
        NFM::runChunks(
            dev,
            ch.size(),
            [&](std::size_t c)
            {
                T u {};
                for (std::size_t i = ch[c].first; i < ch[c].second; ++i) f(i, u, false);
                part[c] = u;
            }
        );
        std::vector<T> start(ch.size());
        T run {};
        for (std::size_t c = 0; c < ch.size(); ++c)
        {
            start[c] = run;
            run += part[c];
        }
        NFM::runChunks(
            dev,
            ch.size(),
            [&](std::size_t c)
            {
                T u = start[c];
                for (std::size_t i = ch[c].first; i < ch[c].second; ++i) f(i, u, true);
            }
        );
        return run;
    }
}
}
template<typename... P, typename F>
void parallel_scan(const std::string&, const RangePolicy<P...>& p, const F& f)
{
    using E = typename RangePolicy<P...>::execution_space;
    using T = typename Impl::ArgOf<decltype(&F::operator())>::type;
    (void)Impl::scanImpl<E, T>(p.begin(), p.end(), f);
}
template<typename... P, typename F, typename R>
void parallel_scan(const std::string&, const RangePolicy<P...>& p, const F& f, R& ret)
{
    using E = typename RangePolicy<P...>::execution_space;
    using T = typename Impl::ArgOf<decltype(&F::operator())>::type;
    ret = Impl::scanImpl<E, T>(p.begin(), p.end(), f);
}
template<typename... P, typename F>
void parallel_scan(const RangePolicy<P...>& p, const F& f)
{
    parallel_scan(std::string(), p, f);
}
template<typename... P, typename F, typename R>
void parallel_scan(const RangePolicy<P...>& p, const F& f, R& ret)
{
    parallel_scan(std::string(), p, f, ret);
}

// --------------------------------------------------------------------------------- atomics
// Relaxed on purpose: a kernel may not rely on them for ordering, and TSan must not infer
// happens-before from them.
namespace Impl
{
template<typename T>
inline constexpr bool nativeAtomic =
    (std::is_arithmetic_v<T> || std::is_pointer_v<T> || std::is_enum_v<T>)&&(
        sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8
    );

template<typename T>
T loadWords(const T* p)
{
    alignas(T) unsigned char buf[sizeof(T)];
    if constexpr (alignof(T) >= 8 && sizeof(T) % 8 == 0)
    {
        for (std::size_t i = 0; i < sizeof(T) / 8; ++i)
        {
            uint64_t w = __atomic_load_n(reinterpret_cast<const uint64_t*>(p) + i, __ATOMIC_RELAXED);
            std::memcpy(buf + 8 * i, &w, 8);
        }
    }
    else
    {
        for (std::size_t i = 0; i < sizeof(T); ++i)
            buf[i] = __atomic_load_n(reinterpret_cast<const unsigned char*>(p) + i, __ATOMIC_RELAXED);
    }
    T r = *reinterpret_cast<T*>(buf);
    return r;
}
template<typename T>
void storeWords(T* p, const T& v)
{
    if constexpr (alignof(T) >= 8 && sizeof(T) % 8 == 0)
    {
        for (std::size_t i = 0; i < sizeof(T) / 8; ++i)
        {
            uint64_t w;
            std::memcpy(&w, reinterpret_cast<const unsigned char*>(&v) + 8 * i, 8);
            __atomic_store_n(reinterpret_cast<uint64_t*>(p) + i, w, __ATOMIC_RELAXED);
        }
    }
    else
    {
        for (std::size_t i = 0; i < sizeof(T); ++i)
            __atomic_store_n(
                reinterpret_cast<unsigned char*>(p) + i,
                reinterpret_cast<const unsigned char*>(&v)[i],
                __ATOMIC_RELAXED
            );
    }
}
template<typename T, typename Op>
T atomicRmw(T* p, Op op, bool returnNew)
{
    NFM::stats().atomics.fetch_add(1, std::memory_order_relaxed);
    if constexpr (nativeAtomic<T>)
    {
        T old;
        __atomic_load(p, &old, __ATOMIC_RELAXED);
        for (;;)
        {
            T nw = op(old);
            if (__atomic_compare_exchange(p, &old, &nw, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
                return returnNew ? nw : old;
        }
    }
    else
    {
        NFM::lockAddr(p);
        T old = loadWords(p);
        T nw = op(old);
        storeWords(p, nw);
        NFM::unlockAddr(p);
        return returnNew ? nw : old;
    }
}
}
template<typename T>
void atomic_add(T* p, const std::type_identity_t<T>& v)
{
    Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o + v); }, false);
}
template<typename T>
void atomic_sub(T* p, const std::type_identity_t<T>& v)
{
    Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o - v); }, false);
}
template<typename T>
T atomic_fetch_add(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o + v); }, false);
}
template<typename T>
T atomic_fetch_sub(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o - v); }, false);
}
template<typename T>
T atomic_add_fetch(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o + v); }, true);
}
template<typename T>
T atomic_sub_fetch(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o - v); }, true);
}
template<typename T>
void atomic_increment(T* p)
{
    Impl::atomicRmw(p, [](const T& o) { return static_cast<T>(o + T(1)); }, false);
}
template<typename T>
void atomic_inc(T* p)
{
    atomic_increment(p);
}
template<typename T>
void atomic_decrement(T* p)
{
    Impl::atomicRmw(p, [](const T& o) { return static_cast<T>(o - T(1)); }, false);
}
template<typename T>
void atomic_dec(T* p)
{
    atomic_decrement(p);
}
template<typename T>
T atomic_exchange(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T&) { return v; }, false);
}
template<typename T>
void atomic_assign(T* p, const std::type_identity_t<T>& v)
{
    Impl::atomicRmw(p, [&](const T&) { return v; }, false);
}
template<typename T>
void atomic_store(T* p, const std::type_identity_t<T>& v)
{
    atomic_assign(p, v);
}
template<typename T>
T atomic_load(const T* p)
{
    return Impl::atomicRmw(const_cast<T*>(p), [&](const T& o) { return o; }, false);
}
template<typename T>
T atomic_compare_exchange(
    T* p, const std::type_identity_t<T>& c, const std::type_identity_t<T>& v
)
{
    return Impl::atomicRmw(p, [&](const T& o) { return o == c ? v : o; }, false);
}
template<typename T>
void atomic_max(T* p, const std::type_identity_t<T>& v)
{
    Impl::atomicRmw(p, [&](const T& o) { return o < v ? v : o; }, false);
}
template<typename T>
void atomic_min(T* p, const std::type_identity_t<T>& v)
{
    Impl::atomicRmw(p, [&](const T& o) { return v < o ? v : o; }, false);
}
template<typename T>
void atomic_and(T* p, const std::type_identity_t<T>& v)
{
    Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o & v); }, false);
}
template<typename T>
void atomic_or(T* p, const std::type_identity_t<T>& v)
{
    Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o | v); }, false);
}
template<typename T>
T atomic_fetch_and(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o & v); }, false);
}
template<typename T>
T atomic_fetch_or(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o | v); }, false);
}
template<typename T>
void atomic_mul(T* p, const std::type_identity_t<T>& v)
{
    Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o * v); }, false);
}
template<typename T>
T atomic_fetch_mul(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o * v); }, false);
}
template<typename T>
void atomic_div(T* p, const std::type_identity_t<T>& v)
{
    Impl::atomicRmw(p, [&](const T& o) { return static_cast<T>(o / v); }, false);
}
template<typename T>
T atomic_max_fetch(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return o < v ? v : o; }, true);
}
template<typename T>
T atomic_min_fetch(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return v < o ? v : o; }, true);
}
template<typename T>
bool atomic_compare_exchange_strong(
    T* p, const std::type_identity_t<T>& c, const std::type_identity_t<T>& v
)
{
    return Impl::atomicRmw(p, [&](const T& o) { return o == c ? v : o; }, false) == c;
}
template<typename T>
T atomic_fetch_max(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return o < v ? v : o; }, false);
}
template<typename T>
T atomic_fetch_min(T* p, const std::type_identity_t<T>& v)
{
    return Impl::atomicRmw(p, [&](const T& o) { return v < o ? v : o; }, false);
}

// ------------------------------------------------------------------------------ math functions
using std::abs;
using std::acos;
using std::asin;
using std::atan;
using std::atan2;
using std::cbrt;
using std::ceil;
using std::cos;
using std::cosh;
using std::exp;
using std::fabs;
using std::floor;
using std::fma;
using std::fmax;
using std::fmin;
using std::hypot;
using std::isfinite;
using std::isinf;
using std::isnan;
using std::log;
using std::log10;
using std::pow;
using std::round;
using std::sin;
using std::sinh;
using std::sqrt;
using std::tan;
using std::tanh;
using std::trunc;
using std::acosh;
using std::asinh;
using std::atanh;
using std::copysign;
using std::erf;
using std::erfc;
using std::exp2;
using std::expm1;
using std::fdim;
using std::fmod;
using std::isnormal;
using std::log1p;
using std::log2;
using std::remainder;
using std::signbit;
using std::tgamma;
using std::clamp;
using std::max;
using std::min;
template<typename T>
void kokkos_swap(T& a, T& b)
{
    std::swap(a, b);
}
template<typename... A>
void printf(const char* f, A... a)
{
    std::printf(f, a...);
}

namespace Experimental
{
template<typename T>
inline constexpr T finite_max_v = std::numeric_limits<T>::max();
template<typename T>
inline constexpr T finite_min_v = std::numeric_limits<T>::lowest();
template<typename T>
inline constexpr T epsilon_v = std::numeric_limits<T>::epsilon();
template<typename T>
inline constexpr T infinity_v = std::numeric_limits<T>::infinity();
template<typename T>
inline constexpr T norm_min_v = std::numeric_limits<T>::min();
template<typename T>
inline constexpr T quiet_NaN_v = std::numeric_limits<T>::quiet_NaN();
}
namespace numbers
{
using namespace std::numbers;
}

namespace Profiling
{
inline void pushRegion(const std::string&) {}
inline void popRegion() {}
}
} // namespace Kokkos
