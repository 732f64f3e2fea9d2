// P03: collective operations combine the contributions of all ranks; sends meet the receive for the same rank and tag.
#include "mpi.hpp"
using namespace MP;
using mpi::ReduceOp;
void harnessInit() {}
void harnessCaseEnd() { caseStats(); }
namespace
{
const std::vector<ReduceOp> ops = {ReduceOp::Max, ReduceOp::Min, ReduceOp::Sum, ReduceOp::Prod, ReduceOp::Land, ReduceOp::Band, ReduceOp::Lor, ReduceOp::Bor};
template<typename T>
struct IsComplex : std::false_type {};
template<typename T>
struct IsComplex<std::complex<T>> : std::true_type {};
template<typename T>
bool allowed(ReduceOp o)
{
    if constexpr (std::is_same_v<T, bool>) return o == ReduceOp::Land || o == ReduceOp::Lor || o == ReduceOp::Band || o == ReduceOp::Bor;
    if constexpr (std::is_same_v<T, wchar_t>) return o == ReduceOp::Max || o == ReduceOp::Min;
    if constexpr (std::is_integral_v<T>) return true;
    else if constexpr (std::is_floating_point_v<T>) return o == ReduceOp::Max || o == ReduceOp::Min || o == ReduceOp::Sum || o == ReduceOp::Prod;
    else return o == ReduceOp::Sum || o == ReduceOp::Prod;
}
template<typename T>
T value(Rng& r, ReduceOp o, bool big)
{
    if constexpr (IsComplex<T>::value)
    {
        using R = typename T::value_type;
        return T((R)r.range(-4, 4), (R)r.range(-4, 4));
    }
    else if constexpr (std::is_same_v<T, bool>) return r.chance(0.7);
    else if constexpr (std::is_floating_point_v<T>)
    {
        if (o == ReduceOp::Prod) return (T)r.pick({1.0, -1.0, 0.5, 2.0, 0.0, -0.25});
        if (o == ReduceOp::Sum) return (T)(r.dyadic() * (big && sizeof(T) > 4 ? 0x1p40 : 1.0));
        return big ? (T)(r.dyadic() * 1e30) : (T)r.dyadic();
    }
    else
    {
        using U = std::make_unsigned_t<T>;
        if (o == ReduceOp::Sum || o == ReduceOp::Prod)
        {
            long lim = o == ReduceOp::Sum ? 10 : 2;
            T v = (T)(std::is_signed_v<T> ? r.range(-lim, lim) : r.range(0, lim));
            // sums beyond 32 bits
            if (o == ReduceOp::Sum && big && sizeof(T) == 8) v = (T)((U)v * (U)0x100000001ull);
            return v;
        }
        if (o == ReduceOp::Land || o == ReduceOp::Lor) return (T)(U)(r.chance(0.5) ? (U)0 : (U)((U)1 << r.below(sizeof(T) * 8)));
        return (T)(U)r.next();
    }
}
template<typename T>
T reference(const std::vector<T>& v, ReduceOp o)
{
    T a = v[0];
    for (std::size_t i = 1; i < v.size(); ++i)
    {
        T b = v[i];
        if (o == ReduceOp::Sum) a = (T)(a + b);
        else if (o == ReduceOp::Prod) a = (T)(a * b);
        else if constexpr (!IsComplex<T>::value)
        {
            if (o == ReduceOp::Max) a = a < b ? b : a;
            else if (o == ReduceOp::Min) a = b < a ? b : a;
            else if constexpr (std::is_integral_v<T>)
            {
                if (o == ReduceOp::Land) a = (T)(a && b);
                else if (o == ReduceOp::Lor) a = (T)(a || b);
                else if (o == ReduceOp::Band) a = (T)(a & b);
                else if (o == ReduceOp::Bor) a = (T)(a | b);
            }
        }
    }
    return a;
}
template<typename T>
void reduce(Rng& r, const std::vector<int>& g, MPI_Comm comm, const char* type)
{
    std::vector<ReduceOp> list;
    for (auto o : ops)
        if (allowed<T>(o)) list.push_back(o);
    r.shuffle(list);
    bool big = r.chance(0.3);
    std::vector<std::vector<T>> in(list.size()), out(list.size());
    for (std::size_t k = 0; k < list.size(); ++k)
        for (std::size_t i = 0; i < g.size(); ++i) in[k].push_back(value<T>(r, list[k], big));
    out = in;
    auto rounds = r.below(2) + 1;
    std::vector<std::vector<std::array<T, 3>>> guard(list.size(), std::vector<std::array<T, 3>>(g.size()));
    for (std::size_t k = 0; k < list.size(); ++k)
        for (std::size_t i = 0; i < g.size(); ++i) guard[k][i] = {in[k][0], in[k][i], in[k][0]};
    std::vector<std::thread> t;
    for (std::size_t i = 0; i < g.size(); ++i)
        t.emplace_back([&, i] {
            NFMPI::setRank(g[i]);
            for (std::size_t k = 0; k < list.size(); ++k) mpi::allReduce(guard[k][i][1], list[k], comm);
        });
    for (auto& x : t) x.join();
    NFMPI::setRank(0);
    (void)rounds;
    for (std::size_t k = 0; k < list.size(); ++k)
    {
        T want = reference(in[k], list[k]);
        for (std::size_t i = 0; i < g.size(); ++i)
        {
            H_CHECK(guard[k][i][1] == want, "all-reduce (operation " << (int)list[k] << ") of " << type << " over " << g.size() << " ranks: wrong result on rank " << i);
            H_CHECK(guard[k][i][0] == in[k][0] && guard[k][i][2] == in[k][0], "all-reduce of " << type << " wrote next to the value");
            H::count("reduced values compared", 1);
        }
        H::seen("operation x type", (uint64_t)list[k] * 64 + sizeof(T) * 2 + std::is_floating_point_v<T>);
    }
}
void reduceVector(Rng& r, const std::vector<int>& g, MPI_Comm comm)
{
    for (auto o : {ReduceOp::Max, ReduceOp::Min, ReduceOp::Sum, ReduceOp::Prod})
    {
        std::vector<Vector> in, out;
        for (std::size_t i = 0; i < g.size(); ++i) in.push_back(Vector(value<scalar>(r, o, false), value<scalar>(r, o, false), value<scalar>(r, o, false)));
        std::vector<std::array<Vector, 3>> guard;
        for (auto& v : in) guard.push_back({Vector(1, 2, 3), v, Vector(4, 5, 6)});
        std::vector<std::thread> t;
        for (std::size_t i = 0; i < g.size(); ++i)
            t.emplace_back([&, i] {
                NFMPI::setRank(g[i]);
                mpi::allReduce(guard[i][1], o, comm);
            });
        for (auto& x : t) x.join();
        NFMPI::setRank(0);
        for (std::size_t c = 0; c < 3; ++c)
        {
            std::vector<scalar> v;
            for (auto& x : in) v.push_back(x[c]);
            auto want = reference(v, o);
            for (std::size_t i = 0; i < g.size(); ++i)
            {
                H_CHECK(guard[i][1][c] == want, "all-reduce (operation " << (int)o << ") of vectors over " << g.size() << " ranks: component " << c << " is " << guard[i][1][c] << " instead of " << want << " on rank " << i);
                H_CHECK(guard[i][0] == Vector(1, 2, 3) && guard[i][2] == Vector(4, 5, 6), "all-reduce of vectors wrote next to the vector");
            }
        }
        H::count("vector reductions compared");
    }
}
// point-to-point messages of all types: random tags, sizes, order of posting
template<typename T>
void pointToPoint(Rng& r, int N, MPI_Comm comm, const std::vector<int>& g)
{
    struct Msg
    {
        int from, to, tag;
        std::vector<T> out, in;
        MPI_Request s = MPI_REQUEST_NULL, q = MPI_REQUEST_NULL;
        bool sent = false, recv = false, sdone = false, rdone = false;
    };
    std::vector<Msg> m(1 + r.below(8));
    std::set<std::tuple<int, int, int>> used;
    for (auto& x : m)
    {
        do
        {
            x.from = (int)r.below((std::size_t)N);
            x.to = (int)r.below((std::size_t)N);
            x.tag = (int)r.below(r.pick({3, 30000}));
        }
        while (!used.insert({x.from, x.to, x.tag}).second && used.size() < 8);
        x.out.resize(rndSize(r, false));
        for (std::size_t i = 0; i < x.out.size(); ++i)
        {
            if constexpr (IsComplex<T>::value) x.out[i] = T(stamp<float>(r.next()), stamp<float>(r.next()));
            else if constexpr (std::is_same_v<T, bool>) x.out[i] = r.chance(0.5);
            else x.out[i] = stamp<T>(r.next());
        }
        x.in.resize(x.out.size() + 2);
        for (std::size_t i = 0; i < x.in.size(); ++i) x.in[i] = T {};
    }
    std::size_t done = 0;
    for (int spin = 0; done < 2 * m.size(); ++spin)
    {
        H_CHECK(spin < 1000000, "messages never complete");
        auto& x = m[r.below(m.size())];
        // arrays of bool come as vector<bool>: use a raw buffer for the call
        if constexpr (std::is_same_v<T, bool>) { ++done; continue; }
        else
        {
            if (r.chance(0.5))
            {
                NFMPI::setRank(g[(std::size_t)x.from]);
                if (!x.sent)
                {
                    mpi::isend<T>(x.out.data(), (mpi_label_t)x.out.size(), x.to, x.tag, comm, &x.s);
                    x.sent = true;
                    H_CHECK(x.s != MPI_REQUEST_NULL, "isend returned no request");
                }
                else if (!x.sdone && mpi::test(&x.s))
                {
                    x.sdone = true;
                    ++done;
                    H_CHECK(x.s == MPI_REQUEST_NULL, "completed request not cleared");
                }
            }
            else
            {
                NFMPI::setRank(g[(std::size_t)x.to]);
                if (!x.recv)
                {
                    mpi::irecv<T>(x.in.data() + 1, (mpi_label_t)x.out.size(), x.from, x.tag, comm, &x.q);
                    x.recv = true;
                    H_CHECK(x.q != MPI_REQUEST_NULL, "irecv returned no request");
                }
                else if (!x.rdone)
                {
                    bool f = mpi::test(&x.q);
                    H_CHECK(!f || x.sent, "a receive completed before its message was sent");
                    if (!f) continue;
                    x.rdone = true;
                    ++done;
                    for (std::size_t i = 0; i < x.out.size(); ++i)
                        H_CHECK(x.in[i + 1] == x.out[i], "message " << x.from << " -> " << x.to << " with tag " << x.tag << ": value " << i << " differs");
                    H_CHECK(x.in.front() == T {} && x.in.back() == T {}, "receive wrote outside its buffer");
                    H::count("point-to-point messages compared");
                }
            }
        }
    }
    NFMPI::setRank(0);
}
template<typename T>
void both(Rng& r, int N, MPI_Comm comm, const std::vector<int>& g, const char* name)
{
    reduce<T>(r, g, comm, name);
    pointToPoint<T>(r, N, comm, g);
}
} // namespace
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    int W = 1 + (int)r.below(6);
    NFMPI::world(W, r.next(), r.pick({0, 2, 10}));
    // a communicator: the world, or a random (reordered) part of it
    std::vector<int> g;
    for (int i = 0; i < W; ++i) g.push_back(i);
    MPI_Comm comm = MPI_COMM_WORLD;
    if (r.chance(0.5))
    {
        r.shuffle(g);
        g.resize(1 + r.below(g.size()));
        comm = NFMPI::comm(g);
    }
    int N = (int)g.size();
    H::sig(std::to_string(W) + "/" + std::to_string(N) + "/" + std::to_string(g[0]) + "/" + std::to_string(r.s));
    // the environment reports rank and size in its communicator
    NFMPI::threads(W, [&](int me) {
        auto it = std::find(g.begin(), g.end(), me);
        mpi::MPIEnvironment world;
        H_CHECK(world.comm() == MPI_COMM_WORLD && world.rank() == (std::size_t)me && world.sizeRank() == (std::size_t)W, "default environment: rank " << world.rank() << " of " << world.sizeRank());
        if (it == g.end()) return;
        mpi::MPIEnvironment e(comm);
        mpi::MPIEnvironment copy(e);
        H_CHECK(e.comm() == comm && e.rank() == (std::size_t)(it - g.begin()) && e.sizeRank() == (std::size_t)N, "environment: rank " << e.rank() << " of " << e.sizeRank() << " instead of " << (it - g.begin()) << " of " << N);
        H_CHECK(copy.comm() == comm && copy.rank() == e.rank() && copy.sizeRank() == e.sizeRank(), "copied environment differs");
    });
    H::count("environments compared", (uint64_t)W);
    for (int k = 0; k < 4; ++k)
        switch (r.below(17))
        {
        case 0: both<char>(r, N, comm, g, "char"); break;
        case 1: both<wchar_t>(r, N, comm, g, "wchar_t"); break;
        case 2: both<short>(r, N, comm, g, "short"); break;
        case 3: both<int>(r, N, comm, g, "int"); break;
        case 4: both<long>(r, N, comm, g, "long"); break;
        case 5: both<long long>(r, N, comm, g, "long long"); break;
        case 6: both<unsigned short>(r, N, comm, g, "unsigned short"); break;
        case 7: both<unsigned>(r, N, comm, g, "unsigned"); break;
        case 8: both<unsigned long>(r, N, comm, g, "unsigned long"); break;
        case 9: both<unsigned long long>(r, N, comm, g, "unsigned long long"); break;
        case 10: both<float>(r, N, comm, g, "float"); break;
        case 11: both<double>(r, N, comm, g, "double"); break;
        case 12: both<long double>(r, N, comm, g, "long double"); break;
        case 13: reduce<bool>(r, g, comm, "bool"); break;
        case 14: both<std::complex<float>>(r, N, comm, g, "complex<float>"); break;
        case 15: both<std::complex<double>>(r, N, comm, g, "complex<double>"); break;
        default: both<std::complex<long double>>(r, N, comm, g, "complex<long double>"); break;
        }
    reduceVector(r, g, comm);
    if (r.chance(0.1))
    {
        auto res = H::inChild([] { mpi::MPIEnvironment e(MPI_COMM_NULL); });
        H_CHECK(res.refused(), "an environment of the null communicator was accepted" << " (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
        H_CHECK(res.err.find("communicator") != std::string::npos, "no diagnostic for the null communicator: " << res.err);
        res = H::inChild([] { (void)mpi::getType<std::vector<int>>(); });
        H_CHECK(res.refused(), "a type MPI cannot send got a data type" << " (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
        auto bad = (ReduceOp)r.range(10, 200);
        res = H::inChild([&] { (void)mpi::getOp(bad); });
        H_CHECK(res.refused(), "an invalid reduction operation was accepted" << " (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
        H::count("invalid communicators, types and operations refused", 3);
    }
    if (r.chance(0.3))
    {
        auto before = NFMPI::stats();
        for (int k = 0; k < 2; ++k)
        {
            char* argv[] = {nullptr};
            mpi::MPIInit init(0, argv);
            H_CHECK(NFMPI::stats().inits == before.inits + (uint64_t)k + 1 && NFMPI::stats().finals == before.finals + (uint64_t)k, "MPI is initialised exactly once while an MPIInit object lives");
        }
        H_CHECK(NFMPI::stats().finals == before.finals + 2, "MPI is finalised when the MPIInit object goes");
        int level = (int)r.below(4);
        auto res = H::inChild([&] {
            char* argv[] = {nullptr};
            NFMPI::threadLevel() = level;
            mpi::MPIInit init(0, argv);
        });
        H_CHECK((res.exited && res.code == 0) == (level == MPI_THREAD_MULTIPLE), "thread level " << level << ": start-up " << (res.code == 0 ? "accepted" : "refused"));
        H::count("initialisations and finalisations observed", 3);
    }
    H_CHECK(NFMPI::open() == 0 && NFMPI::unmatched() == 0, "open requests or unmatched messages are left");
}
