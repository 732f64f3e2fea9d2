// F01: fields are values. A history of constructions, copies, moves, assignments, resizes and swaps on a pool of
// fields is compared after every step with std::vector; the executor-memory accountant watches every allocation.
#include "nfk.hpp"
using namespace FV;
FV_MAIN

namespace
{
constexpr int kAllocHost = 0, kAllocDevice = 1;

template<typename T>
struct Entry
{
    std::unique_ptr<Field<T>> f;
    int ex;
    std::vector<T> v;          // expected
    std::vector<char> known;   // false: value never set
};

template<typename T>
bool sameVal(const T& a, const T& b)
{
    return std::memcmp(&a, &b, sizeof(T)) == 0 || eq(a, b);
}

template<typename T>
struct Pool
{
    std::vector<Entry<T>> p;
    std::string trace;
    void log(const std::string& s)
    {
        trace += s + "; ";
        if (trace.size() > 3000) trace = "..." + trace.substr(trace.size() - 2500);
        H::ctx().notes = std::string(tname<T>()) + " history: " + trace;
    }
    void check()
    {
        Kokkos::fence();
        std::set<const void*> ptrs;
        std::size_t blocks = 0;
        for (std::size_t k = 0; k < p.size(); ++k)
        {
            auto& e = p[k];
            auto& f = *e.f;
            std::string w = "field " + std::to_string(k);
            H_CHECK(f.size() == e.v.size(), w << " has size " << f.size() << ", expected " << e.v.size());
            H_CHECK((std::size_t)f.ssize() == e.v.size() && f.empty() == e.v.empty(), w << ": ssize/empty disagree with size");
            H_CHECK(f.range() == std::make_pair((std::size_t)0, e.v.size()), w << ": range() is not {0,size}");
            H_CHECK((int)f.exec().index() == e.ex, w << " is on executor " << exName(f.exec()) << ", expected " << exName(exByIndex(e.ex)));
            if (f.data())
            {
                ++blocks;
                H_CHECK(ptrs.insert(f.data()).second, w << " shares its storage with another field");
                if (NFM::separateMemory())
                    H_CHECK(NFM::owner(f.data()) == (e.ex == 2 ? kAllocDevice : kAllocHost), w << " lives in the wrong memory space");
            }
            else H_CHECK(f.size() == 0, w << " has no storage but size " << f.size());
            const auto& cf = f;
            H_CHECK(f.view().data() == f.data() && cf.view().size() == f.size(), w << ": view() does not show the field's storage");
            auto got = values(f);
            for (std::size_t i = 0; i < got.size(); ++i)
                if (e.known[i])
                    H_CHECK(sameVal(got[i], e.v[i]), w << "[" << i << "] is " << str(got[i]) << ", expected " << str(e.v[i]));
        }
        H_CHECK(NFM::liveBlocks() <= blocks, NFM::liveBlocks() << " live executor allocations for " << blocks << " fields with storage");
    }
    void add(std::unique_ptr<Field<T>> f, int ex, std::vector<T> v, std::vector<char> k)
    {
        Entry<T> e {std::move(f), ex, std::move(v), std::move(k)};
        if (p.size() < 7) p.push_back(std::move(e));
        else p[H::ctx().rng.below(p.size())] = std::move(e);
    }
};

std::size_t rndSize(Rng& r)
{
    if (r.chance(0.2)) return 0;
    if (r.chance(0.15)) return 1;
    if (r.chance(0.06)) return 100 + r.below(400);
    return r.below(14);
}

template<typename T>
void history(Rng& r, std::size_t steps)
{
    Pool<T> P;
    auto all = [](std::size_t n) { return std::vector<char>(n, 1); };
    for (std::size_t s = 0; s < steps; ++s)
    {
        int op = (int)r.below(20);
        if (P.p.empty()) op = (int)r.below(4);
        std::size_t k = r.below(P.p.size()), k2 = r.below(P.p.size());
        H::sig((uint64_t)op * 100 + k);
        int ex = (int)r.below(3);
        Executor E = exByIndex(ex);
        std::size_t n = rndSize(r);
        switch (op)
        {
        case 0:
        {
            auto v = rndVec<T>(r, n);
            P.log("from vector(" + std::to_string(n) + ") on " + exName(E));
            P.add(std::make_unique<Field<T>>(E, v), ex, v, all(n));
            break;
        }
        case 1:
        {
            T x = rnd<T>(r);
            P.log("uniform(" + std::to_string(n) + ") on " + exName(E));
            P.add(std::make_unique<Field<T>>(E, n, x), ex, std::vector<T>(n, x), all(n));
            break;
        }
        case 2:
        {
            P.log("uninitialised(" + std::to_string(n) + ") on " + exName(E));
            P.add(std::make_unique<Field<T>>(E, n), ex, std::vector<T>(n), std::vector<char>(n, 0));
            break;
        }
        case 3:
        {
            auto v = rndVec<T>(r, n);
            P.log("from pointer(" + std::to_string(n) + ") on " + exName(E));
            auto f = std::make_unique<Field<T>>(E, v.data(), n);
            auto keep = v;
            for (auto& x : v) x = rnd<T>(r); // the source is no longer referenced
            P.add(std::move(f), ex, keep, all(n));
            break;
        }
        case 4:
        case 5:
        {
            P.log("copy of " + std::to_string(k));
            auto& e = P.p[k];
            P.add(std::make_unique<Field<T>>(*e.f), e.ex, e.v, e.known);
            break;
        }
        case 6:
        {
            P.log("copy of " + std::to_string(k) + " constructed on " + exName(E));
            auto& e = P.p[k];
            P.add(std::make_unique<Field<T>>(E, *e.f), ex, e.v, e.known);
            break;
        }
        case 7:
        case 8:
        {
            P.log("copyToExecutor(" + std::to_string(k) + ", " + exName(E) + ")");
            auto& e = P.p[k];
            P.add(std::make_unique<Field<T>>(e.f->copyToExecutor(E)), ex, e.v, e.known);
            break;
        }
        case 9:
        {
            P.log("copyToHost(" + std::to_string(k) + ")");
            auto& e = P.p[k];
            P.add(std::make_unique<Field<T>>(e.f->copyToHost()), 0, e.v, e.known);
            break;
        }
        case 10:
        {
            auto& e = P.p[k];
            P.log("copyToHost(" + std::to_string(k) + ", other)");
            auto dst = std::make_unique<Field<T>>(serial(), e.v.size());
            e.f->copyToHost(*dst);
            P.add(std::move(dst), 0, e.v, e.known);
            break;
        }
        case 11:
        {
            P.log("move-construct from " + std::to_string(k));
            auto& e = P.p[k];
            auto moved = std::make_unique<Field<T>>(std::move(*e.f));
            int ex2 = e.ex;
            auto v = e.v;
            auto kn = e.known;
            H_CHECK(e.f->size() == 0, "a moved-from field still has " << e.f->size() << " elements");
            e.v.clear();
            e.known.clear();
            P.add(std::move(moved), ex2, v, kn);
            break;
        }
        case 12:
        case 13:
        {
            // assignment between fields of one executor (also self-assignment and of a moved-from field)
            auto &a = P.p[k], &b = P.p[k2];
            if (a.ex != b.ex)
            {
                if (r.chance(0.02))
                {
                    auto res = H::inChild([&] { *a.f = *b.f; });
                    H_CHECK(res.refused(), "assignment between fields of different executors was accepted" << " (exit code " << res.code << " signal " << res.signal << "): " << res.err.substr(0, 300));
                    H::count("rejected assignments across executors");
                }
                break;
            }
            P.log(std::to_string(k) + " = " + std::to_string(k2));
            *a.f = *b.f;
            if (k != k2)
            {
                a.v = b.v;
                a.known = b.known;
            }
            else H::count("self-assignments");
            break;
        }
        case 14:
        {
            auto& a = P.p[k];
            T x = rnd<T>(r);
            P.log(std::to_string(k) + " = value");
            *a.f = x;
            a.v.assign(a.v.size(), x);
            a.known.assign(a.v.size(), 1);
            break;
        }
        case 15:
        case 16:
        {
            auto& a = P.p[k];
            P.log(std::to_string(k) + ".resize(" + std::to_string(n) + ")");
            a.f->resize(n);
            a.v.resize(n);
            a.known.resize(n, 0);
            break;
        }
        case 17:
        {
            auto &a = P.p[k], &b = P.p[k2];
            if (a.ex != b.ex || k == k2) break;
            P.log("swap " + std::to_string(k) + " " + std::to_string(k2));
            Field<T> tmp(std::move(*a.f));
            *a.f = *b.f;
            *b.f = tmp;
            std::swap(a.v, b.v);
            std::swap(a.known, b.known);
            break;
        }
        case 18:
        {
            // write to one field, through its own storage: nobody else may see it
            auto& a = P.p[k];
            if (a.v.empty()) break;
            std::size_t i = r.below(a.v.size());
            T x = rnd<T>(r);
            P.log("write " + std::to_string(k) + "[" + std::to_string(i) + "]");
            auto v = a.f->view();
            parallelFor(a.f->exec(), {i, i + 1}, KOKKOS_LAMBDA(const size_t j) { v[j] = x; });
            a.v[i] = x;
            a.known[i] = 1;
            break;
        }
        default:
        {
            P.log("destroy " + std::to_string(k));
            P.p.erase(P.p.begin() + (long)k);
            break;
        }
        }
        P.check();
    }
    // a growing container of fields: moves must keep contents
    std::vector<Field<T>> grow;
    std::vector<std::vector<T>> want;
    for (int i = 0; i < 6; ++i)
    {
        want.push_back(rndVec<T>(r, rndSize(r)));
        grow.emplace_back(exByIndex((int)r.below(3)), want.back());
    }
    for (int i = 0; i < 6; ++i) expectEq(values(grow[(std::size_t)i]), want[(std::size_t)i], "field moved inside a growing container");
    H::count("field operations", steps);
}


// storage taken from the executors directly
template<typename T>
void rawStorage(Rng& r)
{
    for (int a = 0; a < 3; ++a)
        for (int b = 0; b < 3; ++b)
        {
            H_CHECK((exByIndex(a) == exByIndex(b)) == (a == b), "executors " << exName(exByIndex(a)) << " and " << exName(exByIndex(b)) << " compare " << (a == b ? "unequal" : "equal"));
            H_CHECK((exByIndex(a) != exByIndex(b)) == (a != b), "executors " << exName(exByIndex(a)) << " and " << exName(exByIndex(b)) << " do not compare");
        }
    Executor e = anyExec(r);
    std::visit(
        [&](const auto& ex)
        {
            std::string w = "storage for " + std::string(tname<T>()) + " of the " + exName(e) + " executor";
            H::note(w);
            H_CHECK(ex.name().size() > 3, w << ": name '" << ex.name() << "'");
            std::size_t n = 1 + r.below(60), m = 1 + r.below(60);
            bool typed = r.chance(0.5);
            auto before = NFM::liveBlocks();
            T* p = typed ? ex.template alloc<T>(n) : static_cast<T*>(ex.alloc(n * sizeof(T)));
            auto owned = p;
            auto giveBack = [&ex](T** x)
            {
                if (*x) ex.free(*x);
            };
            std::unique_ptr<T*, decltype(giveBack)> guard(&owned, giveBack); // (if anything below fails)
            H_CHECK(p != nullptr && NFM::liveBlocks() == before + 1, w << ": not one block taken");
            if (NFM::separateMemory()) H_CHECK(NFM::owner(p) == (e.index() == 2 ? kAllocDevice : kAllocHost), w << " lies in the wrong memory space");
            auto want = rndVec<T>(r, n);
            auto src = field(e, want);
            auto s = src.view();
            parallelFor(e, {0, n}, KOKKOS_LAMBDA(const size_t i) { p[i] = s[i]; });
            expectEq(raw(p, n), want, w);
            auto v = ex.createKokkosView(p, n);
            H_CHECK(v.size() == n && v.data() == p, w << ": the view made of it shows something else");
            Kokkos::fence();
            T* q = typed ? ex.template realloc<T>(p, m) : static_cast<T*>(ex.realloc(p, m * sizeof(T)));
            owned = q;
            H_CHECK(q != nullptr && NFM::liveBlocks() == before + 2, w << ": " << NFM::liveBlocks() - before << " blocks after growing or shrinking");
            auto k = std::min(n, m);
            expectEq(raw(q, k), std::vector<T>(want.begin(), want.begin() + (long)k), w + " after growing or shrinking");
            parallelFor(e, {0, m}, KOKKOS_LAMBDA(const size_t i) { q[i] = T {}; });
            expectEq(raw(q, m), std::vector<T>(m, T {}), w + " after growing or shrinking");
            guard.reset();
            H::count("blocks taken from executors directly");
        },
        e
    );
}
}

void runCase(H::Ctx& c)
{
    hostileSchedule(c.rng);
    if (c.rng.chance(0.3)) rawStorage<scalar>(c.rng);
    if (c.rng.chance(0.3)) rawStorage<Vector>(c.rng);
    std::size_t steps = c.thorough ? 150 : 50;
    switch (c.rng.below(4))
    {
    case 0: history<scalar>(c.rng, steps); break;
    case 1: history<Vector>(c.rng, steps); break;
    case 2: history<label>(c.rng, steps); break;
    default: history<localIdx>(c.rng, steps); break;
    }
}
