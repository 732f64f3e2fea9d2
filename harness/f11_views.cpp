// F11: views expose exactly the elements they were given; with NF_DEBUG every access outside is detected.
// Compiled with and without NF_DEBUG.
#include "nfk.hpp"
#include "NeoFOAM/core/view.hpp"
using namespace FV;
FV_MAIN

namespace
{
#ifdef NF_DEBUG
constexpr bool debug = true;
#else
constexpr bool debug = false;
#endif

// reads v[i] in a child process, reports whether the process was stopped with a diagnostic
template<typename V>
void expectStopped(V v, std::size_t i, const std::string& w)
{
    auto res = H::inChild([&] {
        auto x = v[i];
        std::fprintf(stderr, "value %p\n", (void*)&x);
    });
    H_CHECK(!(res.exited && res.code == 0), w << "an access at " << i << " of a view of size " << v.size() << " went unnoticed in a debug build");
    H_CHECK(res.err.find("out of range") != std::string::npos || res.err.find("range") != std::string::npos,
            w << "no diagnostic for an access outside the view: " << res.err.substr(0, 200));
    H::count("accesses outside a view, process stopped");
}

template<typename T>
void one(Rng& r)
{
    std::size_t total = 1 + r.below(40);
    if (r.chance(0.05)) total = 500;
    // a buffer with the view's data in the middle, all reads outside the view stay inside the buffer
    std::vector<T> buf = rndVec<T>(r, total);
    std::size_t lo = r.below(total + 1), n = r.below(total - lo + 1);
    std::string w = std::string(tname<T>()) + " view of [" + std::to_string(lo) + "," + std::to_string(lo + n) + ") in " + std::to_string(total) + ": ";
    H::note(w);
    H::sig(w);
    std::vector<T> part(buf.begin() + (long)lo, buf.begin() + (long)(lo + n));
    auto show = [&](const auto& v, const std::vector<T>& want, const T* base, const std::string& what)
    {
        H_CHECK(v.size() == want.size(), w << what << " has size " << v.size() << " instead of " << want.size());
        H_CHECK(want.empty() || v.data() == base, w << what << " does not start at the first element given");
        H_CHECK(v.abort, w << what << ": abort is off by default");
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            H_CHECK(eq(v[i], want[i]), w << what << "[" << i << "] is " << str(v[i]) << " instead of " << str(want[i]));
            H_CHECK(&v[i] == base + i, w << what << "[" << i << "] is not the element given");
        }
        std::size_t k = 0;
        for (auto& x : v)
        {
            H_CHECK(k < want.size() && &x == base + k, w << what << ": iteration leaves the view at " << k);
            ++k;
        }
        H_CHECK(k == want.size(), w << what << ": iteration visits " << k << " elements");
        H_CHECK(v.failureIndex == 0, w << what << ": failureIndex is " << v.failureIndex << " after accesses inside the view");
    };
    T* base = buf.data() + lo;
    View<T> v(base, n);
    View<const T> cv(static_cast<const T*>(base), n);
    View<T> fromSpan(std::span<T>(base, n));
    View<T> fromIter(buf.begin() + (long)lo, buf.begin() + (long)(lo + n));
    View<T> copy(v);
    show(v, part, base, "view");
    show(cv, part, base, "const view");
    show(fromSpan, part, base, "view of a span");
    show(fromIter, part, base, "view of iterators");
    show(copy, part, base, "copy of a view");
    View<T> whole(buf);
    show(whole, buf, buf.data(), "view of a container");
    // sub-views
    {
        std::size_t o = r.below(n + 1), m = r.below(n - o + 1);
        View<T> sub(v.subspan(o, m));
        show(sub, std::vector<T>(part.begin() + (long)o, part.begin() + (long)(o + m)), base + o, "sub-view");
        View<T> tail(v.subspan(o));
        show(tail, std::vector<T>(part.begin() + (long)o, part.end()), base + o, "tail view");
        View<T> first(v.first(m));
        show(first, std::vector<T>(part.begin(), part.begin() + (long)m), base, "first view");
        View<T> last(v.last(m));
        show(last, std::vector<T>(part.end() - (long)m, part.end()), base + (n - m), "last view");
    }
    // writing through
    if (n)
    {
        std::size_t i = r.below(n);
        T x = rnd<T>(r);
        View<T>& q = r.chance(0.5) ? v : fromSpan;
        q[i] = x;
        part[i] = x;
        auto all = buf;
        all[lo + i] = x;
        H_CHECK(eq(buf[lo + i], x), w << "a write through the view is lost");
        expectEq(buf, all, w + "write through the view");
        show(copy, part, base, "other view after a write");
    }
    // field views
    {
        Executor e = r.chance(0.5) ? serial() : cpu();
        auto f = field(e, buf);
        std::pair<size_t, size_t> rg {lo, lo + n};
        std::vector<T> p2(buf.begin() + (long)lo, buf.begin() + (long)(lo + n));
        show(f.view(), buf, f.data(), "field view");
        show(f.view(rg), p2, f.data() + lo, "field sub-view");
        const auto& cf = f;
        show(cf.view(rg), p2, cf.data() + lo, "const field sub-view");
        show(cf.view(), buf, cf.data(), "const field view");
    }
    // outside accesses
    if (debug)
    {
        // recorded, not stopped
        v.abort = false;
        {
            // a view that records goes on recording when it is handed on
            View<T> handed(v), assigned(base, n);
            assigned = v;
            H_CHECK(!handed.abort && !assigned.abort, w << "a copy of a view that does not abort does abort");
        }
        std::size_t firstBad = 0;
        for (int k = 0; k < 6; ++k)
        {
            std::size_t i = r.below(total - lo + (k == 0 ? 0 : 0)); // stays inside buf
            if (lo + i >= total) continue;
            bool bad = i >= n;
            T got = v[i];
            H_CHECK(eq(got, buf[lo + i]), w << "v[" << i << "] is " << str(got));
            if (bad && firstBad == 0) firstBad = i;
            H_CHECK(v.failureIndex == firstBad, w << "failureIndex is " << v.failureIndex << " instead of " << firstBad << " after access at " << i);
            H::count(bad ? "accesses outside a view, recorded" : "accesses inside a view, not recorded");
        }
        v.abort = true;
        if (r.chance(0.15))
        {
            std::size_t i = r.pick({n, n + 1, n + 7, std::numeric_limits<std::size_t>::max(), (std::size_t)1 << 40});
            if (r.chance(0.5)) expectStopped(v, i, w);
            else expectStopped(cv, i, w + "const ");
        }
        if (r.chance(0.1))
        {
            Executor e = anyExec(r);
            auto f = field(e, buf);
            auto fv = f.view({lo, lo + n});
            auto res = H::inChild([&] {
                parallelFor(e, {0, n + 1}, KOKKOS_LAMBDA(const size_t i) { fv[i] = T {}; });
                Kokkos::fence();
            });
            H_CHECK(!(res.exited && res.code == 0), w << "a kernel writing one past the view went unnoticed in a debug build on " << exName(e));
            H::count("accesses outside a view, process stopped");
        }
    }
}
}
void runCase(H::Ctx& c)
{
    hostileSchedule(c.rng);
    one<scalar>(c.rng);
    one<Vector>(c.rng);
    one<label>(c.rng);
    one<localIdx>(c.rng);
}
