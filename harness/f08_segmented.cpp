// F08: segmented fields. Built from random segment lengths (zeros, empty list, large ones) on every executor;
// the partition is compared with a reference prefix sum, and every access path of a view with the others.
#include "nfk.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
using namespace FV;
FV_MAIN

namespace
{
template<typename T, typename I>
void one(Rng& r)
{
    Executor e = anyExec(r);
    std::size_t n = r.chance(0.02) ? 1000 + r.below(3000) : r.chance(0.1) ? 0 : r.chance(0.1) ? 40 + r.below(200) : r.below(14);
    std::vector<I> len(n);
    double pz = r.uniform(0, 0.8);
    for (auto& l : len) l = r.chance(pz) ? I(0) : (I)r.below(r.chance(0.1) ? 60 : 6);
    std::vector<I> seg(n + 1, 0);
    for (std::size_t i = 0; i < n; ++i) seg[i + 1] = I(seg[i] + len[i]);
    std::size_t total = (std::size_t)seg[n];
    std::string w = std::string(tname<T>()) + " on " + exName(e) + ", lengths " + str(len) + ": ";
    H::note(w);
    H::sig(w);
    H::count("segments", n);
    H::count("empty segments", (uint64_t)std::count(len.begin(), len.end(), I(0)));

    auto lenF = field(e, len);
    // the free function, with any prior content of the offsets behind the leading zero
    {
        std::vector<I> junk = rndVec<I>(r, n + 1);
        junk[0] = 0;
        auto off = field(e, junk);
        I tot = segmentsFromIntervals(lenF, off);
        H_CHECK((std::size_t)tot == total, w << "segmentsFromIntervals returns " << tot << " instead of " << total);
        expectEq(values(off), seg, w + "offsets");
        expectEq(values(lenF), len, w + "lengths changed");
    }
    SegmentedField<T, I> s(lenF);
    H_CHECK(s.exec() == e, w << "wrong executor");
    H_CHECK(s.numSegments() == n, w << s.numSegments() << " segments instead of " << n);
    H_CHECK(s.size() == total, w << s.size() << " values instead of " << total);
    expectEq(values(s.segments()), seg, w + "segments()");
    H_CHECK(s.values().size() == total, w << "values() has " << s.values().size() << " entries instead of " << total);
    auto data = rndVec<T>(r, total);
    auto v = s.view();
    auto [sv, ss] = s.spans();
    H_CHECK(sv.size() == total && ss.size() == n + 1, w << "spans() have sizes " << sv.size() << "," << ss.size());
    H_CHECK(sv.data() == v.values.data() && ss.data() == v.segments.data(), w << "spans() and view() differ");
    {
        auto& f = const_cast<Field<T>&>(s.values());
        poke(f, data);
    }
    // all access paths inside a kernel; every segment writes its own copy through its span
    Field<I> lo(e, n + 1), hi(e, n + 1), st(e, n + 1), ln(e, n + 1), sz(e, n + 1), br(e, n + 1);
    Field<T> copy(e, total);
    auto vlo = lo.view(), vhi = hi.view(), vst = st.view(), vln = ln.view(), vsz = sz.view(), vbr = br.view();
    auto vcopy = copy.view();
    parallelFor(
        e, {0, n},
        KOKKOS_LAMBDA(const size_t i) {
            auto b = v.bounds(i);
            auto rg = v.range(i);
            auto sp = v.span(i);
            vlo[i] = b.first;
            vhi[i] = b.second;
            vst[i] = rg.first;
            vln[i] = rg.second;
            vsz[i] = (I)sp.size();
            vbr[i] = v[i];
            for (std::size_t k = 0; k < sp.size(); ++k) vcopy[(std::size_t)rg.first + k] = sp[k];
        }
    );
    auto rlo = values(lo), rhi = values(hi), rst = values(st), rln = values(ln), rsz = values(sz), rbr = values(br);
    for (std::size_t i = 0; i < n; ++i)
    {
        H_CHECK(rlo[i] == seg[i] && rhi[i] == seg[i + 1], w << "bounds(" << i << ") are " << rlo[i] << "," << rhi[i] << " instead of " << seg[i] << "," << seg[i + 1]);
        H_CHECK(rst[i] == seg[i] && rln[i] == len[i], w << "range(" << i << ") is " << rst[i] << "," << rln[i] << " instead of " << seg[i] << "," << len[i]);
        H_CHECK(rsz[i] == len[i], w << "span(" << i << ") has " << rsz[i] << " values instead of " << len[i]);
        H_CHECK(rbr[i] == seg[i], w << "view[" << i << "] is " << rbr[i]);
    }
    expectEq(values(copy), data, w + "values read through the segments");
    // write through one segment only
    if (n)
    {
        std::size_t k = r.below(n);
        T x = rnd<T>(r);
        parallelFor(
            e, {k, k + 1},
            KOKKOS_LAMBDA(const size_t i) {
                auto sp = v.span(i);
                for (auto& y : sp) y = x;
            }
        );
        for (I i = seg[k]; i < seg[k + 1]; ++i) data[(std::size_t)i] = x;
        expectEq(values(s.values()), data, w + "values after writing segment " + std::to_string(k));
        expectEq(values(s.segments()), seg, w + "segments after writing values");
    }
    // copies are values of their own
    {
        SegmentedField<T, I> c(s);
        auto cv = c.view();
        if (total)
        {
            T x = rnd<T>(r);
            parallelFor(e, {0, total}, KOKKOS_LAMBDA(const size_t i) { cv.values[i] = x; });
            expectEq(values(s.values()), data, w + "original after writing a copy");
        }
        expectEq(values(c.segments()), seg, w + "segments of a copy");
    }
    // built from given values and segments, or from sizes
    {
        auto fv = field(e, data);
        auto fs = field(e, seg);
        SegmentedField<T, I> g(fv, fs);
        expectEq(values(g.values()), data, w + "values of a field built from values and segments");
        expectEq(values(g.segments()), seg, w + "segments of a field built from values and segments");
        H_CHECK(g.numSegments() == n && g.size() == total, w << "sizes of a field built from values and segments");
        SegmentedField<T, I> q(e, total, n);
        H_CHECK(q.numSegments() == n && q.size() == total && q.segments().size() == n + 1, w << "sizes of a sized segmented field");
    }
}
}
void runCase(H::Ctx& c)
{
    hostileSchedule(c.rng);
    for (int k = 0; k < 3; ++k)
    {
        one<scalar, localIdx>(c.rng);
        one<Vector, label>(c.rng);
        one<localIdx, localIdx>(c.rng);
        one<label, label>(c.rng);
    }
}
