// WHAT=1  L01: entries of compressed matrices, copies and conversions
// WHAT=2  L02: residuals and linear systems
#include "linsys.hpp"
using namespace FV;
FV_MAIN

namespace
{
template<typename T>
T rnd(Rng& r)
{
    if constexpr (std::is_same_v<T, Vector>) return Vector(r.dyadic(), r.dyadic(), r.dyadic());
    else return (T)r.dyadic();
}
template<typename I>
struct Pattern
{
    std::size_t n = 0;
    std::vector<I> rp, ci;
    bool sorted = true;
};
// rows are empty, full, sparse, sorted or not; columns of a row are distinct
template<typename I>
Pattern<I> pattern(Rng& r, std::size_t maxN, bool square = true)
{
    Pattern<I> p;
    p.n = r.below(maxN + 1);
    std::size_t cols = square ? p.n : 1 + r.below(maxN * 2);
    int style = (int)r.below(5);
    p.rp.push_back(0);
    for (std::size_t i = 0; i < p.n; ++i)
    {
        double d = style == 0 ? 1.0 : style == 1 ? 0.0 : style == 2 ? r.pick({0.0, 1.0, 0.3}) : 0.4;
        std::vector<I> row;
        for (std::size_t j = 0; j < cols; ++j)
            if (r.chance(d) || (style == 3 && i == j)) row.push_back((I)j);
        if (style != 2 && r.chance(0.6)) r.shuffle(row);
        for (std::size_t k = 1; k < row.size(); ++k) p.sorted &= row[k - 1] < row[k];
        for (auto c : row) p.ci.push_back(c);
        p.rp.push_back((I)p.ci.size());
    }
    if (p.n == 0 && r.chance(0.5)) p.rp.clear();
    return p;
}
template<typename T>
std::vector<T> rndValues(Rng& r, std::size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v) x = rnd<T>(r);
    return v;
}
template<typename T, typename I>
void expectMatrix(const la::CSRMatrix<T, I>& m, const std::vector<T>& v, const Pattern<I>& p, const Executor& e, const std::string& w)
{
    H_CHECK(m.exec().index() == e.index(), w << " is on executor " << exName(m.exec()) << " instead of " << exName(e));
    H_CHECK(m.values().exec().index() == e.index() && m.colIdxs().exec().index() == e.index() && m.rowPtrs().exec().index() == e.index(), w << ": parts on different executors");
    H_CHECK((std::size_t)m.nRows() == p.n, w << ": nRows() is " << m.nRows() << " instead of " << p.n);
    H_CHECK((std::size_t)m.nNonZeros() == v.size(), w << ": nNonZeros() is " << m.nNonZeros());
    expectEq(values(m.values()), v, w + ": coefficients");
    expectEq(values(m.colIdxs()), p.ci, w + ": column indices");
    expectEq(values(m.rowPtrs()), p.rp, w + ": row pointers");
}
#if WHAT == 1
template<typename T, typename I>
void entries(Rng& r, const Executor& e, std::size_t maxN)
{
    auto p = pattern<I>(r, maxN, r.chance(0.7));
    auto v = rndValues<T>(r, p.ci.size());
    la::CSRMatrix<T, I> m(field<T>(e, v), field<I>(e, p.ci), field<I>(e, p.rp));
    std::string w = "matrix of " + std::to_string(p.n) + " rows, " + std::to_string(v.size()) + " entries on " + exName(e);
    expectMatrix<T, I>(m, v, p, e, w);
    H::sig(str(p.ci) + str(p.rp) + w);
    H::count(p.sorted ? "matrices with sorted rows" : "matrices with unsorted rows");
    // every stored entry, read and written through (i,j) and through its offset, inside kernels
    std::vector<I> rows;
    for (std::size_t i = 0; i < p.n; ++i)
        for (auto k = p.rp[i]; k < p.rp[i + 1]; ++k) rows.push_back((I)i);
    auto rowF = field<I>(e, rows);
    auto nn = v.size();
    Field<T> got(e, nn), got2(e, nn), got3(e, nn);
    {
        auto mv = m.view();
        const auto cmv = std::as_const(m).view();
        auto [g, g2, g3] = spans(got, got2, got3);
        const auto row = rowF.view();
        parallelFor(e, {0, nn}, KOKKOS_LAMBDA(const std::size_t k) {
            g[k] = mv.entry(row[k], cmv.colIdxs[k]);
            g2[k] = cmv.entry(row[k], cmv.colIdxs[k]);
            g3[k] = cmv.entry((I)k);
        });
    }
    expectEq(values(got), v, w + ": entry(i,j)");
    expectEq(values(got2), v, w + ": entry(i,j) of the constant view");
    expectEq(values(got3), v, w + ": entry(offset)");
    H::count("entries read by row and column", nn);
    // writes: a random subset is changed, everything else stays
    for (int round = 0; round < 3; ++round)
    {
        auto add = rndValues<T>(r, nn);
        std::vector<I> on(nn);
        for (auto& o : on) o = (I)r.below(round == 0 ? 2 : 4);
        auto addF = field<T>(e, add);
        auto onF = field<I>(e, on);
        bool byOffset = r.chance(0.3);
        {
            auto mv = m.view();
            const auto row = rowF.view();
            const auto a = addF.view();
            const auto o = onF.view();
            parallelFor(e, {0, nn}, KOKKOS_LAMBDA(const std::size_t k) {
                if (o[k] == 0) return;
                if (byOffset) mv.entry((I)k) = a[k];
                else mv.entry(row[k], mv.colIdxs[k]) += a[k];
            });
        }
        for (std::size_t k = 0; k < nn; ++k)
            if (on[k]) v[k] = byOffset ? add[k] : T(v[k] + add[k]);
        expectMatrix<T, I>(m, v, p, e, w + " after writing entries");
        H::count("entries written by row and column", nn);
    }
    // copies are independent, on the executor asked for
    auto to = anyExec(r);
    auto c = std::as_const(m).copyToExecutor(to);
    expectMatrix<T, I>(c, v, p, to, w + " copied to " + exName(to));
    auto h = std::as_const(m).copyToHost();
    expectMatrix<T, I>(h, v, p, serial(), w + " copied to the host");
    la::CSRMatrix<T, I> same(m);
    if (nn)
    {
        auto v2 = rndValues<T>(r, nn);
        poke(c.values(), v2);
        poke(h.values(), v2);
        expectMatrix<T, I>(m, v, p, e, w + " after changing its copies");
        poke(m.values(), v2);
        expectMatrix<T, I>(same, v, p, e, w + ": copy after changing the original");
        expectMatrix<T, I>(c, v2, p, to, w + ": copy");
        v = v2;
    }
    // conversion of values and indices
    auto conv = [&]<typename T2, typename I2>(T2, I2)
    {
        auto k = la::convert<T, I, T2, I2>(e, std::as_const(m).view());
        std::vector<T2> vv;
        Pattern<I2> pp;
        pp.n = p.n;
        for (auto& x : v) vv.push_back((T2)x);
        for (auto x : p.ci) pp.ci.push_back((I2)x);
        for (auto x : p.rp) pp.rp.push_back((I2)x);
        expectMatrix<T2, I2>(k, vv, pp, e, w + " converted");
        expectMatrix<T, I>(m, v, p, e, w + " after conversion");
        H::count("matrices converted");
    };
    conv(T {}, int {});
    if constexpr (std::is_floating_point_v<T>)
    {
        conv(float {}, std::size_t {});
        conv(double {}, localIdx {});
    }
    // entries outside the structure are refused
    if (r.chance(0.2) && p.n)
    {
        std::size_t cols = p.n + 2;
        auto i = r.below(p.n), j = r.below(cols);
        bool stored = false;
        for (auto k = p.rp[i]; k < p.rp[i + 1]; ++k) stored |= (std::size_t)p.ci[k] == j;
        auto res = H::inChild([&] {
            Field<T> out(e, 1);
            auto o = out.view();
            auto mv = m.view();
            I ii = (I)i, jj = (I)j;
            bool writes = true;
            parallelFor(e, {0, 1}, KOKKOS_LAMBDA(const std::size_t) {
                if (writes) mv.entry(ii, jj) = T {};
                else o[0] = mv.entry(ii, jj);
            });
            Kokkos::fence();
        });
        if (stored) H_CHECK(res.exited && res.code == 0, w << ": access to the stored entry (" << i << "," << j << ") ended the program: " << res.err);
        else H_CHECK(!(res.exited && res.code == 0) && res.err.find("CSR") != std::string::npos, w << ": access to entry (" << i << "," << j << "), which is not stored, was served: " << res.err);
        H::count(stored ? "single entries of the structure accessed in a child" : "entries outside the structure refused");
    }
}
// on mesh patterns, the recorded offsets and entry(i,j) address the same coefficient
void meshPattern(Rng& r, std::size_t maxCells)
{
    auto h = anyMesh(r, maxCells);
    auto e = anyExec(r);
    auto mesh = build(e, h);
    auto sp = fvcc::SparsityPattern(*mesh);
    auto ls = la::createEmptyLinearSystem<scalar, localIdx>(sp);
    std::vector<scalar> coef = rndFluxes(r, 2 * h.nInt);
    auto cF = field<scalar>(e, coef);
    auto own = field<label>(e, std::vector<label>(h.own.begin(), h.own.end()));
    auto nei = field<label>(e, std::vector<label>(h.nei.begin(), h.nei.end()));
    std::set<std::pair<long, long>> pairs;
    bool distinct = true;
    for (std::size_t f = 0; f < h.nInt; ++f) distinct &= pairs.insert({(long)std::min(h.own[f], h.nei[f]), (long)std::max(h.own[f], h.nei[f])}).second;
    if (!distinct) return; // several faces between two cells: (i,j) is stored more than once
    {
        auto m = ls.matrix().view();
        const auto [c, o, n] = spans(cF, own, nei);
        parallelFor(e, {0, h.nInt}, KOKKOS_LAMBDA(const std::size_t f) {
            m.entry((localIdx)o[f], (localIdx)n[f]) = c[2 * f];
            m.entry((localIdx)n[f], (localIdx)o[f]) = c[2 * f + 1];
        });
    }
    auto val = values(ls.matrix().values());
    auto rp = values(sp.rowPtrs());
    auto oo = values(sp.ownerOffset()), no = values(sp.neighbourOffset());
    std::vector<scalar> want(val.size(), 0.0);
    for (std::size_t f = 0; f < h.nInt; ++f)
    {
        want[rp[(std::size_t)h.own[f]] + oo[f]] = coef[2 * f];
        want[rp[(std::size_t)h.nei[f]] + no[f]] = coef[2 * f + 1];
    }
    expectEq(val, want, "coefficients written by row and column on a mesh pattern");
    H::count("mesh face coefficients addressed by row and column", 2 * h.nInt);
}
#else
template<typename T, typename I>
void expectSystem(const la::LinearSystem<T, I>& ls, const std::vector<T>& v, const std::vector<T>& b, const Pattern<I>& p, const Executor& e, const std::string& w)
{
    expectMatrix<T, I>(ls.matrix(), v, p, e, w);
    H_CHECK(ls.exec().index() == e.index() && ls.rhs().exec().index() == e.index(), w << ": executor");
    expectEq(values(ls.rhs()), b, w + ": right-hand side");
}
template<typename T, typename I>
void systems(Rng& r, const Executor& e, std::size_t maxN)
{
    auto p = pattern<I>(r, maxN, true);
    if (p.rp.empty()) p.rp.push_back(0);
    auto v = rndValues<T>(r, p.ci.size());
    auto b = rndValues<T>(r, p.n);
    std::string w = "system of " + std::to_string(p.n) + " rows, " + std::to_string(v.size()) + " entries on " + exName(e);
    H::sig(str(p.ci) + str(p.rp) + w);
    la::LinearSystem<T, I> ls(la::CSRMatrix<T, I>(field<T>(e, v), field<I>(e, p.ci), field<I>(e, p.rp)), field<T>(e, b));
    expectSystem<T, I>(ls, v, b, p, e, w);
    if constexpr (std::is_floating_point_v<T>)
        for (int k = 0; k < 3; ++k)
        {
            auto x = rndValues<T>(r, p.n);
            if (k == 2) std::fill(x.begin(), x.end(), T {});
            auto xF = field<T>(e, x);
            auto y = la::spmv(ls, xF);
            H_CHECK(y.exec().index() == e.index() && y.size() == p.n, w << ": residual is on " << exName(y.exec()) << " with size " << y.size());
            auto got = values(y);
            for (std::size_t i = 0; i < p.n; ++i)
            {
                double s = -(double)b[i], m = std::fabs((double)b[i]);
                for (auto q = p.rp[i]; q < p.rp[i + 1]; ++q)
                {
                    s += (double)v[q] * (double)x[p.ci[q]];
                    m += std::fabs((double)v[q] * (double)x[p.ci[q]]);
                }
                H_CHECK(near((double)got[i], s, m, sizeof(T) == 4 ? 1e-5 : 1e-12), w << ": residual of row " << i << " is " << got[i] << " instead of " << s);
            }
            H::count("residual rows compared with the dense computation", p.n);
            expectEq(values(xF), x, w + ": x after the product");
            expectSystem<T, I>(ls, v, b, p, e, w + " after the product");
        }
    // copies
    la::LinearSystem<T, I> c(ls);
    auto h = std::as_const(ls).copyToHost();
    expectSystem<T, I>(c, v, b, p, e, w + ": copy");
    expectSystem<T, I>(h, v, b, p, serial(), w + ": host copy");
    auto b2 = rndValues<T>(r, p.n), v2 = rndValues<T>(r, v.size());
    if (r.chance(0.5))
    {
        poke(ls.rhs(), b2);
        poke(ls.matrix().values(), v2);
        expectSystem<T, I>(c, v, b, p, e, w + ": copy after changing the original");
        expectSystem<T, I>(h, v, b, p, serial(), w + ": host copy after changing the original");
        v = v2;
        b = b2;
    }
    else
    {
        poke(c.rhs(), b2);
        poke(c.matrix().values(), v2);
        poke(h.rhs(), b2);
        poke(h.matrix().values(), v2);
        expectSystem<T, I>(ls, v, b, p, e, w + " after changing its copies");
    }
    // the view writes through
    if (p.n)
    {
        auto lv = ls.view();
        auto n = p.n;
        parallelFor(e, {0, n}, KOKKOS_LAMBDA(const std::size_t i) { lv.rhs[i] += lv.rhs[i]; });
        for (auto& x : b) x = x + x;
        auto clv = std::as_const(ls).view();
        Field<T> out(e, n);
        auto o = out.view();
        parallelFor(e, {0, n}, KOKKOS_LAMBDA(const std::size_t i) { o[i] = clv.rhs[i]; });
        expectEq(values(out), b, w + ": right-hand side read through a view");
        expectSystem<T, I>(ls, v, b, p, e, w + " written through a view");
    }
    // conversion
    auto conv = [&]<typename T2, typename I2>(T2, I2)
    {
        auto k = la::convertLinearSystem<T, I, T2, I2>(ls);
        std::vector<T2> vv, bb;
        Pattern<I2> pp;
        pp.n = p.n;
        for (auto& x : v) vv.push_back((T2)x);
        for (auto& x : b) bb.push_back((T2)x);
        for (auto x : p.ci) pp.ci.push_back((I2)x);
        for (auto x : p.rp) pp.rp.push_back((I2)x);
        expectSystem<T2, I2>(k, vv, bb, pp, e, w + " converted");
        expectSystem<T, I>(ls, v, b, p, e, w + " after conversion");
        H::count("systems converted");
    };
    conv(T {}, int {});
    if constexpr (std::is_floating_point_v<T>)
    {
        conv(float {}, std::size_t {});
        conv(double {}, localIdx {});
    }
    if constexpr (std::is_same_v<T, float>) return; // zero<float>() exists in single-precision builds only
    else ls.reset();
    expectSystem<T, I>(ls, std::vector<T>(v.size(), T {}), std::vector<T>(b.size(), T {}), p, e, w + " after reset");
    H::count("systems");
}
void meshSystem(Rng& r, std::size_t maxCells)
{
    auto h = anyMesh(r, maxCells);
    auto e = anyExec(r);
    auto mesh = build(e, h);
    fvcc::SparsityPattern sp(*mesh);
    auto ls = la::createEmptyLinearSystem<Vector, localIdx>(sp);
    Pattern<localIdx> p;
    p.n = h.nCells;
    p.rp = values(sp.rowPtrs());
    p.ci = values(sp.colIdxs());
    expectSystem<Vector, localIdx>(ls, std::vector<Vector>(p.ci.size(), Vector(0, 0, 0)), std::vector<Vector>(p.n, Vector(0, 0, 0)), p, e, "empty system of a mesh");
    H::count("empty systems created from mesh patterns");
}
#endif
} // namespace

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    for (int k = 0; k < 3; ++k)
    {
        auto e = anyExec(r);
        std::size_t maxN = r.chance(0.01) ? 150 : c.thorough ? r.pick<std::size_t>({4, 12, 40}) : r.pick<std::size_t>({3, 8, 14});
#if WHAT == 1
        switch (r.below(5))
        {
        case 0: entries<double, localIdx>(r, e, maxN); break;
        case 1: entries<double, int>(r, e, maxN); break;
        case 2: entries<float, int>(r, e, maxN); break;
        case 3: entries<Vector, localIdx>(r, e, maxN); break;
        default: meshPattern(r, maxN * 3); break;
        }
#else
        switch (r.below(5))
        {
        case 0: systems<double, localIdx>(r, e, maxN); break;
        case 1: systems<double, int>(r, e, maxN); break;
        case 2: systems<float, std::size_t>(r, e, maxN); break;
        case 3: systems<Vector, localIdx>(r, e, maxN); break;
        default: meshSystem(r, maxN * 3); break;
        }
#endif
    }
}
