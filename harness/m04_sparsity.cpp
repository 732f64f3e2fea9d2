// M04: the sparsity pattern is the cell adjacency plus the diagonal, and the recorded offsets address it exactly.
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
using namespace FV;
FV_MAIN

namespace
{
// empty when the pattern is right, else what is wrong
std::string wrong(const fvcc::SparsityPattern& sp, const HMesh& h)
{
    auto rp = values(sp.rowPtrs());
    auto ci = values(sp.colIdxs());
    auto oo = values(sp.ownerOffset());
    auto no = values(sp.neighbourOffset());
    auto dg = values(sp.diagOffset());
    std::ostringstream s;
    H::checked(rp.size() + ci.size() + oo.size() + no.size() + dg.size());
    if (sp.rows() != h.nCells) return "rows() is " + std::to_string(sp.rows());
    if (rp.size() != h.nCells + 1 || rp[0] != 0) return "row pointers " + str(rp);
    if (sp.nnz() != ci.size() || rp.back() != ci.size() || ci.size() != h.nCells + 2 * h.nInt)
        return "number of entries: nnz() " + std::to_string(sp.nnz()) + ", columns " + std::to_string(ci.size()) + ", last row pointer " + std::to_string(rp.back());
    if (oo.size() != h.nInt || no.size() != h.nInt || dg.size() != h.nCells) return "numbers of offsets";
    std::vector<std::multiset<std::size_t>> want(h.nCells);
    for (std::size_t i = 0; i < h.nCells; ++i) want[i].insert(i);
    for (std::size_t f = 0; f < h.nInt; ++f)
    {
        want[(std::size_t)h.own[f]].insert((std::size_t)h.nei[f]);
        want[(std::size_t)h.nei[f]].insert((std::size_t)h.own[f]);
    }
    for (std::size_t i = 0; i < h.nCells; ++i)
    {
        if (rp[i] > rp[i + 1]) return "row pointers decrease at row " + std::to_string(i);
        std::multiset<std::size_t> got(ci.begin() + (long)rp[i], ci.begin() + (long)rp[i + 1]);
        if (got != want[i]) return "row " + std::to_string(i) + " has columns " + str(std::vector<localIdx>(ci.begin() + (long)rp[i], ci.begin() + (long)rp[i + 1]));
    }
    // every entry is addressed exactly once
    std::vector<int> used(ci.size(), 0);
    auto at = [&](std::size_t row, std::size_t off, std::size_t col, const std::string& what) -> std::string
    {
        if (off >= rp[row + 1] - rp[row]) return what + ": offset " + std::to_string(off) + " is outside row " + std::to_string(row);
        auto p = rp[row] + off;
        if (ci[p] != col) return what + ": entry has column " + std::to_string(ci[p]) + " instead of " + std::to_string(col);
        if (used[p]++) return what + ": shares its entry with another coefficient";
        return "";
    };
    for (std::size_t f = 0; f < h.nInt; ++f)
    {
        auto o = (std::size_t)h.own[f], n = (std::size_t)h.nei[f];
        if (auto x = at(o, oo[f], n, "owner coefficient of face " + std::to_string(f)); !x.empty()) return x;
        if (auto x = at(n, no[f], o, "neighbour coefficient of face " + std::to_string(f)); !x.empty()) return x;
    }
    for (std::size_t i = 0; i < h.nCells; ++i)
        if (auto x = at(i, dg[i], i, "diagonal of cell " + std::to_string(i)); !x.empty()) return x;
    return "";
}
void expectRight(const fvcc::SparsityPattern& sp, const HMesh& h, const std::string& w)
{
    auto x = wrong(sp, h);
    if (!x.empty()) H::fail(w + ": " + x, __FILE__, __LINE__);
    H::count("rows compared", h.nCells);
    H::count("face coefficients addressed", 2 * h.nInt);
}
std::size_t widest(const HMesh& h)
{
    std::vector<std::size_t> d(h.nCells, 1);
    for (std::size_t f = 0; f < h.nInt; ++f)
    {
        d[(std::size_t)h.own[f]]++;
        d[(std::size_t)h.nei[f]]++;
    }
    std::size_t w = 0;
    for (auto x : d) w = std::max(w, x);
    return w;
}
// star: one cell connected to all others
HMesh star(Rng& r, std::size_t n)
{
    HMesh m;
    m.nCells = n;
    auto hub = (label)r.below(n);
    for (std::size_t i = 0; i < n; ++i)
    {
        m.V.push_back(1.0);
        m.C.push_back(rnd<Vector>(r));
        if ((label)i != hub)
        {
            m.own.push_back(std::min((label)i, hub));
            m.nei.push_back(std::max((label)i, hub));
        }
    }
    m.nInt = n - 1;
    for (std::size_t f = 0; f < m.nInt; ++f)
    {
        m.Sf.push_back(Vector(1, 0, 0));
        m.magSf.push_back(1);
        m.Cf.push_back(rnd<Vector>(r));
    }
    return m;
}
}
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    for (int k = 0; k < 4; ++k)
    {
        Executor e = anyExec(r);
        MeshOpt o;
        if (r.chance(0.1)) o.maxCells = 60;
        HMesh h = r.chance(0.04) ? star(r, 200 + r.below(56)) : sizedMesh(r, c.thorough, o);
        if (widest(h) > 255) continue;
        c.notes = "sparsity on " + exName(e) + ": " + describe(h);
        sigMesh(h);
        H::maxi("longest row", (double)widest(h));
        auto m = build(e, h), other = build(e, h);
        {
            fvcc::SparsityPattern sp(*m);
            H_CHECK(&sp.mesh() == m.get(), "mesh()");
            H_CHECK(sp.rowPtrs().exec() == e && sp.colIdxs().exec() == e && sp.ownerOffset().exec() == e && sp.neighbourOffset().exec() == e && sp.diagOffset().exec() == e, "executor of the pattern");
            expectRight(sp, h, "constructed pattern");
            sp.update();
            expectRight(sp, h, "updated pattern");
        }
        auto p = fvcc::SparsityPattern::readOrCreate(*m);
        expectRight(*p, h, "cached pattern");
        auto q = fvcc::SparsityPattern::readOrCreate(*other);
        H_CHECK(fvcc::SparsityPattern::readOrCreate(*m).get() == p.get(), "the pattern is created once per mesh");
        H_CHECK(q.get() != p.get() && &q->mesh() == other.get() && &p->mesh() == m.get(), "each mesh has its own pattern");
        expectRight(*q, h, "pattern of the second mesh");
        expectRight(*p, h, "cached pattern, later");
    }
#if !defined(NFM_THREADS) && !defined(NFM_MULTI)
    if (c.index % 50 == 0 && !trace) // (known finding, reported by M04)
    {
        HMesh h = star(r, 257 + r.below(100));
        c.notes = "sparsity of a star of " + std::to_string(h.nCells) + " cells";
        auto m = build(serial(), h);
        fvcc::SparsityPattern sp(*m);
        auto x = wrong(sp, h);
        if (!x.empty() && !H::knownFinding("KF-M04-wide"))
            H::fail(x, __FILE__, __LINE__);
    }
#endif
}
