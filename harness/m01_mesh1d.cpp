// M01: the generated meshes, checked for geometric and topological consistency for every size, on every executor.
#include "fv.hpp"
using namespace FV;
FV_MAIN

namespace
{
void sameVec(const Vector& a, const Vector& b, const std::string& w)
{
    H_CHECK(near(a, b, 1.0, 1e-12), w << " is " << str(a) << " instead of " << str(b));
}

// checks that hold for every mesh the library hands out
void consistency(const UnstructuredMesh& m, const Executor& e, const std::string& w)
{
    auto V = values(m.cellVolumes());
    auto C = values(m.cellCentres());
    auto Sf = values(m.faceAreas());
    auto Cf = values(m.faceCentres());
    auto magSf = values(m.magFaceAreas());
    auto own = values(m.faceOwner());
    auto nei = values(m.faceNeighbour());
    auto& b = m.boundaryMesh();
    std::size_t nc = m.nCells(), ni = m.nInternalFaces(), nb = m.nBoundaryFaces(), nf = m.nFaces();
    H_CHECK(m.exec() == e, w << "executor");
    for (const Executor* x : {&m.points().exec(), &m.cellVolumes().exec(), &m.cellCentres().exec(), &m.faceAreas().exec(), &m.faceCentres().exec(), &m.magFaceAreas().exec(), &m.faceOwner().exec(), &m.faceNeighbour().exec(),
                             &b.faceCells().exec(), &b.cf().exec(), &b.cn().exec(), &b.sf().exec(), &b.magSf().exec(), &b.nf().exec(), &b.delta().exec(), &b.weights().exec(), &b.deltaCoeffs().exec()})
        H_CHECK(*x == e, w << "mesh data on executor " << exName(*x) << " instead of " << exName(e));
    H_CHECK(nf == ni + nb, w << nf << " faces, " << ni << " internal, " << nb << " boundary");
    H_CHECK(V.size() == nc && C.size() == nc, w << "cell data sizes");
    H_CHECK(Sf.size() == nf && Cf.size() == nf && magSf.size() == nf && own.size() == nf, w << "face data sizes");
    H_CHECK(nei.size() == ni, w << nei.size() << " neighbours for " << ni << " internal faces");
    auto off = b.offset();
    H_CHECK(off.size() == m.nBoundaries() + 1 && off.front() == 0 && off.back() == nb, w << "patch offsets");
    for (std::size_t p = 0; p + 1 < off.size(); ++p) H_CHECK(off[p] <= off[p + 1], w << "patch offsets decrease");
    auto fc = values(b.faceCells());
    auto bcf = values(b.cf()), bcn = values(b.cn()), bsf = values(b.sf()), bnf = values(b.nf()), bd = values(b.delta());
    auto bmag = values(b.magSf()), bw = values(b.weights()), bdc = values(b.deltaCoeffs());
    H_CHECK(fc.size() == nb && bcf.size() == nb && bcn.size() == nb && bsf.size() == nb && bnf.size() == nb && bd.size() == nb && bmag.size() == nb && bw.size() == nb && bdc.size() == nb, w << "boundary data sizes");
    std::vector<Vector> closed(nc, Vector(0, 0, 0));
    for (std::size_t f = 0; f < nf; ++f)
    {
        std::string wf = w + "face " + std::to_string(f);
        H_CHECK(near(magOf(Sf[f]), magSf[f], 1, 1e-12), wf << ": area magnitude " << magSf[f] << " of " << str(Sf[f]));
        H_CHECK(own[f] >= 0 && (std::size_t)own[f] < nc, wf << ": owner " << own[f]);
        auto o = (std::size_t)own[f];
        closed[o] += Sf[f];
        if (f < ni)
        {
            H_CHECK(nei[f] >= 0 && (std::size_t)nei[f] < nc && nei[f] != own[f], wf << ": neighbour " << nei[f]);
            auto n = (std::size_t)nei[f];
            closed[n] -= Sf[f];
            // from owner to neighbour, face in between
            H_CHECK((Sf[f] & (C[n] - C[o])) > 0, wf << ": area vector does not point from owner to neighbour");
            H_CHECK((Sf[f] & (Cf[f] - C[o])) > 0 && (Sf[f] & (C[n] - Cf[f])) > 0, wf << ": does not lie between its cells");
        }
        else
        {
            auto k = f - ni;
            H_CHECK(fc[k] == own[f], wf << ": boundary face cell " << fc[k] << ", owner " << own[f]);
            H_CHECK((Sf[f] & (Cf[f] - C[o])) > 0, wf << ": boundary area vector does not point outwards");
            sameVec(bcf[k], Cf[f], wf + ": boundary face centre");
            sameVec(bsf[k], Sf[f], wf + ": boundary face area");
            H_CHECK(near(bmag[k], magSf[f], 1, 1e-12), wf << ": boundary area magnitude " << bmag[k]);
            sameVec(bnf[k], (1.0 / magSf[f]) * Sf[f], wf + ": boundary normal");
            sameVec(bd[k], Cf[f] - C[o], wf + ": boundary delta");
            H_CHECK(near(bdc[k] * magOf(Cf[f] - C[o]), 1.0, 1, 1e-11), wf << ": boundary distance coefficient " << bdc[k]);
            H_CHECK(bw[k] == 1.0, wf << ": boundary weight " << bw[k]);
        }
    }
    for (std::size_t c = 0; c < nc; ++c)
    {
        sameVec(closed[c], Vector(0, 0, 0), w + "sum of the outward areas of cell " + std::to_string(c));
        H_CHECK(V[c] > 0, w << "volume of cell " << c << " is " << V[c]);
    }
    H::count("faces checked", nf);
}
}
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    // sizes are covered systematically: one size per case, then random large ones
    std::size_t n = c.index < 150 ? 1 + c.index : (std::size_t)1 + r.below(c.thorough ? 5000 : 700);
    for (int ex = 0; ex < 3; ++ex)
    {
        Executor e = exByIndex(ex);
        std::string w = "1D mesh of " + std::to_string(n) + " cells on " + exName(e) + ": ";
        c.notes = w;
        H::sig(w);
        H::seen("mesh sizes", n);
        auto m = create1DUniformMesh(e, n);
        H_CHECK(m.nCells() == n && m.nInternalFaces() == n - 1 && m.nBoundaryFaces() == 2 && m.nBoundaries() == 2 && m.nFaces() == n + 1, w << "counts");
        consistency(m, e, w);
        auto V = values(m.cellVolumes());
        auto C = values(m.cellCentres());
        auto Cf = values(m.faceCentres());
        auto P = values(m.points());
        auto own = values(m.faceOwner()), nei = values(m.faceNeighbour());
        scalar h = 1.0 / (scalar)n, sum = 0;
        for (std::size_t i = 0; i < n; ++i)
        {
            sum += V[i];
            H_CHECK(near(V[i], h, 1, 1e-12), w << "volume of cell " << i << " is " << V[i]);
            sameVec(C[i], Vector(h * ((scalar)i + 0.5), 0, 0), w + "centre of cell " + std::to_string(i));
        }
        H_CHECK(near(sum, 1.0, 1, 1e-10), w << "volumes sum to " << sum);
        // each consecutive pair exactly once
        std::set<std::pair<label, label>> pairs;
        for (std::size_t f = 0; f + 1 < n; ++f)
        {
            auto p = std::minmax(own[f], nei[f]);
            H_CHECK(p.second == p.first + 1, w << "internal face " << f << " connects " << own[f] << " and " << nei[f]);
            H_CHECK(pairs.insert(p).second, w << "cells " << own[f] << " and " << nei[f] << " are connected twice");
            sameVec(Cf[f], 0.5 * (C[(std::size_t)own[f]] + C[(std::size_t)nei[f]]), w + "centre of face " + std::to_string(f));
        }
        // boundary faces: one at each end
        auto& b = m.boundaryMesh();
        auto off = b.offset();
        H_CHECK(off == (std::vector<localIdx> {0, 1, 2}), w << "patch offsets");
        auto fc = values(b.faceCells());
        auto cf = values(b.cf()), cn = values(b.cn()), nf = values(b.nf());
        H_CHECK(fc[0] == 0 && (std::size_t)fc[1] == n - 1, w << "boundary face cells " << fc[0] << "," << fc[1]);
        sameVec(cf[0], Vector(0, 0, 0), w + "left boundary face");
        sameVec(cf[1], Vector(1, 0, 0), w + "right boundary face");
        sameVec(nf[0], Vector(-1, 0, 0), w + "left normal");
        sameVec(nf[1], Vector(1, 0, 0), w + "right normal");
        sameVec(cn[0], C[0], w + "centre of the left boundary cell");
        sameVec(cn[1], C[n - 1], w + "centre of the right boundary cell");
        // the points are the n+1 face positions
        H_CHECK(P.size() == n + 1, w << P.size() << " points");
        std::vector<scalar> xs;
        for (auto& p : P) xs.push_back(p[0]);
        std::sort(xs.begin(), xs.end());
        for (std::size_t i = 0; i <= n; ++i) H_CHECK(near(xs[i], h * (scalar)i, 1, 1e-12), w << "point positions");
        if (c.index % 10 == 0)
        {
            auto q = createSingleCellMesh(e);
            std::string w2 = "single cell mesh on " + exName(e) + ": ";
            H_CHECK(q.nCells() == 1 && q.nInternalFaces() == 0 && q.nBoundaryFaces() == 4 && q.nBoundaries() == 4 && q.nFaces() == 4, w2 << "counts");
            consistency(q, e, w2);
            H_CHECK(values(q.cellVolumes())[0] == 1.0, w2 << "volume");
            H_CHECK(q.boundaryMesh().offset() == (std::vector<localIdx> {0, 1, 2, 3, 4}), w2 << "offsets");
        }
    }
}
