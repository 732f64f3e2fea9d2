// M02: a mesh assembled from arbitrary data reports exactly those data, and every per-patch slice is exactly the
// patch's part of the list, on every executor; copies of the mesh own their data.
#include "fv.hpp"
using namespace FV;
FV_MAIN

namespace
{
template<typename T>
void list(const Field<T>& f, const std::vector<T>& want, const Executor& e, const std::string& w)
{
    expectEq(values(f), want, w);
    H_CHECK(f.exec() == e, w << " lives on " << exName(f.exec()));
}
template<typename V, typename T>
void slice(const V& v, const Field<T>& f, const std::vector<T>& want, std::size_t lo, std::size_t hi, const std::string& w)
{
    H_CHECK(v.size() == hi - lo, w << " has " << v.size() << " entries instead of " << hi - lo);
    if (hi > lo) H_CHECK(v.data() == f.data() + lo, w << " does not start at entry " << lo << " of the list");
    expectEq(raw(v.data(), v.size()), std::vector<T>(want.begin() + (long)lo, want.begin() + (long)hi), w);
    H::count("patch slices checked");
    H::count("empty patch slices", hi == lo);
}
void boundary(const BoundaryMesh& b, const HMesh& h, const Executor& e, const std::string& w)
{
    list(b.faceCells(), h.bCell, e, w + "faceCells");
    list(b.cf(), h.bCf, e, w + "cf");
    list(b.cn(), h.bCn, e, w + "cn");
    list(b.sf(), h.bSf, e, w + "sf");
    list(b.magSf(), h.bMagSf, e, w + "magSf");
    list(b.nf(), h.bNf, e, w + "nf");
    list(b.delta(), h.bDelta, e, w + "delta");
    list(b.weights(), h.bWeights, e, w + "weights");
    list(b.deltaCoeffs(), h.bDeltaCoeffs, e, w + "deltaCoeffs");
    H_CHECK(b.offset() == h.offset, w << "offset");
    std::vector<std::size_t> order(h.nPatch);
    for (std::size_t i = 0; i < h.nPatch; ++i) order[i] = i;
    H::ctx().rng.shuffle(order);
    for (auto p : order)
    {
        std::size_t lo = h.offset[p], hi = h.offset[p + 1];
        std::string q = "(" + std::to_string(p) + ")";
        auto i = (localIdx)p;
        slice(b.faceCells(i), b.faceCells(), h.bCell, lo, hi, w + "faceCells" + q);
        slice(b.cf(i), b.cf(), h.bCf, lo, hi, w + "cf" + q);
        slice(b.cn(i), b.cn(), h.bCn, lo, hi, w + "cn" + q);
        slice(b.sf(i), b.sf(), h.bSf, lo, hi, w + "sf" + q);
        slice(b.magSf(i), b.magSf(), h.bMagSf, lo, hi, w + "magSf" + q);
        slice(b.nf(i), b.nf(), h.bNf, lo, hi, w + "nf" + q);
        slice(b.delta(i), b.delta(), h.bDelta, lo, hi, w + "delta" + q);
        slice(b.weights(i), b.weights(), h.bWeights, lo, hi, w + "weights" + q);
        slice(b.deltaCoeffs(i), b.deltaCoeffs(), h.bDeltaCoeffs, lo, hi, w + "deltaCoeffs" + q);
    }
}
void meshData(const UnstructuredMesh& m, const HMesh& h, const Executor& e, const std::string& w)
{
    list(m.points(), h.points, e, w + "points");
    list(m.cellVolumes(), h.V, e, w + "cellVolumes");
    list(m.cellCentres(), h.C, e, w + "cellCentres");
    list(m.faceAreas(), h.Sf, e, w + "faceAreas");
    list(m.faceCentres(), h.Cf, e, w + "faceCentres");
    list(m.magFaceAreas(), h.magSf, e, w + "magFaceAreas");
    list(m.faceOwner(), h.own, e, w + "faceOwner");
    list(m.faceNeighbour(), h.nei, e, w + "faceNeighbour");
    H_CHECK(m.nCells() == h.nCells, w << "nCells " << m.nCells() << " instead of " << h.nCells);
    H_CHECK(m.nInternalFaces() == h.nInt, w << "nInternalFaces " << m.nInternalFaces() << " instead of " << h.nInt);
    H_CHECK(m.nBoundaryFaces() == h.nBnd, w << "nBoundaryFaces " << m.nBoundaryFaces() << " instead of " << h.nBnd);
    H_CHECK(m.nBoundaries() == h.nPatch, w << "nBoundaries " << m.nBoundaries() << " instead of " << h.nPatch);
    H_CHECK(m.nFaces() == h.nFaces(), w << "nFaces " << m.nFaces() << " instead of " << h.nFaces());
    H_CHECK(m.exec() == e, w << "exec");
    boundary(m.boundaryMesh(), h, e, w);
}
}
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    for (int k = 0; k < 3; ++k)
    {
        Executor e = anyExec(r);
        HMesh h = sizedMesh(r, c.thorough);
        // independent lists, so that an accessor that returns another list is seen
        h.bCf = rndVec<Vector>(r, h.nBnd);
        h.bCn = rndVec<Vector>(r, h.nBnd);
        h.bSf = rndVec<Vector>(r, h.nBnd);
        h.bNf = rndVec<Vector>(r, h.nBnd);
        h.bDelta = rndVec<Vector>(r, h.nBnd);
        h.bMagSf = rndVec<scalar>(r, h.nBnd);
        h.bWeights = rndVec<scalar>(r, h.nBnd);
        h.bDeltaCoeffs = rndVec<scalar>(r, h.nBnd);
        h.magSf = rndVec<scalar>(r, h.nFaces());
        std::string w = "mesh on " + exName(e) + ": ";
        c.notes = w + describe(h);
        sigMesh(h);
        auto m = build(e, h);
        meshData(*m, h, e, w);
        BoundaryMesh b = boundaryOf(e, h);
        boundary(b, h, e, "boundary mesh on " + exName(e) + ": ");
        // a copy keeps the data after the original is gone
        BoundaryMesh copy(m->boundaryMesh());
        m.reset();
        boundary(copy, h, e, "copied boundary mesh on " + exName(e) + ": ");
    }
}
