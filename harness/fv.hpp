// Random meshes with arbitrary connectivity, reference geometry, boundary conditions.
#pragma once
#include "nfk.hpp"

#include "NeoFOAM/fields/boundaryFields.hpp"
#include "NeoFOAM/fields/domainField.hpp"
#include "NeoFOAM/mesh/unstructured/boundaryMesh.hpp"
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"

namespace FV
{
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;

// ----------------------------------------------------------------------------- meshes
struct HMesh
{
    std::size_t nCells = 0, nInt = 0, nBnd = 0, nPatch = 0;
    std::vector<Vector> points;
    std::vector<scalar> V;
    std::vector<Vector> C;
    std::vector<Vector> Sf, Cf; // all faces
    std::vector<scalar> magSf;
    std::vector<label> own, nei; // own: all faces, nei: internal faces
    std::vector<localIdx> offset {0};
    std::vector<label> bCell;
    std::vector<Vector> bCf, bCn, bSf, bNf, bDelta;
    std::vector<scalar> bMagSf, bWeights, bDeltaCoeffs;
    std::size_t nFaces() const { return nInt + nBnd; }
    std::size_t patchOf(std::size_t b) const
    {
        for (std::size_t p = 0; p < nPatch; ++p)
            if (b >= offset[p] && b < offset[p + 1]) return p;
        return nPatch;
    }
};

// area vector with an exactly representable magnitude
inline Vector niceArea(Rng& r, double& m)
{
    static const int t[6][4] = {{1, 0, 0, 1}, {3, 4, 0, 5}, {2, 3, 6, 7}, {1, 2, 2, 3}, {0, 0, 2, 2}, {4, 4, 7, 9}};
    auto* q = t[r.below(6)];
    std::vector<int> p {q[0], q[1], q[2]};
    r.shuffle(p);
    double s = r.pick({0.25, 0.5, 1.0, 2.0});
    for (auto& x : p)
        if (r.chance(0.5)) x = -x;
    m = q[3] * s;
    return Vector(p[0] * s, p[1] * s, p[2] * s);
}

inline void finishBoundary(HMesh& m)
{
    m.bCf.clear();
    for (std::size_t b = 0; b < m.nBnd; ++b)
    {
        std::size_t f = m.nInt + b;
        auto c = (std::size_t)m.bCell[b];
        Vector d = m.Cf[f] - m.C[c];
        m.bCf.push_back(m.Cf[f]);
        m.bCn.push_back(m.C[c]);
        m.bSf.push_back(m.Sf[f]);
        m.bMagSf.push_back(m.magSf[f]);
        m.bNf.push_back((1.0 / m.magSf[f]) * m.Sf[f]);
        m.bDelta.push_back(d);
        m.bWeights.push_back(1.0);
        // normal distance, as the geometry scheme computes it
        scalar ortho = (1.0 / m.magSf[f]) * (m.Sf[f] & d);
        scalar len = magOf(d);
        m.bDeltaCoeffs.push_back(1.0 / std::max(ortho, 0.05 * len));
    }
}
inline void randomPatches(Rng& r, HMesh& m, std::size_t most = 5)
{
    m.nPatch = r.below(m.nBnd ? most : 3);
    if (m.nBnd && m.nPatch == 0) m.nPatch = 1;
    std::vector<std::size_t> cut;
    for (std::size_t i = 1; i < m.nPatch; ++i) cut.push_back(r.below(m.nBnd + 1));
    std::sort(cut.begin(), cut.end());
    m.offset.assign(1, 0);
    for (auto c : cut) m.offset.push_back((localIdx)c);
    if (m.nPatch) m.offset.push_back((localIdx)m.nBnd);
}

struct MeshOpt
{
    std::size_t maxCells = 10;
    double flipOwner = 0.15;  // owner > neighbour
    bool internal = true;     // may have internal faces
    bool needPatch = false;
    std::size_t maxDegree = 0; // 0: unlimited
    bool large = false;        // hundreds of cells, dozens of patches
};

// arbitrary connectivity and geometry (not a geometric mesh: every entry is independent)
inline HMesh randomMesh(Rng& r, MeshOpt o = {})
{
    HMesh m;
    m.nCells = (o.large ? 200 : 1) + r.below(o.maxCells);
    for (std::size_t i = 0; i < m.nCells; ++i)
    {
        m.V.push_back(r.pick({0.25, 0.5, 1.0, 2.0, 4.0}));
        m.C.push_back(Vector(r.dyadic(), r.dyadic(), r.dyadic()));
    }
    std::size_t nf = m.nCells > 1 ? r.below(m.nCells * 3) : 0;
    if (r.chance(0.08)) nf = 0;
    bool hub = r.chance(0.25); // one cell with very many faces
    std::vector<std::pair<label, label>> faces;
    std::vector<std::size_t> deg(m.nCells, 0);
    for (std::size_t f = 0; f < nf; ++f)
    {
        std::size_t a = hub && r.chance(0.7) ? 0 : r.below(m.nCells), b = r.below(m.nCells);
        if (a == b) continue;
        if (o.maxDegree && (deg[a] >= o.maxDegree || deg[b] >= o.maxDegree)) continue;
        deg[a]++;
        deg[b]++;
        if (a > b) std::swap(a, b);
        if (r.chance(o.flipOwner)) std::swap(a, b);
        faces.emplace_back((label)a, (label)b);
    }
    if (r.chance(0.5)) std::sort(faces.begin(), faces.end());
    m.nInt = faces.size();
    for (auto& [a, b] : faces)
    {
        m.own.push_back(a);
        m.nei.push_back(b);
    }
    m.nBnd = r.chance(0.1) ? 0 : r.below(2 * m.nCells + 4);
    if (o.needPatch && m.nBnd == 0) m.nBnd = 1;
    for (std::size_t b = 0; b < m.nBnd; ++b)
    {
        label c = (label)(hub && r.chance(0.5) ? 0 : r.below(m.nCells));
        m.bCell.push_back(c);
        m.own.push_back(c);
    }
    for (std::size_t f = 0; f < m.nFaces(); ++f)
    {
        double mag;
        m.Sf.push_back(niceArea(r, mag));
        m.magSf.push_back(mag);
        Vector cf(r.dyadic(), r.dyadic(), r.dyadic());
        // no face centre in the centre of its cell
        cf[0] += 0.015625;
        m.Cf.push_back(cf);
    }
    // distinct centres for connected cells
    for (std::size_t i = 0; i < m.nCells; ++i) m.C[i][1] += 0.03125 * (double)i / 64;
    randomPatches(r, m, o.large ? 60 : 5);
    finishBoundary(m);
    for (std::size_t i = 0; i < r.below(5); ++i) m.points.push_back(rnd<Vector>(r));
    return m;
}

// real geometry: a box of nx*ny*nz hexahedra with dyadic, non-uniform spacings; cells and faces randomly
// numbered, boundary faces randomly distributed over patches
inline HMesh boxMesh(Rng& r, std::size_t maxPerDir = 3, bool uniform = false, int dims = 0)
{
    HMesh m;
    std::size_t n[3];
    for (auto& x : n) x = 1 + r.below(maxPerDir);
    if (dims == 1) n[1] = n[2] = 1;
    std::vector<double> x[3];
    for (int d = 0; d < 3; ++d)
    {
        double p = r.dyadic(), h = r.pick({0.25, 0.5, 1.0, 2.0});
        x[d].push_back(p);
        for (std::size_t i = 0; i < n[d]; ++i)
        {
            p += uniform ? h : r.pick({0.25, 0.5, 1.0, 2.0});
            x[d].push_back(p);
        }
    }
    m.nCells = n[0] * n[1] * n[2];
    std::vector<std::size_t> perm(m.nCells);
    for (std::size_t i = 0; i < m.nCells; ++i) perm[i] = i;
    r.shuffle(perm);
    auto id = [&](std::size_t i, std::size_t j, std::size_t k) { return perm[(k * n[1] + j) * n[0] + i]; };
    m.V.resize(m.nCells);
    m.C.resize(m.nCells);
    auto mid = [&](int d, std::size_t i) { return 0.5 * (x[d][i] + x[d][i + 1]); };
    auto len = [&](int d, std::size_t i) { return x[d][i + 1] - x[d][i]; };
    struct F
    {
        label a, b;
        Vector s, c;
        double mag;
    };
    std::vector<F> in, bn;
    for (std::size_t k = 0; k < n[2]; ++k)
        for (std::size_t j = 0; j < n[1]; ++j)
            for (std::size_t i = 0; i < n[0]; ++i)
            {
                std::size_t q[3] = {i, j, k};
                auto c = id(i, j, k);
                m.V[c] = len(0, i) * len(1, j) * len(2, k);
                m.C[c] = Vector(mid(0, i), mid(1, j), mid(2, k));
                for (int d = 0; d < 3; ++d)
                {
                    int e = (d + 1) % 3, g = (d + 2) % 3;
                    double area = len(e, q[e]) * len(g, q[g]);
                    for (int side = 0; side < 2; ++side)
                    {
                        Vector cf = m.C[c], s(0, 0, 0);
                        cf[(std::size_t)d] = x[d][q[d] + (std::size_t)side];
                        s[(std::size_t)d] = side ? area : -area;
                        bool bnd = side ? q[d] + 1 == n[d] : q[d] == 0;
                        if (bnd) bn.push_back({(label)c, -1, s, cf, area});
                        else if (side)
                        {
                            std::size_t z[3] = {i, j, k};
                            z[d]++;
                            auto c2 = id(z[0], z[1], z[2]);
                            if (c < c2) in.push_back({(label)c, (label)c2, s, cf, area});
                            else in.push_back({(label)c2, (label)c, -1.0 * s, cf, area});
                        }
                    }
                }
            }
    r.shuffle(in);
    r.shuffle(bn);
    m.nInt = in.size();
    m.nBnd = bn.size();
    for (auto& f : in)
    {
        m.own.push_back(f.a);
        m.nei.push_back(f.b);
        m.Sf.push_back(f.s);
        m.Cf.push_back(f.c);
        m.magSf.push_back(f.mag);
    }
    for (auto& f : bn)
    {
        m.own.push_back(f.a);
        m.bCell.push_back(f.a);
        m.Sf.push_back(f.s);
        m.Cf.push_back(f.c);
        m.magSf.push_back(f.mag);
    }
    randomPatches(r, m);
    finishBoundary(m);
    for (std::size_t i = 0; i < 3; ++i) m.points.push_back(rnd<Vector>(r));
    return m;
}

inline BoundaryMesh boundaryOf(const Executor& e, const HMesh& m)
{
    return BoundaryMesh(
        e, field(e, m.bCell), field(e, m.bCf), field(e, m.bCn), field(e, m.bSf), field(e, m.bMagSf),
        field(e, m.bNf), field(e, m.bDelta), field(e, m.bWeights), field(e, m.bDeltaCoeffs), m.offset
    );
}
inline std::unique_ptr<UnstructuredMesh> build(const Executor& e, const HMesh& m)
{
    return std::make_unique<UnstructuredMesh>(
        field(e, m.points), field(e, m.V), field(e, m.C), field(e, m.Sf), field(e, m.Cf), field(e, m.magSf),
        field(e, m.own), field(e, m.nei), m.nCells, m.nInt, m.nBnd, m.nPatch, m.nFaces(), boundaryOf(e, m)
    );
}
inline std::string describe(const HMesh& m)
{
    std::string s = "cells " + std::to_string(m.nCells) + ", faces ";
    for (std::size_t f = 0; f < m.nInt && f < 40; ++f) s += std::to_string(m.own[f]) + "-" + std::to_string(m.nei[f]) + " ";
    s += "| boundary ";
    for (std::size_t b = 0; b < m.nBnd && b < 40; ++b) s += std::to_string(m.bCell[b]) + " ";
    s += "| patches ";
    for (auto o : m.offset) s += std::to_string(o) + " ";
    return s;
}
inline void sigMesh(const HMesh& m)
{
    H::sig(m.nCells);
    for (std::size_t f = 0; f < m.nInt; ++f) H::sig((uint64_t)m.own[f] * 64 + (uint64_t)m.nei[f]);
    for (auto b : m.bCell) H::sig((uint64_t)b + 1000);
    for (auto o : m.offset) H::sig((uint64_t)o + 5000);
    H::seen("distinct mesh shapes", H::ctx().sig);
    H::maxi("largest number of cells", (double)m.nCells);
    std::vector<std::size_t> d(m.nCells, 0), bd(m.nCells, 0);
    for (std::size_t f = 0; f < m.nInt; ++f)
    {
        d[(std::size_t)m.own[f]]++;
        d[(std::size_t)m.nei[f]]++;
    }
    for (auto b : m.bCell) bd[(std::size_t)b]++;
    for (std::size_t i = 0; i < m.nCells; ++i)
    {
        H::maxi("most internal faces of a cell", (double)d[i]);
        H::maxi("most boundary faces of a cell", (double)bd[i]);
    }
    bool emptyPatch = false;
    for (std::size_t p = 0; p < m.nPatch; ++p) emptyPatch |= m.offset[p] == m.offset[p + 1];
    H::count("meshes with an empty patch", emptyPatch);
    H::count("meshes without internal faces", m.nInt == 0);
    H::count("meshes without boundary faces", m.nBnd == 0);
    H::count("meshes with a cell with several boundary faces", [&] { for (auto x : bd) if (x > 1) return 1; return 0; }());
}
// the same mesh in other units of length (a power of two)
inline void rescale(HMesh& m, double s)
{
    for (auto* v : {&m.points, &m.C, &m.Cf, &m.bCf, &m.bCn, &m.bDelta})
        for (auto& x : *v) x = s * x;
    for (auto* v : {&m.Sf, &m.bSf})
        for (auto& x : *v) x = s * s * x;
    for (auto* v : {&m.magSf, &m.bMagSf})
        for (auto& x : *v) x *= s * s;
    for (auto& x : m.V) x *= s * s * s;
    for (auto& x : m.bDeltaCoeffs) x /= s;
}
inline HMesh inUnits(Rng& r, HMesh m)
{
    if (r.chance(0.12))
    {
        rescale(m, r.pick({0x1p-12, 0x1p-8, 0x1p-4, 0x1p4, 0x1p10}));
        H::count("meshes in other units of length");
    }
    return m;
}
inline HMesh anyMesh(Rng& r, bool thorough, MeshOpt o = {})
{
    if (thorough && r.chance(0.2)) o.maxCells = 40;
    if (r.chance(0.35)) return inUnits(r, boxMesh(r, thorough ? 4 : 3));
    return inUnits(r, randomMesh(r, o));
}

// now and then one with hundreds or thousands of cells (not where values are compared across runs)
inline HMesh sizedMesh(Rng& r, bool thorough, MeshOpt o = {}, std::size_t largest = 1500)
{
    if (trace || !r.chance(0.02)) return anyMesh(r, thorough, o);
    o.large = true;
    o.maxCells = thorough && largest > 1000 ? 4 * largest : largest;
    if (!o.maxDegree) o.maxDegree = 200;
    H::count("large meshes");
    return inUnits(r, randomMesh(r, o));
}

// reference of the geometry scheme
inline scalar refWeight(const HMesh& m, std::size_t f)
{
    if (f >= m.nInt) return 1.0;
    scalar a = std::fabs(m.Sf[f] & (m.Cf[f] - m.C[(std::size_t)m.own[f]]));
    scalar b = std::fabs(m.Sf[f] & (m.C[(std::size_t)m.nei[f]] - m.Cf[f]));
    return a + b > 1e-18 ? b / (a + b) : 0.5;
}
inline scalar refNonOrth(const HMesh& m, std::size_t f)
{
    Vector d = f < m.nInt ? m.C[(std::size_t)m.nei[f]] - m.C[(std::size_t)m.own[f]]
                          : m.Cf[f] - m.C[(std::size_t)m.bCell[f - m.nInt]];
    scalar ortho = (m.Sf[f] & d) / m.magSf[f];
    return 1.0 / std::max(ortho, 0.05 * magOf(d));
}

// ------------------------------------------------------------------------------ boundary conditions
template<typename T>
struct BC
{
    int kind = 0; // 0 calculated 1 empty 2 extrapolated 3 fixedValue 4 fixedGradient
    T v {};
};
template<typename T>
Dictionary bcDict(const BC<T>& b)
{
    Dictionary d;
    static const char* n[] = {"calculated", "empty", "extrapolated", "fixedValue", "fixedGradient"};
    d.insert("type", std::string(n[b.kind]));
    if (b.kind == 3) d.insert("fixedValue", b.v);
    if (b.kind == 4) d.insert("fixedGradient", b.v);
    return d;
}
template<typename T>
std::vector<BC<T>> rndBCs(Rng& r, const HMesh& m, std::initializer_list<int> kinds)
{
    std::vector<BC<T>> v;
    for (std::size_t p = 0; p < m.nPatch; ++p) v.push_back({r.pick(kinds), rnd<T>(r)});
    return v;
}
template<typename T>
std::vector<fvcc::VolumeBoundary<T>> volBCs(const UnstructuredMesh& mesh, const std::vector<BC<T>>& b)
{
    std::vector<fvcc::VolumeBoundary<T>> v;
    for (std::size_t p = 0; p < b.size(); ++p) v.emplace_back(mesh, bcDict(b[p]), p);
    return v;
}
template<typename T>
std::vector<fvcc::SurfaceBoundary<T>> surfBCs(const UnstructuredMesh& mesh, const std::vector<BC<T>>& b)
{
    std::vector<fvcc::SurfaceBoundary<T>> v;
    for (std::size_t p = 0; p < b.size(); ++p) v.emplace_back(mesh, bcDict(b[p]), p);
    return v;
}
// boundary value the conditions prescribe for face b (NaN-free only for kinds 2..4)
template<typename T>
T bcValue(const HMesh& m, const std::vector<BC<T>>& bc, const std::vector<T>& x, const std::vector<T>& current, std::size_t b)
{
    auto& c = bc[m.patchOf(b)];
    T cell = x[(std::size_t)m.bCell[b]];
    if (c.kind == 2) return cell;
    if (c.kind == 3) return c.v;
    if (c.kind == 4) return cell + c.v * (1.0 / m.bDeltaCoeffs[b]);
    return current[b];
}
// every boundary entry gets a value, so that nothing a condition leaves alone is indeterminate
template<typename T>
void initBoundary(Rng& r, DomainField<T>& d)
{
    auto& b = d.boundaryField();
    poke(b.value(), rndVec<T>(r, b.value().size()));
    poke(b.refValue(), rndVec<T>(r, b.refValue().size()));
    poke(b.refGrad(), rndVec<T>(r, b.refGrad().size()));
    std::vector<scalar> f(b.valueFraction().size());
    for (auto& x : f) x = r.pick({0.0, 0.25, 1.0});
    poke(b.valueFraction(), f);
}
template<typename T, typename F>
void initBoundaryOf(Rng& r, F& f)
{
    auto& b = f.boundaryField();
    poke(b.value(), rndVec<T>(r, b.value().size()));
    poke(b.refValue(), rndVec<T>(r, b.refValue().size()));
    poke(b.refGrad(), rndVec<T>(r, b.refGrad().size()));
    poke(b.valueFraction(), std::vector<scalar>(b.valueFraction().size(), 1.0));
}
} // namespace FV
