// M05: weights and difference coefficients of the geometry scheme against the mesh geometry; one scheme per mesh.
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/basicGeometryScheme.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
using namespace FV;
FV_MAIN

namespace
{
void geometry(const fvcc::GeometryScheme& g, const HMesh& h, const Executor& e, bool box, const std::string& w)
{
    auto wt = values(g.weights().internalField());
    auto dc = values(g.deltaCoeffs().internalField());
    auto nd = values(g.nonOrthDeltaCoeffs().internalField());
    H_CHECK(wt.size() == h.nFaces() && dc.size() == h.nFaces() && nd.size() == h.nFaces(), w << ": one value per face");
    H_CHECK(g.weights().internalField().exec() == e && g.deltaCoeffs().internalField().exec() == e, w << ": executor");
    for (std::size_t f = 0; f < h.nFaces(); ++f)
    {
        bool in = f < h.nInt;
        std::string fn = w + ": face " + std::to_string(f) + (in ? "" : " (boundary)");
        double rw = refWeight(h, f);
        H_CHECK(near(wt[f], rw, 1), fn << " weight " << wt[f] << " instead of " << rw);
        H_CHECK(wt[f] >= 0 && wt[f] <= 1, fn << " weight outside [0,1]: " << wt[f]);
        Vector d = in ? h.C[(std::size_t)h.nei[f]] - h.C[(std::size_t)h.own[f]] : h.Cf[f] - h.C[(std::size_t)h.bCell[f - h.nInt]];
        double rd = 1.0 / magOf(d), rn = refNonOrth(h, f);
        H_CHECK(near(dc[f], rd, rd), fn << " deltaCoeff " << dc[f] << " instead of " << rd);
        H_CHECK(near(nd[f], rn, rn), fn << " nonOrthDeltaCoeff " << nd[f] << " instead of " << rn);
        H::count(in ? "internal faces compared" : "boundary faces compared");
        if (box && in)
        {
            // linear profile through the face centre (centres of a box mesh are aligned)
            Vector a(1.5, -0.25, 2.0);
            double o = a & h.C[(std::size_t)h.own[f]], n = a & h.C[(std::size_t)h.nei[f]], x = 0;
            Vector n3 = (1.0 / h.magSf[f]) * h.Sf[f];
            // value at the point where the connecting line meets the face
            Vector p = h.C[(std::size_t)h.own[f]];
            double t = (n3 & (h.Cf[f] - p)) / (n3 & d);
            x = a & (p + t * d);
            H_CHECK(near(wt[f] * o + (1 - wt[f]) * n, x, std::fabs(x) + 10), fn << " does not interpolate a linear profile");
            H_CHECK(near(nd[f], dc[f], dc[f]), fn << " orthogonal face: both difference coefficients agree");
            H::count("linear profiles interpolated");
        }
    }
}
struct Spy : fvcc::GeometrySchemeFactory
{
    int* n;
    Spy(const UnstructuredMesh& m, int* n) : GeometrySchemeFactory(m), n(n) {}
    void updateWeights(const Executor&, fvcc::SurfaceField<scalar>& f) override { ++n[0]; NeoFOAM::fill(f.internalField(), 11.0); }
    void updateDeltaCoeffs(const Executor&, fvcc::SurfaceField<scalar>& f) override { ++n[1]; NeoFOAM::fill(f.internalField(), 12.0); }
    void updateNonOrthDeltaCoeffs(const Executor&, fvcc::SurfaceField<scalar>& f) override { ++n[2]; NeoFOAM::fill(f.internalField(), 13.0); }
    void updateNonOrthDeltaCoeffs(const Executor&, fvcc::SurfaceField<Vector>&) override { ++n[3]; }
};
}
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    for (int k = 0; k < 3; ++k)
    {
        Executor e = anyExec(r), e2 = anyExec(r);
        bool box = r.chance(0.4);
        HMesh h = inUnits(r, box ? boxMesh(r, c.thorough ? 4 : 3) : r.chance(0.02) ? randomMesh(r, MeshOpt {.maxCells = 1500, .large = true}) : randomMesh(r));
        HMesh h2 = inUnits(r, randomMesh(r));
        c.notes = "geometry on " + exName(e) + ": " + describe(h);
        sigMesh(h);
        auto m = build(e, h), other = build(e2, h2);
        {
            fvcc::GeometryScheme g(*m);
            geometry(g, h, e, box, "scheme of the mesh");
            fvcc::GeometryScheme g2(e, *m, std::make_unique<fvcc::BasicGeometryScheme>(*m));
            geometry(g2, h, e, box, "scheme with a given kernel");
            poke(const_cast<Field<scalar>&>(g2.weights().internalField()), std::vector<scalar>(h.nFaces(), -3.0));
            poke(const_cast<Field<scalar>&>(g2.nonOrthDeltaCoeffs().internalField()), std::vector<scalar>(h.nFaces(), -3.0));
            poke(const_cast<Field<scalar>&>(g2.deltaCoeffs().internalField()), std::vector<scalar>(h.nFaces(), -3.0));
            g2.update();
            geometry(g2, h, e, box, "scheme after update()");
            geometry(g, h, e, box, "first scheme, later");
        }
        auto s1 = fvcc::GeometryScheme::readOrCreate(*m);
        auto s2 = fvcc::GeometryScheme::readOrCreate(*other);
        H_CHECK(s1.get() != s2.get(), "each mesh has its own scheme");
        auto data = s1->weights().internalField().data();
        for (int i = 0; i < 3; ++i)
            H_CHECK(fvcc::GeometryScheme::readOrCreate(*m).get() == s1.get() && s1->weights().internalField().data() == data, "the scheme is computed once per mesh");
        geometry(*s1, h, e, box, "shared scheme");
        geometry(*s2, h2, e2, false, "scheme of another mesh");
        // the scheme computes every quantity with its kernel, once
        int n[4] = {0, 0, 0, 0};
        {
            fvcc::GeometryScheme g(e, *m, std::make_unique<Spy>(*m, n));
            H_CHECK(n[0] == 1 && n[1] == 1 && n[2] == 1, "construction computes each quantity once, not " << n[0] << " " << n[1] << " " << n[2] << " times");
            expectEq(values(g.weights().internalField()), std::vector<scalar>(h.nFaces(), 11.0), "weights of the given kernel");
            expectEq(values(g.deltaCoeffs().internalField()), std::vector<scalar>(h.nFaces(), 12.0), "deltaCoeffs of the given kernel");
            expectEq(values(g.nonOrthDeltaCoeffs().internalField()), std::vector<scalar>(h.nFaces(), 13.0), "nonOrthDeltaCoeffs of the given kernel");
            g.update();
            H_CHECK(n[0] == 2 && n[1] == 2 && n[2] == 2, "update() computes each quantity once");
        }
    }
}
