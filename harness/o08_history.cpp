// O08: operators, schemes and equations that live through changes of their data and of the mesh.
#include "terms.hpp"
#include "NeoFOAM/dsl/expression.hpp"
using namespace FV;
FV_MAIN

namespace
{
// another mesh with as many cells, faces and patches
HMesh sameSize(Rng& r, const HMesh& a)
{
    HMesh m = a;
    for (std::size_t i = 0; i < m.nCells; ++i)
    {
        m.V[i] = r.pick({0.25, 0.5, 1.0, 2.0, 4.0});
        m.C[i] = Vector(r.dyadic(), r.dyadic() + 0.03125 * (double)i / 64, r.dyadic());
    }
    for (std::size_t f = 0; f < m.nInt; ++f)
    {
        auto o = r.below(m.nCells), n = r.below(m.nCells - 1);
        if (n >= o) ++n;
        m.own[f] = (label)o;
        m.nei[f] = (label)n;
    }
    for (std::size_t b = 0; b < m.nBnd; ++b) m.own[m.nInt + b] = m.bCell[b] = (label)r.below(m.nCells);
    for (std::size_t f = 0; f < m.nFaces(); ++f)
    {
        m.Sf[f] = niceArea(r, m.magSf[f]);
        m.Cf[f] = Vector(r.dyadic() + 0.015625, r.dyadic(), r.dyadic());
    }
    for (std::size_t p = 1; p < m.nPatch; ++p) m.offset[p] = (localIdx)r.below(m.nBnd + 1);
    if (m.nPatch) std::sort(m.offset.begin(), m.offset.end());
    for (auto& v : {&m.bCf, &m.bCn, &m.bSf, &m.bNf, &m.bDelta}) v->clear();
    for (auto& v : {&m.bMagSf, &m.bWeights, &m.bDeltaCoeffs}) v->clear();
    finishBoundary(m);
    return m;
}
// an object and the factor its results carry
template<typename O>
struct Live
{
    std::unique_ptr<O> o;
    double k = 1;
    void copy()
    {
        // (the original goes away)
        auto n = std::make_unique<O>(*o);
        o = std::move(n);
    }
    void scale(Rng& r)
    {
        double s = r.pick({-1.0, 2.0, 0.5});
        if (std::fabs(k * s) > 4 || std::fabs(k * s) < 0.25) s = -1.0;
        o->getCoefficient() *= s;
        k *= s;
    }
};
template<typename T>
struct World
{
    using Vol = fvcc::VolumeField<T>;
    using Div = fvcc::DivOperator<T>;
    using Lap = fvcc::LaplacianOperator<T>;
    using Src = fvcc::SourceTerm<T>;
    using Ddt = fvcc::DdtOperator<T>;
    using Kind = dsl::Operator::Type;
    Rng& r;
    Executor e;
    HMesh h;
    std::optional<UnstructuredMesh> mesh; // (always in the same place)
    struct All
    {
        Database db;
        std::vector<BC<T>> bcs;
        Vol* phi = nullptr;
        std::optional<fvcc::VolumeField<scalar>> coef, sphi;
        std::optional<fvcc::SurfaceField<scalar>> flux, gamma;
        std::optional<fvcc::SurfaceField<T>> dst, tflux;
        std::optional<Vol> vout;
        std::optional<fvcc::VolumeField<Vector>> gout;
        std::optional<Field<T>> out;
        std::optional<la::LinearSystem<T, localIdx>> ls;
        std::unique_ptr<fvcc::SurfaceInterpolation<T>> lin, up;
        std::unique_ptr<fvcc::FaceNormalGradient<T>> fng;
        std::unique_ptr<fvcc::GaussGreenGrad> grad;
        std::unique_ptr<fvcc::DivOperatorFactory<T>> divLin, divUp;
        std::unique_ptr<fvcc::LaplacianOperatorFactory<T>> lap;
        Live<Div> expDiv, impDiv;
        Live<Lap> expLap, impLap;
        Live<Src> src;
        Live<Ddt> ddt;
        Live<fvcc::SurfaceIntegrate<T>> sint;
        std::unique_ptr<dsl::Expression<T>> eqn;
        double kEq = 1;
    };
    std::unique_ptr<All> a;
    int queries = 0, changes = 0;
    World(Rng& rr, const HMesh& hm) : r(rr), e(anyExec(rr)), h(hm) { create(); }
    void create()
    {
        mesh.emplace(
            field(e, h.points), field(e, h.V), field(e, h.C), field(e, h.Sf), field(e, h.Cf), field(e, h.magSf),
            field(e, h.own), field(e, h.nei), h.nCells, h.nInt, h.nBnd, h.nPatch, h.nFaces(), boundaryOf(e, h)
        );
        auto& m = *mesh;
        a = std::make_unique<All>();
        a->bcs = rndBCs<T>(r, h, {2, 3, 4});
        a->phi = &registered<T>(r, a->db, e, m, "T", rndVec<T>(r, h.nCells), a->bcs);
        a->coef.emplace(volField<scalar>(r, e, m, rndVec<scalar>(r, h.nCells), rndBCs<scalar>(r, h, {0, 3}), "coef"));
        a->sphi.emplace(volField<scalar>(r, e, m, rndVec<scalar>(r, h.nCells), rndBCs<scalar>(r, h, {0, 2, 3, 4}), "p"));
        a->flux.emplace(surfField<scalar>(r, e, m, rndFluxes(r, h.nFaces()), rndBCs<scalar>(r, h, {0}), "phi"));
        a->gamma.emplace(surfField<scalar>(r, e, m, rndVec<scalar>(r, h.nFaces()), rndBCs<scalar>(r, h, {0}), "nu"));
        a->tflux.emplace(surfField<T>(r, e, m, rndVec<T>(r, h.nFaces()), rndBCs<T>(r, h, {0}), "tflux"));
        a->dst.emplace(surfField<T>(r, e, m, rndVec<T>(r, h.nFaces()), rndBCs<T>(r, h, {0, 3}), "dst"));
        a->vout.emplace(volField<T>(r, e, m, rndVec<T>(r, h.nCells), rndBCs<T>(r, h, {0, 3}), "vout"));
        a->gout.emplace(volField<Vector>(r, e, m, rndVec<Vector>(r, h.nCells), rndBCs<Vector>(r, h, {0, 3}), "gout"));
        a->out.emplace(field(e, rndVec<T>(r, h.nCells)));
        auto tl = [](std::initializer_list<std::string> s) { TokenList t; for (auto& x : s) t.insert(x); return Input(t); };
        using SI = fvcc::SurfaceInterpolation<T>;
        a->lin = std::make_unique<SI>(e, m, tl({"linear"}));
        a->up = std::make_unique<SI>(e, m, tl({"upwind"}));
        a->fng = std::make_unique<fvcc::FaceNormalGradient<T>>(e, m, tl({"uncorrected"}));
        a->grad = std::make_unique<fvcc::GaussGreenGrad>(e, m);
        a->divLin = fvcc::DivOperatorFactory<T>::create(e, m, tl({"Gauss", "linear"}));
        a->divUp = fvcc::DivOperatorFactory<T>::create(e, m, tl({"Gauss", "upwind"}));
        a->lap = fvcc::LaplacianOperatorFactory<T>::create(e, m, tl({"Gauss", "linear", "uncorrected"}));
        a->expDiv.o = std::make_unique<Div>(Kind::Explicit, *a->flux, *a->phi, tl({"Gauss", "linear"}));
        a->impDiv.o = std::make_unique<Div>(Kind::Implicit, *a->flux, *a->phi, tl({"Gauss", "upwind"}));
        a->expLap.o = std::make_unique<Lap>(Kind::Explicit, *a->gamma, *a->phi, tl({"Gauss", "linear", "uncorrected"}));
        a->impLap.o = std::make_unique<Lap>(Kind::Implicit, *a->gamma, *a->phi, tl({"Gauss", "linear", "uncorrected"}));
        a->src.o = std::make_unique<Src>(Kind::Implicit, *a->coef, *a->phi);
        a->ddt.o = std::make_unique<Ddt>(Kind::Implicit, *a->phi);
        a->sint.o = std::make_unique<fvcc::SurfaceIntegrate<T>>(*a->tflux);
        auto sp = fvcc::SparsityPattern::readOrCreate(m);
        a->ls.emplace(la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*sp));
        poke(a->ls->matrix().values(), rndVec<T>(r, a->ls->matrix().values().size()));
        poke(a->ls->rhs(), rndVec<T>(r, h.nCells));
        a->eqn = std::make_unique<dsl::Expression<T>>(e);
        a->eqn->addOperator(dsl::SpatialOperator<T>(Div(Kind::Explicit, *a->flux, *a->phi, tl({"Gauss", "upwind"}))));
        a->eqn->addOperator(dsl::SpatialOperator<T>(fvcc::SurfaceIntegrate<T>(*a->tflux)));
        a->eqn->addOperator(dsl::SpatialOperator<T>(Src(Kind::Explicit, *a->coef, *a->phi)));
        a->eqn->addOperator(dsl::SpatialOperator<T>(Lap(Kind::Implicit, *a->gamma, *a->phi, tl({"Gauss", "linear", "uncorrected"}))));
        a->eqn->addOperator(dsl::TemporalOperator<T>(Ddt(Kind::Implicit, *a->phi)));
    }
    // the mesh is replaced by another one in the same place
    void replace()
    {
        a.reset();
        mesh.reset();
        h = sameSize(r, h);
        create();
        H::count("meshes replaced by another one in the same place");
    }
    ~World()
    {
        a.reset();
        mesh.reset();
    }
    template<typename S>
    void write(Field<S>& f, const std::vector<S>& v)
    {
        if (r.chance(0.5)) poke(f, v);
        else f = field(e, v); // (new storage, for all a reader knows)
        ++changes;
    }
    void change()
    {
        auto& w = *a;
        int what = (int)r.below(12);
        switch (what)
        {
            case 0: write(w.phi->internalField(), rndVec<T>(r, h.nCells)); break;
            case 1: poke(w.phi->boundaryField().value(), rndVec<T>(r, h.nBnd)); ++changes; break;
            case 2:
            {
                auto before = values(w.phi->boundaryField().value());
                auto x = values(w.phi->internalField());
                w.phi->correctBoundaryConditions();
                auto got = values(w.phi->boundaryField().value());
                for (std::size_t b = 0; b < h.nBnd; ++b)
                {
                    T want = bcValue<T>(h, w.bcs, x, before, b);
                    H_CHECK(near(got[b], want, magOf(want)), "corrected boundary value of face " << b << " is " << str(got[b]) << " instead of " << str(want) << " after " << changes << " changes");
                }
                ++changes;
                break;
            }
            case 3: write(w.flux->internalField(), rndFluxes(r, h.nFaces())); break;
            case 4: write(w.gamma->internalField(), rndVec<scalar>(r, h.nFaces())); break;
            case 5: write(w.coef->internalField(), rndVec<scalar>(r, h.nCells)); break;
            case 6: write(fvcc::oldTime(*w.phi).internalField(), rndVec<T>(r, h.nCells)); break;
            case 7: write(w.tflux->internalField(), rndVec<T>(r, h.nFaces())); break;
            case 8:
                write(w.sphi->internalField(), rndVec<scalar>(r, h.nCells));
                poke(w.sphi->boundaryField().value(), rndVec<scalar>(r, h.nBnd));
                break;
            case 9:
                switch (r.below(7))
                {
                    case 0: w.expDiv.scale(r); break;
                    case 1: w.impDiv.scale(r); break;
                    case 2: w.expLap.scale(r); break;
                    case 3: w.impLap.scale(r); break;
                    case 4: w.src.scale(r); break;
                    case 5: w.ddt.scale(r); break;
                    default: w.sint.scale(r);
                }
                ++changes;
                break;
            case 10:
                switch (r.below(11))
                {
                    case 0: w.expDiv.copy(); break;
                    case 1: w.impDiv.copy(); break;
                    case 2: w.expLap.copy(); break;
                    case 3: w.impLap.copy(); break;
                    case 4: w.src.copy(); break;
                    case 5: w.ddt.copy(); break;
                    case 6: w.sint.copy(); break;
                    case 7: w.lin = std::make_unique<fvcc::SurfaceInterpolation<T>>(*w.lin); break;
                    case 8: w.up = std::make_unique<fvcc::SurfaceInterpolation<T>>(*w.up); break;
                    case 9: w.divUp = w.divUp->clone(); w.lap = w.lap->clone(); break;
                    default: w.eqn = std::make_unique<dsl::Expression<T>>(*w.eqn);
                }
                break;
            default:
                // everything at once, through the fields' own operators
                w.phi->internalField() *= scalar(-0.5);
                w.flux->internalField() *= scalar(-1);
                w.gamma->internalField() += w.gamma->internalField();
                ++changes;
        }
    }
    struct Now
    {
        std::vector<T> x, bv, old, tf;
        std::vector<scalar> fl, g, cf;
    };
    Now now()
    {
        auto& w = *a;
        return {values(w.phi->internalField()), values(w.phi->boundaryField().value()), values(fvcc::oldTime(*w.phi).internalField()), values(w.tflux->internalField()),
                values(w.flux->internalField()), values(w.gamma->internalField()), values(w.coef->internalField())};
    }
    // expected: per cell sum over faces (times coefficient, not divided by the volume)
    Sums<T> divSum(const Now& n, bool up) const
    {
        auto v = up ? upwindFace(h, n.x, n.bv, n.fl) : linearFace(h, n.x, n.bv);
        for (std::size_t f = 0; f < h.nFaces(); ++f) v[f] = n.fl[f] * v[f];
        return Sums<T>(h, v);
    }
    Sums<T> lapSum(const Now& n) const
    {
        auto v = normalGrad(h, n.x, n.bv);
        for (std::size_t f = 0; f < h.nFaces(); ++f) v[f] = (n.g[f] * h.magSf[f]) * v[f];
        return Sums<T>(h, v);
    }
    std::string after(const char* w) const
    {
        return std::string(w) + " after " + std::to_string(changes) + " changes and " + std::to_string(queries) + " evaluations";
    }
    // op adds to what is there
    template<typename Op>
    void adds(Op&& op, const std::vector<T>& want, const std::vector<double>& scale, const std::string& w)
    {
        auto base = values(*a->out);
        for (auto& b : base)
            if (magOf(b) > 100) b = rnd<T>(r);
        poke(*a->out, base);
        op(*a->out);
        auto got = values(*a->out);
        for (std::size_t c = 0; c < h.nCells; ++c)
        {
            T d = h.V[c] * (got[c] - base[c]);
            H_CHECK(near(d, want[c], scale[c] + h.V[c] * magOf(base[c])), w << ": added " << str(d) << " in cell " << c << " instead of " << str(want[c]) << " (times volume)");
        }
    }
    // assembling adds to what is there: A x - b changes by want
    template<typename Op>
    void assembles(Op&& op, const std::vector<T>& x, const std::vector<T>& want, const std::vector<double>& scale, const std::string& w)
    {
        auto& ls = *a->ls;
        Sys<T> p(ls);
        op(ls);
        Sys<T> q(ls);
        auto d0 = p.residual(x), d1 = q.residual(x);
        auto s0 = p.scale(x), s1 = q.scale(x);
        H_CHECK(p.sameStructure(q), w << ": the structure of the matrix changed");
        for (std::size_t c = 0; c < h.nCells; ++c)
            H_CHECK(near(d1[c] - d0[c], want[c], scale[c] + s0[c] + s1[c]), w << ": row " << c << " received " << str(d1[c] - d0[c]) << " instead of " << str(want[c]));
        if (maxAbs(q.val) > 1e3 || maxAbs(q.b) > 1e3) ls.reset();
    }
    bool satisfied(const Now& n) const
    {
        for (std::size_t b = 0; b < h.nBnd; ++b)
        {
            T v = bcValue<T>(h, a->bcs, n.x, n.bv, b);
            if (!near(n.bv[b], v, magOf(v))) return false;
        }
        return true;
    }
    void query()
    {
        auto& w = *a;
        auto n = now();
        int q = (int)r.below(15);
        std::vector<scalar> one(h.nCells, 1.0);
        std::vector<T> want(h.nCells);
        std::vector<double> sc(h.nCells, 64);
        auto set = [&](const Sums<T>& s, double k)
        {
            for (std::size_t c = 0; c < h.nCells; ++c)
            {
                want[c] = k * s.v[c];
                sc[c] = std::fabs(k) * s.a[c];
            }
        };
        double dt = r.pick({0.125, 0.5, 1.0, 2.0});
        switch (q)
        {
            case 0:
            case 1:
            {
                auto& si = q ? *w.up : *w.lin;
                auto v = q ? upwindFace(h, n.x, n.bv, n.fl) : linearFace(h, n.x, n.bv);
                if (q || r.chance(0.5)) si.interpolate(*w.flux, *w.phi, *w.dst);
                else si.interpolate(*w.phi, *w.dst);
                expectNear(values(w.dst->internalField()), v, maxAbs(n.x), after(q ? "upwind interpolation" : "linear interpolation"));
                break;
            }
            case 2:
                w.fng->faceNormalGrad(*w.phi, *w.dst);
                expectNear(values(w.dst->internalField()), normalGrad(h, n.x, n.bv), 4000, after("face-normal gradient"));
                break;
            case 3:
            case 4:
            {
                auto& d = q == 4 ? *w.divUp : *w.divLin;
                auto s = divSum(n, q == 4);
                int how = (int)r.below(3);
                if (how == 0) d.div(*w.vout, *w.flux, *w.phi, dsl::Coeff(1.0));
                else if (how == 1) d.div(*w.out, *w.flux, *w.phi, dsl::Coeff(1.0));
                auto got = how == 0 ? values(w.vout->internalField()) : how == 1 ? values(*w.out) : values(d.div(*w.flux, *w.phi, dsl::Coeff(1.0)).internalField());
                compareCells(h, got, s, one, after(how == 2 ? "returned divergence" : "divergence (into a used field)"));
                break;
            }
            case 5:
            {
                bool f = r.chance(0.5);
                if (f) w.lap->laplacian(*w.out, *w.gamma, *w.phi, dsl::Coeff(1.0));
                else w.lap->laplacian(*w.vout, *w.gamma, *w.phi, dsl::Coeff(1.0));
                compareCells(h, f ? values(*w.out) : values(w.vout->internalField()), lapSum(n), one, after("Laplacian into a used field"));
                break;
            }
            case 6:
            {
                auto x = values(w.sphi->internalField()), b = values(w.sphi->boundaryField().value());
                auto pf = linearFace(h, x, b);
                std::vector<Vector> face(h.nFaces());
                for (std::size_t f = 0; f < h.nFaces(); ++f) face[f] = pf[f] * h.Sf[f];
                bool ret = r.chance(0.3);
                if (!ret) w.grad->grad(*w.sphi, *w.gout);
                compareCells(h, ret ? values(w.grad->grad(*w.sphi).internalField()) : values(w.gout->internalField()), Sums<Vector>(h, face), one, after(ret ? "returned gradient" : "gradient into a used field"));
                break;
            }
            case 7:
                set(divSum(n, false), w.expDiv.k);
                adds([&](auto& f) { w.expDiv.o->explicitOperation(f); }, want, sc, after("explicit divergence"));
                break;
            case 8:
                set(lapSum(n), w.expLap.k);
                adds([&](auto& f) { w.expLap.o->explicitOperation(f); }, want, sc, after("explicit Laplacian"));
                break;
            case 9:
                set(Sums<T>(h, n.tf), w.sint.k);
                adds([&](auto& f) { w.sint.o->explicitOperation(f); }, want, sc, after("surface integral"));
                break;
            case 10:
                w.phi->correctBoundaryConditions();
                n = now();
                set(divSum(n, true), w.impDiv.k);
                assembles([&](auto& s) { w.impDiv.o->implicitOperation(s); }, n.x, want, sc, after("implicit divergence"));
                break;
            case 11:
                w.phi->correctBoundaryConditions();
                n = now();
                set(lapSum(n), w.impLap.k);
                assembles([&](auto& s) { w.impLap.o->implicitOperation(s); }, n.x, want, sc, after("implicit Laplacian"));
                break;
            case 12:
                for (std::size_t c = 0; c < h.nCells; ++c) want[c] = (w.src.k * n.cf[c] * h.V[c]) * n.x[c], sc[c] += magOf(want[c]);
                if (r.chance(0.5)) adds([&](auto& f) { w.src.o->explicitOperation(f); }, want, sc, after("explicit source"));
                else assembles([&](auto& s) { w.src.o->implicitOperation(s); }, n.x, want, sc, after("implicit source"));
                break;
            case 13:
                for (std::size_t c = 0; c < h.nCells; ++c) want[c] = (w.ddt.k * h.V[c] / dt) * (n.x[c] - n.old[c]), sc[c] += magOf(want[c]);
                if (r.chance(0.5))
                {
                    for (std::size_t c = 0; c < h.nCells; ++c) want[c] = h.V[c] * want[c], sc[c] *= h.V[c];
                    adds([&](auto& f) { w.ddt.o->explicitOperation(f, 1.0, dt); }, want, sc, after("explicit time derivative"));
                }
                else assembles([&](auto& s) { w.ddt.o->implicitOperation(s, 1.0, dt); }, n.x, want, sc, after("implicit time derivative"));
                break;
            default:
            {
                if (r.chance(0.5))
                {
                    auto s = divSum(n, true), t = Sums<T>(h, n.tf);
                    for (std::size_t c = 0; c < h.nCells; ++c)
                    {
                        want[c] = s.v[c] + t.v[c] + (n.cf[c] * h.V[c]) * n.x[c];
                        sc[c] += s.a[c] + t.a[c] + magOf(want[c]);
                    }
                    adds([&](auto& f) { w.eqn->explicitOperation(f); }, want, sc, after("explicit terms of an expression"));
                }
                else
                {
                    w.phi->correctBoundaryConditions();
                    n = now();
                    auto s = lapSum(n);
                    for (std::size_t c = 0; c < h.nCells; ++c)
                    {
                        T d = (h.V[c] / dt) * (n.x[c] - n.old[c]);
                        want[c] = s.v[c] + d;
                        sc[c] += s.a[c] + magOf(d);
                    }
                    assembles([&](auto& l)
                              {
                                  w.eqn->implicitOperation(l);
                                  w.eqn->implicitOperation(l, 1.0, dt);
                              }, n.x, want, sc, after("implicit terms of an expression"));
                }
            }
        }
        ++queries;
        H::count("evaluations compared");
        H::seen("evaluation kinds x history length", (uint64_t)q * 1000 + (uint64_t)std::min(changes, 999));
    }
};
template<typename T>
void story(Rng& r, bool thorough)
{
    HMesh h;
    do h = anyMesh(r, false);
    while (h.nCells < 2 || h.nInt == 0);
    H::ctx().notes = std::string("operators on ") + tname<T>() + " fields through changes of data and mesh: " + describe(h);
    sigMesh(h);
    std::optional<World<T>> a, b;
    a.emplace(r, h);
    b.emplace(r, sameSize(r, h)); // another mesh of the same size at the same time
    int steps = thorough ? 80 : 40;
    for (int i = 0; i < steps; ++i)
    {
        auto& w = r.chance(0.6) ? *a : *b;
        for (auto n = r.below(3); n-- > 0;) w.change();
        w.query();
        if (r.chance(0.04)) w.replace();
    }
    H::count("histories");
}
} // namespace
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    if (r.chance(0.6)) story<scalar>(r, c.thorough);
    else story<Vector>(r, c.thorough);
}
