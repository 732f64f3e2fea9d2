// S01: schemes, boundary conditions, time integrators and solvers named in the settings. The classes registered here as a user would
// report what they were made from; their results carry their serial number.
#include "terms.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/solver.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
using namespace FV;
FV_MAIN

namespace
{
int serialNo = 0;
struct Made
{
    int id;
    std::string what;
    std::size_t exec;
    const void* mesh;
};
std::vector<Made> made; // in the order of construction

// what is left in the settings for the object being made
std::string rest(const Input& in)
{
    if (std::holds_alternative<Dictionary>(in)) return "(dictionary)";
    std::string s;
    auto& t = std::get<TokenList>(in);
    for (;;)
    {
        try
        {
            s += ":" + t.next<std::string>();
        }
        catch (const std::out_of_range&)
        {
            return s;
        }
    }
}
std::string next(const Input& in) { return std::holds_alternative<Dictionary>(in) ? std::get<Dictionary>(in).get<std::string>("label") : std::get<TokenList>(in).next<std::string>(); }
int report(const std::string& what, const Executor& e, const void* mesh)
{
    made.push_back({++serialNo, what, e.index(), mesh});
    H::count("objects made from settings");
    return serialNo;
}

template<typename T>
void setAll(Field<T>& f, double v, const dsl::Coeff& k)
{
    auto s = f.view();
    parallelFor(f.exec(), {0, f.size()}, KOKKOS_LAMBDA(const std::size_t i) { s[i] = (v * k[i]) * NeoFOAM::one<T>(); });
}
template<typename T>
void addRhs(la::LinearSystem<T, localIdx>& ls, double v, const dsl::Coeff& k)
{
    auto s = ls.rhs().view();
    parallelFor(ls.exec(), {0, ls.rhs().size()}, KOKKOS_LAMBDA(const std::size_t i) { s[i] += (v * k[i]) * NeoFOAM::one<T>(); });
}

template<typename T>
class ProbeDiv : public fvcc::DivOperatorFactory<T>::template Register<ProbeDiv<T>>
{
    using Base = fvcc::DivOperatorFactory<T>::template Register<ProbeDiv<T>>;

public:

    int id;
    static std::string name() { return "s01div"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
    ProbeDiv(const Executor& e, const UnstructuredMesh& m, const Input& in) : Base(e, m), id(report("s01div" + rest(in), e, &m)) {}
    void div(fvcc::VolumeField<T>& d, const fvcc::SurfaceField<scalar>&, const fvcc::VolumeField<T>&, const dsl::Coeff k) const override { setAll(d.internalField(), id, k); }
    void div(la::LinearSystem<T, localIdx>& ls, const fvcc::SurfaceField<scalar>&, const fvcc::VolumeField<T>&, const dsl::Coeff k) const override { addRhs(ls, id, k); }
    void div(Field<T>& d, const fvcc::SurfaceField<scalar>&, const fvcc::VolumeField<T>&, const dsl::Coeff k) const override { setAll(d, id, k); }
    fvcc::VolumeField<T> div(const fvcc::SurfaceField<scalar>&, const fvcc::VolumeField<T>& phi, const dsl::Coeff k) const override
    {
        fvcc::VolumeField<T> d(this->exec_, "d", this->mesh_, fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(this->mesh_));
        setAll(d.internalField(), id, k);
        return d;
    }
    std::unique_ptr<fvcc::DivOperatorFactory<T>> clone() const override { return std::make_unique<ProbeDiv>(*this); }
};
template<typename T>
class ProbeLap : public fvcc::LaplacianOperatorFactory<T>::template Register<ProbeLap<T>>
{
    using Base = fvcc::LaplacianOperatorFactory<T>::template Register<ProbeLap<T>>;

public:

    int id;
    static std::string name() { return "s01lap"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
    ProbeLap(const Executor& e, const UnstructuredMesh& m, const Input& in) : Base(e, m), id(report("s01lap" + rest(in), e, &m)) {}
    void laplacian(fvcc::VolumeField<T>& d, const fvcc::SurfaceField<scalar>&, fvcc::VolumeField<T>&, const dsl::Coeff k) override { setAll(d.internalField(), id, k); }
    void laplacian(Field<T>& d, const fvcc::SurfaceField<scalar>&, fvcc::VolumeField<T>&, const dsl::Coeff k) override { setAll(d, id, k); }
    void laplacian(la::LinearSystem<T, localIdx>& ls, const fvcc::SurfaceField<scalar>&, fvcc::VolumeField<T>&, const dsl::Coeff k) override { addRhs(ls, id, k); }
    std::unique_ptr<fvcc::LaplacianOperatorFactory<T>> clone() const override { return std::make_unique<ProbeLap>(*this); }
};
template<typename T>
class ProbeFace : public fvcc::SurfaceInterpolationFactory<T>::template Register<ProbeFace<T>>
{
    using Base = fvcc::SurfaceInterpolationFactory<T>::template Register<ProbeFace<T>>;

public:

    int id;
    static std::string name() { return "s01face"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
    ProbeFace(const Executor& e, const UnstructuredMesh& m, const Input& in) : Base(e, m), id(report("s01face:" + next(in), e, &m)) {}
    void interpolate(const fvcc::VolumeField<T>&, fvcc::SurfaceField<T>& d) const override { setAll(d.internalField(), id, dsl::Coeff(1.0)); }
    void interpolate(const fvcc::SurfaceField<scalar>&, const fvcc::VolumeField<T>&, fvcc::SurfaceField<T>& d) const override { setAll(d.internalField(), id, dsl::Coeff(1.0)); }
    void weight(const fvcc::VolumeField<T>&, fvcc::SurfaceField<scalar>& w) const override { setAll(w.internalField(), id, dsl::Coeff(1.0)); }
    void weight(const fvcc::SurfaceField<scalar>&, const fvcc::VolumeField<T>&, fvcc::SurfaceField<scalar>& w) const override { setAll(w.internalField(), id, dsl::Coeff(1.0)); }
    std::unique_ptr<fvcc::SurfaceInterpolationFactory<T>> clone() const override { return std::make_unique<ProbeFace>(*this); }
};
template<typename T>
class ProbeGrad : public fvcc::FaceNormalGradientFactory<T>::template Register<ProbeGrad<T>>
{
    using Base = fvcc::FaceNormalGradientFactory<T>::template Register<ProbeGrad<T>>;
    std::shared_ptr<fvcc::SurfaceField<scalar>> none_;

public:

    int id;
    static std::string name() { return "s01grad"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
    ProbeGrad(const Executor& e, const UnstructuredMesh& m, const Input& in)
        : Base(e, m), none_(std::make_shared<fvcc::SurfaceField<scalar>>(e, "none", m, fvcc::createCalculatedBCs<fvcc::SurfaceBoundary<scalar>>(m))), id(report("s01grad:" + next(in), e, &m))
    {}
    void faceNormalGrad(const fvcc::VolumeField<T>&, fvcc::SurfaceField<T>& d) const override { setAll(d.internalField(), id, dsl::Coeff(1.0)); }
    const fvcc::SurfaceField<scalar>& deltaCoeffs() const override { return *none_; }
    std::unique_ptr<fvcc::FaceNormalGradientFactory<T>> clone() const override { return std::make_unique<ProbeGrad>(*this); }
};
template<typename T>
class ProbeVolumeBC : public fvcc::VolumeBoundaryFactory<T>::template Register<ProbeVolumeBC<T>>
{
    using Base = fvcc::VolumeBoundaryFactory<T>::template Register<ProbeVolumeBC<T>>;

public:

    int id;
    static std::string name() { return "s01bc"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
    ProbeVolumeBC(const UnstructuredMesh& m, const Dictionary& d, std::size_t p) : Base(m, d, p), id(report("s01bc:" + d.get<std::string>("label") + ":" + std::to_string(p), m.exec(), &m)) {}
    void correctBoundaryCondition(DomainField<T>& f) final
    {
        auto v = f.boundaryField().value().view();
        double x = id;
        parallelFor(f.exec(), this->range(), KOKKOS_LAMBDA(const std::size_t i) { v[i] = x * NeoFOAM::one<T>(); });
    }
    std::unique_ptr<fvcc::VolumeBoundaryFactory<T>> clone() const final { return std::make_unique<ProbeVolumeBC>(*this); }
};
template<typename T>
class ProbeSurfaceBC : public fvcc::SurfaceBoundaryFactory<T>::template Register<ProbeSurfaceBC<T>>
{
    using Base = fvcc::SurfaceBoundaryFactory<T>::template Register<ProbeSurfaceBC<T>>;

public:

    int id;
    static std::string name() { return "s01bc"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
    ProbeSurfaceBC(const UnstructuredMesh& m, const Dictionary& d, std::size_t p) : Base(m, d, p), id(report("s01bc:" + d.get<std::string>("label") + ":" + std::to_string(p), m.exec(), &m)) {}
    void correctBoundaryCondition(DomainField<T>& f) final
    {
        auto v = f.boundaryField().value().view();
        double x = id;
        parallelFor(f.exec(), this->range(), KOKKOS_LAMBDA(const std::size_t i) { v[i] = x * NeoFOAM::one<T>(); });
    }
    std::unique_ptr<fvcc::SurfaceBoundaryFactory<T>> clone() const final { return std::make_unique<ProbeSurfaceBC>(*this); }
};

template class ProbeDiv<scalar>;
template class ProbeDiv<Vector>;
template class ProbeLap<scalar>;
template class ProbeLap<Vector>;
template class ProbeFace<scalar>;
template class ProbeFace<Vector>;
template class ProbeGrad<scalar>;
template class ProbeGrad<Vector>;
template class ProbeVolumeBC<scalar>;
template class ProbeVolumeBC<Vector>;
template class ProbeSurfaceBC<scalar>;
template class ProbeSurfaceBC<Vector>;

struct StepSeen
{
    std::string label, solverLabel;
    int id = 0;
    double t = -1, dt = -1;
    const void *sol = nullptr, *eqn = nullptr;
};
std::vector<StepSeen> steps;
using VF = fvcc::VolumeField<scalar>;
class ProbeTime : public timeIntegration::TimeIntegratorBase<VF>::Register<ProbeTime>
{
    using Base = timeIntegration::TimeIntegratorBase<VF>::Register<ProbeTime>;
    int id_;

public:

    static std::string name() { return "s01time"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
    ProbeTime(const Dictionary& a, const Dictionary& b) : Base(a, b), id_(report("s01time:" + a.get<std::string>("label"), serial(), nullptr)) {}
    void solve(Base::Expression& eqn, VF& sol, scalar t, scalar dt) override
    {
        steps.push_back({schemeDict_.get<std::string>("label"), solutionDict_.get<std::string>("label"), id_, t, dt, &sol, &eqn});
    }
    std::unique_ptr<timeIntegration::TimeIntegratorBase<VF>> clone() const override { return std::make_unique<ProbeTime>(*this); }
};
int solves = 0;
std::string solvedWith;
class ProbeSolver : public la::SolverFactory::Register<ProbeSolver>
{
    using Base = la::SolverFactory::Register<ProbeSolver>;
    std::string label_;

public:

    static std::string name() { return "s01solver"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
    ProbeSolver(const Executor& e, const Dictionary& d) : Base(e), label_(d.get<std::string>("label")) { report("s01solver:" + label_, e, nullptr); }
    void solve(const la::LinearSystem<scalar, localIdx>&, Field<scalar>&) const override
    {
        ++solves;
        solvedWith = label_;
    }
    std::unique_ptr<la::SolverFactory> clone() const override { return std::make_unique<ProbeSolver>(*this); }
};

std::string label(Rng& r)
{
    static const char* n[] = {"a", "b", "linear", "upwind", "Gauss", "limited", "0.5", "phi", "T", "uncorrected"};
    std::string s = n[r.below(10)];
    if (r.chance(0.5)) s += std::to_string(r.below(100));
    return s;
}

// a scheme entry: its tokens, and the objects building it must make (in this order)
struct Entry
{
    std::vector<std::string> tokens;
    std::vector<std::string> makes;
    bool probe = false; // the operator itself is a probe
    int face = -1;      // 0 upwind 1 linear 2 probe
    bool gradProbe = false;
    TokenList list() const
    {
        TokenList t;
        for (auto& x : tokens) t.insert(x);
        return t;
    }
};
Entry rndEntry(Rng& r, bool lap)
{
    Entry e;
    if (r.chance(0.4))
    {
        e.probe = true;
        e.tokens = {lap ? "s01lap" : "s01div"};
        std::string w = e.tokens[0];
        for (auto n = r.below(4); n--;)
        {
            e.tokens.push_back(label(r));
            w += ":" + e.tokens.back();
        }
        e.makes = {w};
        return e;
    }
    e.tokens = {"Gauss"};
    e.face = (int)r.below(3);
    if (e.face < 2) e.tokens.push_back(e.face ? "linear" : "upwind");
    else
    {
        auto l = label(r);
        e.tokens.push_back("s01face");
        e.tokens.push_back(l);
        e.makes.push_back("s01face:" + l);
    }
    if (lap)
    {
        e.gradProbe = r.chance(0.5);
        if (e.gradProbe)
        {
            auto l = label(r);
            e.tokens.push_back("s01grad");
            e.tokens.push_back(l);
            e.makes.push_back("s01grad:" + l);
        }
        else e.tokens.push_back("uncorrected");
    }
    return e;
}

std::string flat(const Dictionary& d, int depth = 0)
{
    std::vector<std::string> ks = d.keys();
    std::sort(ks.begin(), ks.end());
    std::string s;
    for (auto& k : ks)
    {
        s += std::string((std::size_t)depth, ' ') + k + "=";
        auto& v = d[k];
        if (d.isDict(k)) s += "{\n" + flat(d.subDict(k), depth + 1) + "}";
        else if (auto* p = std::any_cast<std::string>(&v)) s += *p;
        else if (auto* q = std::any_cast<scalar>(&v)) s += FV::str(*q);
        else if (auto* t = std::any_cast<TokenList>(&v))
        {
            for (std::size_t i = 0; i < t->size(); ++i) s += " " + t->get<std::string>(i);
        }
        else s += v.type().name();
        s += "\n";
    }
    return s;
}

std::vector<std::string> takeMade(const Executor& e, const void* mesh, const std::string& w)
{
    std::vector<std::string> l;
    for (auto& m : made)
    {
        l.push_back(m.what);
        H_CHECK(m.exec == e.index(), w << ": " << m.what << " was made for another executor");
        H_CHECK(m.mesh == mesh, w << ": " << m.what << " was made for another mesh");
    }
    return l;
}
std::string join(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v) s += "[" + x + "] ";
    return s;
}
template<typename F>
void throwsRange(F&& f, const std::string& w)
{
    bool ok = false;
    std::string got = "nothing";
    try
    {
        f();
    }
    catch (const std::out_of_range&)
    {
        ok = true;
    }
    catch (const std::exception& e)
    {
        got = e.what();
    }
    H_CHECK(ok, w << " must throw std::out_of_range, not " << got);
    H::count("refusals observed");
}
template<typename F>
void throwsCast(F&& f, const std::string& w)
{
    bool ok = false;
    std::string got = "nothing";
    try
    {
        f();
    }
    catch (const std::bad_any_cast&)
    {
        ok = true;
    }
    catch (const std::exception& e)
    {
        got = e.what();
    }
    H_CHECK(ok, w << " must throw std::bad_any_cast, not " << got);
    H::count("refusals observed");
}
void exits(const std::function<void()>& f, const std::vector<std::string>& says, const std::string& w)
{
    auto x = H::inChild(f);
    H_CHECK(x.exited && x.code == 1, w << " must end the program with exit code 1 (exited " << x.exited << " code " << x.code << " signal " << x.signal << "): " << x.err.substr(0, 400));
    for (auto& s : says) H_CHECK(x.err.find(s) != std::string::npos, w << ": the message does not mention '" << s << "': " << x.err.substr(0, 400));
    H::count("refusals observed");
}

struct Term
{
    bool lap, imp;
    std::size_t gam, fld;
    double k;
    std::string key;
};

void equations(Rng& r, bool thorough)
{
    Executor e = anyExec(r);
    MeshOpt mo;
    mo.maxDegree = 20;
    HMesh h = anyMesh(r, false, mo);
    auto m = build(e, h);
    sigMesh(h);
    const std::size_t nS = 1 + r.below(3), nF = 1 + r.below(3);
    // (names that are parts of each other)
    static const char* sNames[] = {"phi", "phi2", "p"};
    static const char* fNames[] = {"T", "T2", "phi"};
    std::vector<std::unique_ptr<fvcc::SurfaceField<scalar>>> S;
    std::vector<std::unique_ptr<VF>> F;
    std::vector<std::vector<scalar>> sv, fv;
    std::vector<std::vector<BC<scalar>>> fb;
    for (std::size_t i = 0; i < nS; ++i)
    {
        sv.push_back(rndFluxes(r, h.nFaces()));
        S.push_back(std::make_unique<fvcc::SurfaceField<scalar>>(surfField<scalar>(r, e, *m, sv.back(), rndBCs<scalar>(r, h, {0}), sNames[i])));
    }
    for (std::size_t i = 0; i < nF; ++i)
    {
        fv.push_back(rndVec<scalar>(r, h.nCells));
        fb.push_back(rndBCs<scalar>(r, h, {3}));
        F.push_back(std::make_unique<VF>(volField<scalar>(r, e, *m, fv.back(), fb.back(), fNames[i])));
        F.back()->correctBoundaryConditions();
    }
    dsl::Expression<scalar> eqn(e);
    std::vector<Term> terms;
    auto nT = 1 + r.below(4);
    for (std::size_t i = 0; i < nT; ++i)
    {
        Term t;
        t.lap = r.chance(0.5);
        t.imp = t.lap || r.chance(0.4);
        t.gam = r.below(nS);
        t.fld = r.below(nF);
        t.k = r.pick({1.0, -1.0, 2.0, 0.5});
        t.key = std::string(t.lap ? "laplacian(" : "div(") + sNames[t.gam] + "," + fNames[t.fld] + ")";
        dsl::SpatialOperator<scalar> op = t.lap ? dsl::imp::laplacian(*S[t.gam], *F[t.fld]) : t.imp ? dsl::imp::div(*S[t.gam], *F[t.fld]) : dsl::exp::div(*S[t.gam], *F[t.fld]);
        eqn.addOperator(t.k * op);
        terms.push_back(t);
        H::sig(t.key);
    }
    for (int round = 0; round < (thorough ? 4 : 2); ++round)
    {
        // settings for all pairs of fields, in two sections; some other content
        std::map<std::string, Entry> want;
        Dictionary schemes, div, lap;
        for (std::size_t a = 0; a < nS; ++a)
            for (std::size_t b = 0; b < nF; ++b)
                for (int l = 0; l < 2; ++l)
                {
                    std::string key = std::string(l ? "laplacian(" : "div(") + sNames[a] + "," + fNames[b] + ")";
                    Entry x = rndEntry(r, l), y = rndEntry(r, l);
                    want[key] = x;
                    (l ? lap : div).insert(key, x.list());
                    // the same key in the other section, and the pair the other way round: somebody else's
                    (l ? div : lap).insert(key, y.list());
                    (l ? lap : div).insert(std::string(l ? "laplacian(" : "div(") + fNames[b] + "," + sNames[a] + ") ", y.list());
                }
        div.insert("default", rndEntry(r, false).list());
        lap.insert("default", rndEntry(r, true).list());
        schemes.insert("divSchemes", div);
        schemes.insert("laplacianSchemes", lap);
        Dictionary ddt, solution;
        std::string la = label(r), lb = label(r);
        ddt.insert("type", std::string("s01time"));
        ddt.insert("label", la);
        schemes.insert("ddtSchemes", ddt);
        solution.insert("solver", std::string("s01solver"));
        solution.insert("label", lb);
        std::string before = flat(schemes), before2 = flat(solution);
        H::ctx().notes = "round " + std::to_string(round) + " on " + exName(e) + " with settings\n" + before;

        made.clear();
        eqn.build(schemes);
        auto m1 = made;
        auto got = takeMade(e, m.get(), "building the equation");
        // every object named is made at least once per term, in the order of the terms; clones are made without the settings
        std::vector<std::string> all;
        for (auto& t : terms)
            for (auto& w : want.at(t.key).makes) all.push_back(w);
        H_CHECK(got == all, "building the equation made " << join(got) << "while its terms name " << join(all));
        H_CHECK(flat(schemes) == before, "building the equation changed the settings:\n" << flat(schemes));
        // the terms use what was made for them
        std::vector<double> src(h.nCells, 0), srcMag(h.nCells, 0), rhs(h.nCells, 0);
        std::size_t at = 0;
        bool onlyProbes = true;
        for (auto& t : terms)
        {
            auto& x = want.at(t.key);
            std::vector<int> ids;
            for (std::size_t i = 0; i < x.makes.size(); ++i) ids.push_back(m1[at++].id);
            if (t.imp)
            {
                if (x.probe)
                    for (auto& v : rhs) v += t.k * ids[0];
                else onlyProbes = false;
            }
            else if (x.probe)
                for (std::size_t c = 0; c < h.nCells; ++c)
                {
                    src[c] += t.k * ids[0];
                    srcMag[c] += std::fabs(t.k * ids[0]);
                }
            else
            {
                std::vector<scalar> bv(h.nBnd), face;
                for (std::size_t b = 0; b < h.nBnd; ++b) bv[b] = bcValue<scalar>(h, fb[t.fld], fv[t.fld], bv, b);
                if (x.face == 0) face = upwindFace(h, fv[t.fld], bv, sv[t.gam]);
                else if (x.face == 1) face = linearFace(h, fv[t.fld], bv);
                else face.assign(h.nFaces(), ids[0]);
                for (std::size_t f = 0; f < h.nFaces(); ++f) face[f] *= sv[t.gam][f];
                Sums<scalar> s(h, face);
                for (std::size_t c = 0; c < h.nCells; ++c)
                {
                    src[c] += t.k * s.v[c] / h.V[c];
                    srcMag[c] += std::fabs(t.k) * s.a[c] / h.V[c];
                }
            }
        }
        made.clear();
        auto values0 = values(eqn.explicitOperation(h.nCells));
        H_CHECK(made.empty(), "evaluating the equation made " << join(takeMade(e, m.get(), "evaluation")));
        for (std::size_t c = 0; c < h.nCells; ++c)
            H_CHECK(near(values0[c], src[c], srcMag[c]), "explicit terms in cell " << c << ": " << values0[c] << " instead of " << src[c] << " with the schemes named");
        if (onlyProbes)
        {
            auto sp = fvcc::SparsityPattern::readOrCreate(*m);
            auto ls = la::createEmptyLinearSystem<scalar, localIdx, fvcc::SparsityPattern>(*sp);
            eqn.implicitOperation(ls);
            auto b = values(ls.rhs());
            for (std::size_t c = 0; c < h.nCells; ++c) H_CHECK(near(b[c], rhs[c], 1000), "implicit terms in row " << c << ": " << b[c] << " instead of " << rhs[c] << " with the schemes named");
            H::count("systems of user-defined schemes compared");
        }
        // solving: time integration and linear solver named in the settings
        {
            auto n = r.below(2);
            double t = r.dyadic(), dt = r.posDyadic();
            std::string sy = flat(schemes), so = flat(solution);
            made.clear();
            solves = 0;
            steps.clear();
            auto q = eqn; // (with or without a time derivative)
            if (n)
            {
                Database db;
                auto& reg = registered<scalar>(r, db, e, *m, "reg", fv[0], fb[0]);
                auto withTime = q;
                withTime.addOperator(dsl::imp::ddt(reg));
                dsl::solve(withTime, *F[0], t, dt, schemes, solution);
                H_CHECK(steps.size() == 1 && solves == 0, "one step of the time integration named in ddtSchemes, not " << steps.size() << " and " << solves << " linear solves");
                H_CHECK(steps[0].label == la && steps[0].solverLabel == lb && steps[0].t == t && steps[0].dt == dt && steps[0].sol == F[0].get() && steps[0].eqn == &withTime,
                        "the time integration was given other settings, times, fields or equations");
                std::size_t k = 0;
                for (auto& x : made) k += x.what == "s01time:" + la;
                H_CHECK(k == 1, "the time integration was made " << k << " times");
            }
            else
            {
                dsl::solve(q, *F[0], t, dt, schemes, solution);
                H_CHECK(steps.empty() && solves == 1 && solvedWith == lb, "one solve with the solver named in the settings, not " << solves << " with " << solvedWith);
                for (auto& x : made) H_CHECK(x.what.find("s01time") == std::string::npos, "a time integration was made for a steady equation");
            }
            H_CHECK(flat(schemes) == sy && flat(solution) == so, "solving changed the settings");
            std::vector<std::string> l;
            for (auto& x : made)
                if (x.what.find("s01time") && x.what.find("s01solver")) l.push_back(x.what);
            H_CHECK(l == all, "solving the equation made " << join(l) << "while its terms name " << join(all));
            poke(F[0]->internalField(), fv[0]);
            F[0]->correctBoundaryConditions();
        }
        H_CHECK(flat(solution) == before2, "the solution settings changed");
        H::count("settings followed");
    }
    // refusals
    {
        std::map<std::string, Entry> want;
        auto t = terms[r.below(terms.size())];
        Dictionary schemes, div, lap;
        for (auto& x : terms) (x.lap ? lap : div).insert(x.key, rndEntry(r, x.lap).list());
        // what somebody looking for a replacement could find
        if (r.chance(0.7))
        {
            const auto any = rndEntry(r, true).list();
            for (auto& x : terms) (x.lap ? div : lap).insert(x.key, any);
            for (auto* d : {&div, &lap, &schemes})
            {
                for (auto n : {"default", "none", "any", "div", "laplacian", "div(phi)", "laplacian(T)"}) d->insert(std::string(n), any);
                for (auto& x : S)
                    for (auto& y : F)
                        for (auto n : {"div(", "laplacian("}) d->insert(n + y->name + "," + x->name + ") ", any);
            }
            for (auto& x : terms) schemes.insert(x.key, any);
            schemes.insert("default", div);
            schemes.insert("schemes", div);
        }
        int how = (int)r.below(5);
        auto& sec = t.lap ? lap : div;
        if (how == 0) sec.remove(t.key);
        if (how == 1) sec[t.key] = std::string("Gauss linear uncorrected");
        std::string bad = "nope" + std::to_string(r.below(100));
        if (how == 2)
        {
            TokenList l;
            l.insert(bad);
            sec[t.key] = l;
        }
        if (how == 3)
        {
            TokenList l;
            l.insert(std::string("Gauss"));
            l.insert(bad);
            sec[t.key] = l;
        }
        if (how != 4 || t.lap) schemes.insert("divSchemes", div);
        if (how != 4 || !t.lap) schemes.insert("laplacianSchemes", lap);
        std::string before = flat(schemes);
        H::ctx().notes = "refusal " + std::to_string(how) + " of " + t.key + " with settings\n" + before;
        auto q = eqn;
        auto go = [&] { q.build(schemes); };
        if (how == 0 || how == 4) throwsRange(go, "building " + t.key + " without an entry");
        if (how == 1) throwsCast(go, "building " + t.key + " from an entry which is no token list");
        if (how == 2) exits(go, {bad, "Gauss", t.lap ? "s01lap" : "s01div"}, "an unknown scheme for " + t.key);
        if (how == 3) exits(go, {bad, "linear", "upwind", "s01face"}, "an unknown interpolation for " + t.key);
        H_CHECK(flat(schemes) == before, "a refused equation changed the settings:\n" << flat(schemes));
    }
    // terms that were never built
    if (r.chance(0.3))
    {
        bool i = r.chance(0.5), l = r.chance(0.5);
        exits(
            [&]
            {
                if (!i)
                {
                    dsl::Expression<scalar> x(e);
                    x.addOperator(dsl::exp::div(*S[0], *F[0]));
                    x.explicitOperation(h.nCells);
                    return;
                }
                dsl::Expression<scalar> x(e);
                x.addOperator(l ? dsl::imp::laplacian(*S[0], *F[0]) : dsl::imp::div(*S[0], *F[0]));
                auto sp = fvcc::SparsityPattern::readOrCreate(*m);
                auto ls = la::createEmptyLinearSystem<scalar, localIdx, fvcc::SparsityPattern>(*sp);
                x.implicitOperation(ls);
            },
            {},
            "evaluating a term without a scheme"
        );
    }
    // time integration and solver that do not exist
    if (r.chance(0.3))
    {
        Dictionary ddt, sol;
        std::string bad = "none" + std::to_string(r.below(100));
        ddt.insert("label", std::string("x"));
        sol.insert("label", std::string("x"));
        throwsRange([&] { timeIntegration::TimeIntegration<VF> x(ddt, sol); }, "a time integration without a type");
        ddt.insert("type", scalar(1.0));
        throwsCast([&] { timeIntegration::TimeIntegration<VF> x(ddt, sol); }, "a time integration whose type is a number");
        ddt["type"] = bad;
        exits([&] { timeIntegration::TimeIntegration<VF> x(ddt, sol); }, {bad, "forwardEuler", "backwardEuler", "s01time"}, "an unknown time integration");
        throwsRange([&] { la::Solver x(e, sol); }, "a solver without a name");
        sol.insert("solver", bad);
        exits([&] { la::Solver x(e, sol); }, {bad, "s01solver"}, "an unknown solver");
    }
}

template<typename T>
void conditions(Rng& r)
{
    Executor e = anyExec(r);
    MeshOpt mo;
    mo.maxDegree = 20;
    HMesh h = anyMesh(r, false, mo);
    auto m = build(e, h);
    sigMesh(h);
    std::vector<Dictionary> d;
    std::vector<int> kind; // 0 calculated 1 empty 2 extrapolated 3 fixed value 4 fixed gradient 5 probe
    std::vector<T> v;
    std::vector<std::string> makes;
    bool vol = r.chance(0.5);
    for (std::size_t p = 0; p < h.nPatch; ++p)
    {
        kind.push_back(vol ? (int)r.below(6) : r.pick({0, 1, 3, 5}));
        v.push_back(rnd<T>(r));
        Dictionary x;
        // everything another condition would read, with other values
        T other = rnd<T>(r);
        if (r.chance(0.5)) x.insert("fixedGradient", other);
        if (r.chance(0.5)) x.insert("fixedValue", other);
        auto l = label(r);
        if (kind.back() == 5)
        {
            x.insert("type", std::string("s01bc"));
            x.insert("label", l);
            makes.push_back("s01bc:" + l + ":" + std::to_string(p));
        }
        else
        {
            BC<T> b {kind.back(), v.back()};
            auto y = bcDict(b);
            x.insert("type", y.template get<std::string>("type"));
            if (kind.back() == 3) x.insert("fixedValue", v.back());
            if (kind.back() == 4) x.insert("fixedGradient", v.back());
        }
        d.push_back(x);
    }
    H::ctx().notes = std::string(vol ? "volume" : "surface") + " conditions of " + tname<T>() + " on " + exName(e) + ": " + describe(h);
    std::vector<std::string> before;
    for (auto& x : d) before.push_back(flat(x));
    made.clear();
    auto check = [&](auto& f, const std::vector<T>& inner, const std::vector<int>& ids)
    {
        auto old = values(f.boundaryField().value());
        f.correctBoundaryConditions();
        auto now = values(f.boundaryField().value());
        std::size_t probe = 0;
        for (std::size_t p = 0; p < h.nPatch; ++p)
        {
            for (auto b = h.offset[p]; b < h.offset[p + 1]; ++b)
            {
                T want = old[b];
                if (kind[p] == 2) want = inner[(std::size_t)h.bCell[b]];
                if (kind[p] == 3) want = v[p];
                if (kind[p] == 4) want = inner[(std::size_t)h.bCell[b]] + v[p] * (1.0 / refNonOrth(h, h.nInt + b));
                if (kind[p] == 5) want = (double)ids[probe] * NeoFOAM::one<T>();
                H_CHECK(near(now[b], want, 64 + magOf(want)), "face " << b << " of patch " << p << " (" << d[p].template get<std::string>("type") << ") is " << str(now[b]) << " instead of " << str(want));
                H::count("boundary faces compared");
            }
            probe += kind[p] == 5;
        }
    };
    std::vector<int> ids;
    if (vol)
    {
        std::vector<fvcc::VolumeBoundary<T>> b;
        for (std::size_t p = 0; p < h.nPatch; ++p) b.emplace_back(*m, d[p], p);
        auto got = takeMade(e, m.get(), "boundary conditions");
        H_CHECK(got == makes, "the boundary conditions made are " << join(got) << "instead of " << join(makes));
        for (auto& x : made) ids.push_back(x.id);
        auto inner = rndVec<T>(r, h.nCells);
        fvcc::VolumeField<T> f(e, "T", *m, b);
        poke(f.internalField(), inner);
        poke(f.boundaryField().value(), rndVec<T>(r, h.nBnd));
        check(f, inner, ids);
        fvcc::VolumeField<T> g(f);
        check(g, inner, ids);
    }
    else
    {
        std::vector<fvcc::SurfaceBoundary<T>> b;
        for (std::size_t p = 0; p < h.nPatch; ++p) b.emplace_back(*m, d[p], p);
        auto got = takeMade(e, m.get(), "boundary conditions");
        H_CHECK(got == makes, "the boundary conditions made are " << join(got) << "instead of " << join(makes));
        for (auto& x : made) ids.push_back(x.id);
        auto inner = rndVec<T>(r, h.nFaces());
        fvcc::SurfaceField<T> f(e, "T", *m, b);
        poke(f.internalField(), inner);
        poke(f.boundaryField().value(), rndVec<T>(r, h.nBnd));
        check(f, inner, ids);
        fvcc::SurfaceField<T> g(f);
        check(g, inner, ids);
    }
    H_CHECK(made.size() == ids.size(), "copies and corrections must not read the settings again");
    for (std::size_t p = 0; p < h.nPatch; ++p) H_CHECK(flat(d[p]) == before[p], "the settings of patch " << p << " changed");
    // refusals
    if (h.nPatch)
    {
        auto p = r.below(h.nPatch);
        auto make = [&](const Dictionary& x)
        {
            if (vol) fvcc::VolumeBoundary<T> b(*m, x, p);
            else fvcc::SurfaceBoundary<T> b(*m, x, p);
        };
        Dictionary x;
        x.insert("label", std::string("x"));
        throwsRange([&] { make(x); }, "a boundary condition without a type");
        x.insert("type", std::string("fixedValue"));
        throwsRange([&] { make(x); }, "a fixed value without a value");
        x.insert("fixedValue", std::string("1"));
        throwsCast([&] { make(x); }, "a fixed value that is a string");
        x["fixedValue"] = 1;
        throwsCast([&] { make(x); }, "a fixed value that is an integer");
        if (vol)
        {
            x["type"] = std::string("fixedGradient");
            throwsRange([&] { make(x); }, "a fixed gradient without a gradient");
        }
        x["type"] = 3;
        throwsCast([&] { make(x); }, "a boundary type that is a number");
        if (r.chance(0.3))
        {
            std::string bad = r.pick({std::string("fixedvalue"), std::string(""), std::string("fixed"), std::string("calculated ")});
            x["type"] = bad;
            exits([&] { make(x); }, {bad, "fixedValue", "calculated", "empty", "s01bc"}, "an unknown boundary type");
        }
    }
    H::count("boundary settings followed");
}

template<typename T>
void direct(Rng& r)
{
    // objects made directly from a dictionary or a token list
    Executor e = anyExec(r);
    MeshOpt mo;
    mo.maxDegree = 20;
    HMesh h = anyMesh(r, false, mo);
    auto m = build(e, h);
    sigMesh(h);
    auto lab = label(r), lab2 = label(r);
    auto flux = surfField<scalar>(r, e, *m, rndFluxes(r, h.nFaces()), rndBCs<scalar>(r, h, {0}), "phi");
    auto phi = volField<T>(r, e, *m, rndVec<T>(r, h.nCells), rndBCs<T>(r, h, {3}), "T");
    bool dict = r.chance(0.5);
    auto input = [&](std::initializer_list<std::string> tokens, const char* key, const std::string& name) -> Input
    {
        if (!dict)
        {
            TokenList l;
            for (auto& t : tokens) l.insert(t);
            return l;
        }
        Dictionary d;
        d.insert(key, name);
        d.insert("label", lab);
        return d;
    };
    auto one = [&](const std::string& want, const std::string& w)
    {
        auto got = takeMade(e, m.get(), w);
        H_CHECK(got == std::vector<std::string> {want}, w << " made " << join(got) << "instead of [" << want << "]");
        int id = made[0].id;
        made.clear();
        return id;
    };
    auto all = [&](const Field<T>& f, double want, const std::string& w)
    {
        for (auto& x : values(f)) H_CHECK(near(x, T(want * NeoFOAM::one<T>()), std::fabs(want)), w << " gives " << str(x) << " instead of the " << want << " of the scheme named");
        H::count("results of user-defined schemes compared");
    };
    made.clear();
    H::ctx().notes = std::string("objects of ") + tname<T>() + " made from " + (dict ? "a dictionary" : "tokens") + " on " + exName(e);
    {
        fvcc::SurfaceInterpolation<T> s(e, *m, input({"s01face", lab}, "surfaceInterpolation", "s01face"));
        int id = one("s01face:" + lab, "an interpolation");
        fvcc::SurfaceInterpolation<T> c(s), mv(std::move(s));
        auto out = surfField<T>(r, e, *m, rndVec<T>(r, h.nFaces()), rndBCs<T>(r, h, {0}), "out");
        c.interpolate(phi, out);
        all(out.internalField(), id, "the copy of an interpolation");
        mv.interpolate(flux, phi, out);
        all(out.internalField(), id, "the moved interpolation");
        all(mv.interpolate(phi).internalField(), id, "interpolation");
        H_CHECK(made.empty(), "copies read the settings again");
    }
    {
        fvcc::FaceNormalGradient<T> s(e, *m, input({"s01grad", lab}, "faceNormalGradient", "s01grad"));
        int id = one("s01grad:" + lab, "a face-normal gradient");
        fvcc::FaceNormalGradient<T> c(s), mv(std::move(s));
        all(c.faceNormalGrad(phi).internalField(), id, "the copy of a face-normal gradient");
        all(mv.faceNormalGrad(phi).internalField(), id, "the moved face-normal gradient");
        H_CHECK(made.empty(), "copies read the settings again");
    }
    {
        std::string tail = dict ? "(dictionary)" : ":" + lab + ":" + lab2;
        double k = r.pick({1.0, -2.0, 0.5});
        fvcc::DivOperator<T> s(dsl::Operator::Type::Explicit, flux, phi, input({"s01div", lab, lab2}, "DivOperator", "s01div"));
        int id = one("s01div" + tail, "a divergence");
        fvcc::DivOperator<T> c(s);
        c.getCoefficient() *= k;
        auto out = field(e, rndVec<T>(r, h.nCells));
        c.div(out);
        all(out, k * id, "the copy of a divergence");
        s.div(out);
        all(out, id, "a divergence");
        fvcc::LaplacianOperator<T> l(dsl::Operator::Type::Explicit, flux, phi, input({"s01lap", lab, lab2}, "LaplacianOperator", "s01lap"));
        id = one("s01lap" + tail, "a Laplacian");
        fvcc::LaplacianOperator<T> lc(l);
        lc.getCoefficient() *= k;
        auto z = field(e, std::vector<T>(h.nCells, T {}));
        lc.explicitOperation(z);
        all(z, k * id, "the copy of a Laplacian");
        // another scheme for the same operator
        std::string other = label(r);
        TokenList t;
        t.insert(std::string("s01div"));
        t.insert(other);
        c.build(t);
        id = one("s01div:" + other, "a rebuilt divergence");
        c.div(out);
        all(out, k * id, "a rebuilt divergence");
        H_CHECK(t.size() == 2 && t.template get<std::string>(0) == "s01div" && t.template get<std::string>(1) == other && t.template next<std::string>() == "s01div", "building an operator changed the tokens or read them on");
        // schemes handed over ready-made
        fvcc::DivOperator<T> own(dsl::Operator::Type::Explicit, flux, phi, fvcc::DivOperatorFactory<T>::create(e, *m, input({"s01div", lab, lab2}, "DivOperator", "s01div")));
        id = one("s01div" + tail, "a divergence given its scheme");
        own.div(out);
        all(out, id, "a divergence given its scheme");
        H_CHECK(made.empty(), "objects made from settings nobody asked for: " << join(takeMade(e, m.get(), "")));
    }
    H::count("direct settings followed");
}
}

void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    switch (r.below(4))
    {
        case 0: r.chance(0.5) ? conditions<scalar>(r) : conditions<Vector>(r); break;
        case 1: r.chance(0.5) ? direct<scalar>(r) : direct<Vector>(r); break;
        default: equations(r, c.thorough);
    }
}
