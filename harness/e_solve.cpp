// E02, E03, T01, T02, T04: solving equations (-DWHAT=2 steady, 5 assembled, 1 explicit Euler, 3 implicit Euler, 4 Runge-Kutta), with an exact
// dense solver registered with the library, against the equation written out term by term.
#include "terms.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/solver.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
#if WHAT == 5
#include "NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp"
#endif
#if WHAT == 4
#include "NeoFOAM/timeIntegration/rungeKutta.hpp"
#endif
using namespace FV;
FV_MAIN

namespace
{
// what the linear solver saw
struct Solves
{
    int n = 0;
    bool singular = false;
    std::size_t exec = 9;
    double mark = -1;
    std::vector<double> y, residual; // of a singular system: random values and what is left of it with them
} seenSolves;

class ExactSolver : public la::SolverFactory::Register<ExactSolver>
{
    using Base = la::SolverFactory::Register<ExactSolver>;
    double mark_;

public:

    ExactSolver(const Executor& e, const Dictionary& d) : Base(e), mark_(d.get<scalar>("mark")) {}
    static std::string name() { return "exact" + std::to_string(WHAT); }
    static std::string doc() { return "dense elimination"; }
    static std::string schema() { return "none"; }
    void solve(const la::LinearSystem<scalar, localIdx>& ls, Field<scalar>& x) const override
    {
        H_CHECK(ls.exec() == exec_ && x.exec() == exec_, "the linear system, the solution and the solver must live on one executor");
        seenSolves.n++;
        seenSolves.exec = exec_.index();
        seenSolves.mark = mark_;
        Sys<scalar> s(ls);
        H_CHECK(s.n() == x.size(), "a system of " << s.n() << " rows for " << x.size() << " unknowns");
        std::vector<scalar> y;
        if (!solveDense(s, y) || maxAbs(y) > 1e6)
        {
            seenSolves.singular = true;
            Rng r(s.n());
            seenSolves.y = rndVec<scalar>(r, s.n());
            seenSolves.residual = s.residual(seenSolves.y);
        }
        else poke(x, y);
        H::count("linear systems solved");
    }
    std::unique_ptr<la::SolverFactory> clone() const override { return std::make_unique<ExactSolver>(*this); }
};

enum TK { ImpSource, ImpDiv, ImpLap, ExpSource, ExpDiv, ExpFlux, nTK };
const char* tkName[] = {"imp::source", "imp::div", "imp::laplacian", "exp::source", "exp::div", "exp::div(flux)"};

struct TermDef
{
    TK kind;
    std::unique_ptr<K> k;
    double sign = 1; // of the term in the equation
    int coef = 0;    // which coefficient field
    int other = 0;   // exp::source of another field
};
struct Case
{
    Rng& r;
    Executor e;
    HMesh h;
    std::unique_ptr<UnstructuredMesh> m;
    Database db;
    std::vector<BC<scalar>> bcs;
    fvcc::VolumeField<scalar>* phi = nullptr;
    std::vector<scalar> fl, gam, psiV;
    std::vector<std::vector<scalar>> cf;
    std::optional<fvcc::SurfaceField<scalar>> flux, gamma;
    std::optional<fvcc::VolumeField<scalar>> psi;
    std::vector<std::unique_ptr<fvcc::VolumeField<scalar>>> coef;
    std::vector<TermDef> terms;
    std::string scheme = "upwind";
    Dictionary fvSchemes, fvSolution;
    double mark;
    std::string text;

    static HMesh mesh(Rng& r, bool thorough)
    {
        MeshOpt mo;
        mo.maxDegree = 60;
        // (implicit equations are solved by dense elimination)
        return sizedMesh(r, thorough, mo, WHAT == 2 || WHAT == 3 || WHAT == 5 ? 350 : 1500);
    }
    Case(Rng& rr, bool thorough, bool lagged) : r(rr), e(anyExec(rr)), h(mesh(rr, thorough))
    {
        m = build(e, h);
        bcs = lagged ? rndBCs<scalar>(r, h, {2, 3, 4}) : rndBCs<scalar>(r, h, {3, 4});
        phi = &registered<scalar>(r, db, e, *m, "T", rndVec<scalar>(r, h.nCells), bcs);
        fl = rndFluxes(r, h.nFaces());
        gam.resize(h.nFaces());
        for (auto& g : gam) g = r.chance(0.15) ? 0.0 : r.posDyadic();
        flux.emplace(surfField<scalar>(r, e, *m, fl, rndBCs<scalar>(r, h, {0}), "phi"));
        gamma.emplace(surfField<scalar>(r, e, *m, gam, rndBCs<scalar>(r, h, {0}), "nu"));
        psiV = rndVec<scalar>(r, h.nCells);
        psi.emplace(volField<scalar>(r, e, *m, psiV, rndBCs<scalar>(r, h, {0, 3}), "psi"));
        for (int i = 0; i < 2; ++i)
        {
            cf.push_back(rndVec<scalar>(r, h.nCells));
            coef.push_back(std::make_unique<fvcc::VolumeField<scalar>>(volField<scalar>(r, e, *m, cf.back(), rndBCs<scalar>(r, h, {0}), "c" + std::to_string(i))));
        }
        scheme = r.chance(0.7) ? "upwind" : "linear";
        mark = r.dyadic();
        fvSolution.insert("solver", "exact" + std::to_string(WHAT));
        fvSolution.insert("mark", mark);
        if (r.chance(0.5)) fvSolution.insert("tolerance", scalar(1e-9));
    }
    void schemes(const std::string& ddt, const std::string& method = "Forward-Euler")
    {
        Dictionary div, lap, d;
        div.insert("div(phi,T)", TokenList({std::string("Gauss"), scheme}));
        lap.insert("laplacian(nu,T)", TokenList({std::string("Gauss"), std::string("linear"), std::string("uncorrected")}));
        if (ddt.size())
        {
            d.insert("type", ddt);
            if (ddt == "Runge-Kutta") d.insert("Runge-Kutta-Method", method);
            fvSchemes.insert("ddtSchemes", d);
        }
        fvSchemes.insert("divSchemes", div);
        fvSchemes.insert("laplacianSchemes", lap);
        // a solver of the same name with other settings: must not be used
        fvSchemes.insert("mark", scalar(-77.0));
    }
    void add(TK k, double sign = 1)
    {
        TermDef t;
        t.kind = k;
        t.k = std::make_unique<K>(r, e, h.nCells);
        t.sign = sign;
        t.coef = (int)r.below(2);
        t.other = (int)r.below(2);
        // an implicit divergence needs the upwind scheme
        if (k == ImpDiv) scheme = "upwind";
        text += std::string(sign < 0 ? " - " : " + ") + (t.k->hasField ? "field*" : "") + str(t.k->s) + "*" + tkName[k];
        H::count((std::string("terms ") + tkName[k]).c_str());
        terms.push_back(std::move(t));
    }
    dsl::SpatialOperator<scalar> op(TermDef& t)
    {
        auto& c = *coef[(std::size_t)t.coef];
        switch (t.kind)
        {
            case ImpSource: return t.k->times(dsl::imp::source(c, *phi));
            case ImpDiv: return t.k->times(dsl::imp::div(*flux, *phi));
            case ImpLap: return t.k->times(dsl::imp::laplacian(*gamma, *phi));
            case ExpSource: return t.k->times(dsl::exp::source(c, t.other ? *psi : *phi));
            case ExpDiv: return t.k->times(dsl::exp::div(*flux, *phi));
            default: return t.k->times(dsl::exp::div(*flux));
        }
    }
    // integrated contribution of a term; y: new solution, old / oldB: values when the step started
    void contribution(const TermDef& t, const std::vector<scalar>& y, const std::vector<scalar>& old, const std::vector<scalar>& oldB, std::vector<double>& sum, std::vector<double>& mag) const
    {
        auto put = [&](std::size_t c, double v, double a)
        {
            sum[c] += t.sign * v;
            mag[c] += std::fabs(a);
        };
        auto& c = cf[(std::size_t)t.coef];
        auto& k = t.k->k;
        std::vector<scalar> face(h.nFaces());
        switch (t.kind)
        {
            case ImpSource:
                for (std::size_t i = 0; i < h.nCells; ++i) put(i, k[i] * c[i] * y[i] * h.V[i], k[i] * c[i] * y[i] * h.V[i]);
                return;
            case ExpSource:
                for (std::size_t i = 0; i < h.nCells; ++i)
                {
                    double v = k[i] * c[i] * (t.other ? psiV[i] : old[i]) * h.V[i];
                    put(i, v, v);
                }
                return;
            case ImpDiv:
            case ImpLap:
            {
                std::vector<scalar> bv(h.nBnd);
                for (std::size_t b = 0; b < h.nBnd; ++b) bv[b] = bcValue<scalar>(h, bcs, y, oldB, b);
                auto v = t.kind == ImpLap ? normalGrad(h, y, bv) : upwindFace(h, y, bv, fl);
                for (std::size_t f = 0; f < h.nFaces(); ++f) face[f] = (t.kind == ImpLap ? gam[f] * h.magSf[f] : fl[f]) * v[f];
                break;
            }
            case ExpDiv:
            {
                auto v = scheme == "upwind" ? upwindFace(h, old, oldB, fl) : linearFace(h, old, oldB);
                for (std::size_t f = 0; f < h.nFaces(); ++f) face[f] = fl[f] * v[f];
                break;
            }
            default: face = fl;
        }
        Sums<scalar> s(h, face);
        for (std::size_t i = 0; i < h.nCells; ++i) put(i, k[i] * s.v[i], k[i] * s.a[i]);
    }
    // boundary values must be those of the conditions for the internal values y
    void boundaries(const std::vector<scalar>& y, const std::vector<scalar>& before, const std::string& w)
    {
        auto got = values(phi->boundaryField().value());
        for (std::size_t b = 0; b < h.nBnd; ++b)
        {
            double want = bcValue<scalar>(h, bcs, y, before, b);
            H_CHECK(near(got[b], want, want + maxAbs(y)), w << ": boundary value " << b << " is " << str(got[b]) << " instead of " << str(want) << " as its condition says");
            H::count("boundary values compared");
        }
    }
};
dsl::Expression<scalar> expression(Case& c, bool ddtFirst, K* ddtK, K* ddtE = nullptr)
{
    std::optional<dsl::Expression<scalar>> ex;
    ex.emplace(c.e);
    auto addDdt = [&]
    {
        if (ddtK) ex->addOperator(ddtK->times(dsl::imp::ddt(*c.phi)));
    };
    if (ddtFirst) addDdt();
    if (ddtE) ex->addOperator(ddtE->times(dsl::TemporalOperator<scalar>(fvcc::DdtOperator<scalar>(dsl::Operator::Type::Explicit, *c.phi))));
    for (auto& t : c.terms)
    {
        auto op = c.op(t);
        if (t.sign < 0 || c.r.chance(0.5))
        {
            auto next = t.sign < 0 ? *ex - op : *ex + op;
            ex.emplace(next);
        }
        else ex->addOperator(op);
    }
    if (!ddtFirst) addDdt();
    return *ex;
}
// residual of the equation: ddt (per volume and step, may be absent) plus all terms
void checkEquation(Case& c, const K* ddtK, double dt, const std::vector<scalar>& y, const std::vector<scalar>& old, const std::vector<scalar>& oldB, const std::string& w, const std::vector<scalar>* stored = nullptr)
{
    std::vector<double> sum(c.h.nCells, 0), mag(c.h.nCells, 0);
    for (auto& t : c.terms) c.contribution(t, y, old, oldB, sum, mag);
    for (std::size_t i = 0; ddtK && i < c.h.nCells; ++i)
    {
        const double prev = (stored ? *stored : old)[i];
        sum[i] += ddtK->k[i] * c.h.V[i] * (y[i] - prev) / dt;
        mag[i] += std::fabs(ddtK->k[i]) * c.h.V[i] * (std::fabs(y[i]) + std::fabs(prev)) / dt;
    }
    double scale = maxAbs(mag);
    for (std::size_t i = 0; i < c.h.nCells; ++i)
    {
        H_CHECK(near(sum[i], 0, scale, 1e-9), w << ": the terms of the equation sum to " << str(sum[i]) << " in cell " << i << " (largest contributions " << str(mag[i]) << ")");
        H::count("cells in which the equation was balanced");
    }
}
// a system without a (reasonable) solution must at least be that of the equation, up to a factor
[[maybe_unused]] void checkSingular(Case& c, const K* ddtK, double dt, const std::vector<scalar>& old, const std::vector<scalar>& oldB, const std::string& w, const std::vector<scalar>* stored = nullptr)
{
    auto& y = seenSolves.y;
    std::vector<double> sum(c.h.nCells, 0), mag(c.h.nCells, 0);
    for (auto& t : c.terms) c.contribution(t, y, old, oldB, sum, mag);
    for (std::size_t i = 0; ddtK && i < c.h.nCells; ++i)
    {
        const double prev = (stored ? *stored : old)[i];
        sum[i] += ddtK->k[i] * c.h.V[i] * (y[i] - prev) / dt;
        mag[i] += std::fabs(ddtK->k[i]) * c.h.V[i] * (std::fabs(y[i]) + std::fabs(prev)) / dt;
    }
    double scale = maxAbs(mag), big = maxAbs(sum), rs = 0, ss = 0;
    H::count("singular systems skipped");
    if (big <= 1e-6 * scale) return;
    for (std::size_t i = 0; i < c.h.nCells; ++i) rs += seenSolves.residual[i] / big * (sum[i] / big), ss += sum[i] / big * (sum[i] / big);
    double factor = rs / ss;
    H_CHECK(std::fabs(factor) > 1e-6, w << ": the system handed to the linear solver is not that of the equation (the terms sum to up to " << str(maxAbs(sum)) << ", its residual is " << str(maxAbs(seenSolves.residual)) << ")");
    for (std::size_t i = 0; i < c.h.nCells; ++i)
        H_CHECK(near(seenSolves.residual[i] / factor, sum[i], scale, 1e-9), w << ": row " << i << " of the (singular) system leaves " << str(seenSolves.residual[i]) << " where the terms of the equation sum to " << str(sum[i]) << " times " << str(factor));
    H::count("rows of singular systems compared", c.h.nCells);
}
void inputsUnchanged(Case& c, const std::string& w)
{
    expectEq(values(c.flux->internalField()), c.fl, w + ": flux must not change");
    expectEq(values(c.gamma->internalField()), c.gam, w + ": diffusivity must not change");
    expectEq(values(c.psi->internalField()), c.psiV, w + ": other field must not change");
    for (int i = 0; i < 2; ++i) expectEq(values(c.coef[(std::size_t)i]->internalField()), c.cf[(std::size_t)i], w + ": coefficients must not change");
}
#if WHAT == 2
void one(Rng& r, bool thorough)
{
    Case c(r, thorough, false);
    sigMesh(c.h);
    // an implicit term that makes the system regular, and any others
    c.add(r.chance(0.5) ? ImpSource : ImpLap);
    auto n = r.below(thorough ? 8 : 5);
    for (std::size_t i = 0; i < n; ++i) c.add((TK)r.below(nTK), r.chance(0.5) ? 1 : -1);
    c.schemes("");
    H::ctx().notes = "steady equation on " + exName(c.e) + ":" + c.text + "; " + describe(c.h);
    H::sample(H::ctx().notes.substr(0, 300));
    auto ex = expression(c, false, nullptr);
    auto rounds = 1 + r.below(3);
    for (std::size_t i = 0; i < rounds; ++i)
    {
        auto old = values(c.phi->internalField()), oldB = values(c.phi->boundaryField().value());
        seenSolves = {};
        dsl::solve(ex, *c.phi, 0.0, r.dyadic(), c.fvSchemes, c.fvSolution);
        H_CHECK(seenSolves.n == 1 && seenSolves.exec == c.e.index(), "the linear solver was called " << seenSolves.n << " times");
        H_CHECK(seenSolves.mark == c.mark, "the linear solver was set up from other settings than those of the solution dictionary");
        if (seenSolves.singular)
        {
            checkSingular(c, nullptr, 1, old, oldB, "steady equation");
            return;
        }
        auto y = values(c.phi->internalField());
        checkEquation(c, nullptr, 1, y, old, oldB, "steady equation");
        c.boundaries(y, oldB, "after solving");
        inputsUnchanged(c, "solving");
        H::count("steady equations solved");
    }
    if (r.chance(0.05))
    {
        dsl::Expression<scalar> none(c.e);
        auto x = H::inChild([&] { dsl::solve(none, *c.phi, 0.0, 1.0, c.fvSchemes, c.fvSolution); });
        H_CHECK(x.exited && x.code == 1, "an equation without terms must be refused (code " << x.code << " signal " << x.signal << ")");
    }
}
#elif WHAT == 5
// A*y - b of the assembled system against the terms written out
void compareSystem(Case& c, const Sys<scalar>& s, const K* ddtK, const K* ddtE, double dt, const std::vector<scalar>& y, const std::vector<scalar>& old, const std::vector<scalar>& prev, const std::vector<scalar>& oldB, const std::string& w)
{
    std::vector<double> sum(c.h.nCells, 0), mag(c.h.nCells, 0);
    for (auto& t : c.terms) c.contribution(t, y, old, oldB, sum, mag);
    for (std::size_t i = 0; ddtK && i < c.h.nCells; ++i)
    {
        sum[i] += ddtK->k[i] * c.h.V[i] * (y[i] - prev[i]) / dt;
        mag[i] += std::fabs(ddtK->k[i]) * c.h.V[i] * (std::fabs(y[i]) + std::fabs(prev[i])) / dt;
    }
    for (std::size_t i = 0; ddtE && i < c.h.nCells; ++i)
    {
        sum[i] += ddtE->k[i] * c.h.V[i] * (old[i] - prev[i]) / dt;
        mag[i] += std::fabs(ddtE->k[i]) * c.h.V[i] * (std::fabs(old[i]) + std::fabs(prev[i])) / dt;
    }
    auto res = s.residual(y);
    double scale = maxAbs(mag);
    for (std::size_t i = 0; i < c.h.nCells; ++i)
    {
        H_CHECK(near(res[i], sum[i], scale, 1e-9), w << ": row " << i << " of the assembled system gives " << str(res[i]) << " where the terms of the equation sum to " << str(sum[i]));
        H::count("rows compared with the terms");
    }
}
void one(Rng& r, bool thorough)
{
    Case c(r, thorough, false);
    sigMesh(c.h);
    bool transient = r.chance(0.4);
    if (r.chance(0.7) || !transient) c.add(r.chance(0.5) ? ImpSource : ImpLap);
    auto n = r.below(thorough ? 8 : 5);
    for (std::size_t i = 0; i < n; ++i) c.add((TK)r.below(nTK), r.chance(0.5) ? 1 : -1);
    c.schemes(transient ? "backwardEuler" : "");
    K ddtK(r, c.e, c.h.nCells), ddtE(r, c.e, c.h.nCells);
    bool lagged = transient && r.chance(0.4); // a time derivative of the current values as well
    H::ctx().notes = "assembled equation on " + exName(c.e) + ":" + (transient ? " ddt" + ddtK.str() : "") + (lagged ? " explicit ddt" + ddtE.str() : "") + c.text + "; " + describe(c.h);
    H::sample(H::ctx().notes.substr(0, 300));
    auto ex = expression(c, r.chance(0.5), transient ? &ddtK : nullptr, lagged ? &ddtE : nullptr);
    if (lagged) H::count("equations with an explicit time derivative");
    std::vector<scalar> prev(c.h.nCells);
    if (transient)
    {
        prev = rndVec<scalar>(r, c.h.nCells);
        poke(fvcc::oldTime(*c.phi).internalField(), prev);
    }
    using Ex = fvcc::Expression<scalar>;
    std::optional<Ex> first;
    first.emplace(ex, *c.phi, c.fvSchemes, c.fvSolution);
    Ex* eq = &*first;
    std::optional<Ex> second;
    H_CHECK(eq->exec() == c.e && &eq->getField() == c.phi && &std::as_const(*eq).getField() == c.phi, "executor and field of the equation");
    auto rounds = 1 + r.below(thorough ? 5 : 3);
    for (std::size_t round = 0; round < rounds; ++round)
    {
        std::string w = "round " + std::to_string(round);
        if (round && r.chance(0.5))
        {
            // the solution has changed since
            poke(c.phi->internalField(), rndVec<scalar>(r, c.h.nCells));
            c.phi->correctBoundaryConditions();
        }
        auto old = values(c.phi->internalField()), oldB = values(c.phi->boundaryField().value());
        double dt = r.pick({0.125, 0.5, 1.0});
        if (transient || r.chance(0.5)) eq->assemble(r.dyadic(), dt);
        else eq->assemble();
        if (r.chance(0.3))
        {
            // copies keep their own system
            if (second) first.emplace(*second), second.reset(), eq = &*first;
            else second.emplace(*first), first.reset(), eq = &*second;
            H::count("equations copied");
        }
        Sys<scalar> s(eq->linearSystem());
        H_CHECK(s.n() == c.h.nCells, "one row per cell");
        expectEq(values(c.phi->internalField()), old, w + ": solution after assembling");
        inputsUnchanged(c, w);
        for (int k = 0; k < 2; ++k)
        {
            auto y = k ? rndVec<scalar>(r, c.h.nCells) : old;
            compareSystem(c, s, transient ? &ddtK : nullptr, lagged ? &ddtE : nullptr, dt, y, old, prev, oldB, w);
            // the residual as a field
            auto yB = rndVec<scalar>(r, c.h.nBnd);
            fvcc::VolumeField<scalar> yF = volField<scalar>(r, c.e, *c.m, y, rndBCs<scalar>(r, c.h, {0, 3}), "y" + std::to_string(k));
            auto res = *eq & yF;
            H_CHECK(res.exec() == c.e && &res.mesh() == c.m.get() && res.name == "ls_" + yF.name, w << ": residual field '" << res.name << "'");
            auto got = values(res.internalField());
            auto want = s.residual(y), scale = s.scale(y);
            H_CHECK(got.size() == c.h.nCells, w << ": one residual per cell");
            for (std::size_t i = 0; i < c.h.nCells; ++i) H_CHECK(near(got[i], want[i], scale[i]), w << ": residual of cell " << i << " is " << str(got[i]) << " instead of " << str(want[i]));
            expectEq(values(yF.internalField()), y, w + ": operand of the residual");
            H::count("residuals compared", c.h.nCells);
        }
        {
            Sys<scalar> again(eq->linearSystem());
            H_CHECK(again.sameStructure(s), w << ": structure of the system");
            expectEq(again.val, s.val, w + ": coefficients after taking residuals");
            expectEq(again.b, s.b, w + ": right-hand side after taking residuals");
        }
        if (r.chance(0.5))
        {
            // pinning a cell changes its diagonal coefficient and its right-hand side only
            auto cell = (localIdx)r.below(c.h.nCells);
            scalar v = r.dyadic();
            eq->setReference(cell, v);
            Sys<scalar> p(eq->linearSystem());
            H_CHECK(p.sameStructure(s), w << ": structure of the system after setReference");
            double diag = 0;
            for (auto k = s.rp[cell]; k < s.rp[cell + 1]; ++k)
                if (s.ci[k] == cell) diag = s.val[k];
            for (std::size_t i = 0; i < s.n(); ++i)
            {
                double b = s.b[i] + (i == cell ? diag * v : 0.0);
                H_CHECK(near(p.b[i], b, std::fabs(s.b[i]) + std::fabs(diag * v)), w << ": right-hand side " << i << " after setting the reference " << str(v) << " in cell " << cell << " is " << str(p.b[i]) << " instead of " << str(b));
                for (auto k = s.rp[i]; k < s.rp[i + 1]; ++k)
                {
                    double a = s.val[k] + (i == cell && s.ci[k] == cell ? diag : 0.0);
                    H_CHECK(near(p.val[k], a, std::fabs(a)), w << ": coefficient (" << i << "," << s.ci[k] << ") after setting the reference in cell " << cell << " is " << str(p.val[k]) << " instead of " << str(a));
                }
            }
            s = p;
            H::count("reference cells set");
        }
        if (!transient && r.chance(0.6))
        {
            seenSolves = {};
            eq->solve(0.0, dt);
            H_CHECK(seenSolves.n == 1 && seenSolves.exec == c.e.index() && seenSolves.mark == c.mark, w << ": the linear solver of the solution dictionary was called " << seenSolves.n << " times");
            if (seenSolves.singular)
            {
                H::count("singular systems skipped");
                return;
            }
            {
                Sys<scalar> again(eq->linearSystem());
                H_CHECK(again.sameStructure(s), w << ": structure of the system after solving");
                expectEq(again.val, s.val, w + ": coefficients after solving");
                expectEq(again.b, s.b, w + ": right-hand side after solving");
            }
            auto y = values(c.phi->internalField());
            auto res = s.residual(y);
            auto mag = s.scale(y);
            double scale = maxAbs(mag);
            for (std::size_t i = 0; i < c.h.nCells; ++i) H_CHECK(near(res[i], 0, scale, 1e-9), w << ": the solution leaves the residual " << str(res[i]) << " in cell " << i);
            c.phi->correctBoundaryConditions();
            H::count("assembled equations solved");
        }
        H::count("equations assembled");
    }
#ifndef NFM_THREADS // (the threads are not there in a child)
    if (r.chance(0.05))
    {
        dsl::Expression<scalar> none(c.e);
        auto x = H::inChild([&] {
            Ex empty(none, *c.phi, c.fvSchemes, c.fvSolution);
            if (r.chance(0.5)) empty.solve(0.0, 1.0);
            else empty.assemble();
        });
        H_CHECK(x.exited && x.code == 1, "an equation without terms must be refused (code " << x.code << " signal " << x.signal << ")");
    }
#endif
}
#else
constexpr bool IMPLICIT = WHAT == 3;
constexpr bool RK = WHAT == 4;
using TI = timeIntegration::TimeIntegration<fvcc::VolumeField<scalar>>;
void explicitStep(Case& c, double dt, const std::vector<scalar>& y, const std::vector<scalar>& old, const std::vector<scalar>& oldB, const std::string& w, const std::vector<scalar>* stored = nullptr)
{
    std::vector<double> sum(c.h.nCells, 0), mag(c.h.nCells, 0);
    for (auto& term : c.terms) c.contribution(term, y, old, oldB, sum, mag);
    for (std::size_t i = 0; i < c.h.nCells; ++i)
    {
        const double prev = (stored ? *stored : old)[i];
            double want = prev - dt * sum[i] / c.h.V[i];
        H_CHECK(near(y[i], want, std::fabs(prev) + dt * mag[i] / c.h.V[i]), w << ": cell " << i << " is " << str(y[i]) << " instead of " << str(want));
        H::count("cells compared");
    }
}
void one(Rng& r, bool thorough)
{
    Case c(r, thorough, !IMPLICIT);
    sigMesh(c.h);
    auto n = (IMPLICIT ? 0 : 1) + r.below(thorough ? 8 : 5);
    for (std::size_t i = 0; i < n; ++i) c.add((TK)(IMPLICIT ? r.below(nTK) : ExpSource + r.below(3)), r.chance(0.5) ? 1 : -1);
    c.schemes(IMPLICIT ? "backwardEuler" : RK ? "Runge-Kutta" : "forwardEuler");
    K ddtK(r, c.e, c.h.nCells, !IMPLICIT);
    if (IMPLICIT)
    {
        // keep the time derivative in every cell
        if (ddtK.s == 0) ddtK.s = 1.0;
        std::vector<scalar> f(c.h.nCells);
        for (auto& v : f) v = r.posDyadic();
        if (ddtK.hasField)
        {
            ddtK.f = f;
            poke(*ddtK.dev, f);
        }
        for (std::size_t i = 0; i < c.h.nCells; ++i) ddtK.k[i] = ddtK.s * (ddtK.hasField ? f[i] : 1.0);
    }
    H::ctx().notes = std::string(IMPLICIT ? "implicit Euler" : RK ? "Runge-Kutta" : "explicit Euler") + " on " + exName(c.e) + ": ddt" + ddtK.str() + c.text + "; " + describe(c.h);
    H::sample(H::ctx().notes.substr(0, 300));
    std::vector<std::vector<TermDef>> former;
    std::optional<dsl::Expression<scalar>> ex;
    ex.emplace(expression(c, r.chance(0.5), &ddtK));
    Dictionary ddt = c.fvSchemes.subDict("ddtSchemes");
    // steps go through dsl::solve, through an integrator kept alive, or through a copy of it
    std::optional<TI> kept;
    bool touchOld = r.chance(0.3);
    if (touchOld) fvcc::oldTime(*c.phi);
    auto steps = 1 + r.below(thorough ? 8 : 4);
    double t = r.dyadic();
    for (std::size_t s = 0; s < steps; ++s)
    {
        double dt = r.pick({0.125, 0.5, 0.0078125, 1e-3, 1.0});
        if (s && r.chance(0.25))
        {
            // another equation for the same field
            former.push_back(std::move(c.terms));
            c.terms.clear();
            c.text += " | then";
            auto k = (IMPLICIT ? 0 : 1) + r.below(4);
            for (std::size_t i = 0; i < k; ++i)
            {
                auto kind = (TK)(IMPLICIT ? r.below(nTK) : ExpSource + r.below(3));
                c.add(kind == ImpDiv && c.scheme != "upwind" ? ImpLap : kind, r.chance(0.5) ? 1 : -1);
            }
            H::ctx().notes += c.text;
            ex.reset();
            ex.emplace(expression(c, r.chance(0.5), &ddtK));
            ex->build(c.fvSchemes);
            H::count("equations replaced between steps");
        }
        if (s && r.chance(0.2))
        {
            // the state is set anew, as by a restart
            auto v = rndVec<scalar>(r, c.h.nCells);
            poke(c.phi->internalField(), v);
            c.phi->correctBoundaryConditions();
            poke(fvcc::oldTime(*c.phi).internalField(), v);
            t = r.dyadic();
            H::count("states replaced between steps");
        }
        std::optional<std::vector<scalar>> stored;
        if (!RK && r.chance(0.15))
        {
            // the values have been changed since the old ones were stored, as by an outer iteration
            stored = values(fvcc::oldTime(*c.phi).internalField());
            poke(c.phi->internalField(), rndVec<scalar>(r, c.h.nCells));
            c.phi->correctBoundaryConditions();
            H::count("steps from a changed field");
        }
        if (kept && r.chance(0.15))
        {
            // the integrator takes a step of another equation, for a field of another size
            Case o(r, thorough, !IMPLICIT);
            o.add(IMPLICIT ? ImpSource : ExpSource);
            if (r.chance(0.5)) o.add(IMPLICIT ? ImpLap : ExpFlux);
            K oK(r, o.e, o.h.nCells);
            o.schemes("");
            auto oEx = expression(o, r.chance(0.5), &oK);
            oEx.build(o.fvSchemes);
            auto oOld = values(o.phi->internalField()), oOldB = values(o.phi->boundaryField().value());
            seenSolves = {};
            kept->solve(oEx, *o.phi, r.dyadic(), dt);
            auto oY = values(o.phi->internalField());
            std::string w = "step of another equation, " + o.text + " on " + std::to_string(o.h.nCells) + " cells, size " + str(dt);
            if (!IMPLICIT) explicitStep(o, dt, oY, oOld, oOldB, w);
            else if (seenSolves.singular) checkSingular(o, &oK, dt, oOld, oOldB, w);
            else checkEquation(o, &oK, dt, oY, oOld, oOldB, w);
            if (!seenSolves.singular) o.boundaries(oY, oOldB, w);
            inputsUnchanged(o, w);
            H::count("steps of another equation by the same integrator");
        }
        auto old = values(c.phi->internalField()), oldB = values(c.phi->boundaryField().value());
        double big = maxAbs(old);
        if (std::max(big, stored ? maxAbs(*stored) : 0.0) > 1e8) break;
        seenSolves = {};
        int how = (int)r.below(3);
        if (how == 0 || !kept)
        {
            dsl::solve(*ex, *c.phi, t, dt, c.fvSchemes, c.fvSolution);
            if (how) kept.emplace(ddt, c.fvSolution);
        }
        else if (how == 1) kept->solve(*ex, *c.phi, t, dt);
        else
        {
            TI copy(*kept);
            TI moved(std::move(copy));
            moved.solve(*ex, *c.phi, t, dt);
        }
        auto y = values(c.phi->internalField());
        std::string w = "step " + std::to_string(s) + " of size " + str(dt);
        if (IMPLICIT)
        {
            H_CHECK(seenSolves.n == 1 && seenSolves.exec == c.e.index(), w << ": the linear solver was called " << seenSolves.n << " times");
            H_CHECK(seenSolves.mark == c.mark, w << ": the linear solver was set up from other settings than those of the solution dictionary");
            if (seenSolves.singular)
            {
                checkSingular(c, &ddtK, dt, old, oldB, w, stored ? &*stored : nullptr);
                return;
            }
            checkEquation(c, &ddtK, dt, y, old, oldB, w, stored ? &*stored : nullptr);
        }
        else
        {
            explicitStep(c, dt, y, old, oldB, w, stored ? &*stored : nullptr);
            H_CHECK(seenSolves.n == 0, w << ": an explicit step needs no linear solver");
        }
        c.boundaries(y, oldB, w);
        inputsUnchanged(c, w);
        auto& o = fvcc::oldTime(*c.phi);
        expectEq(values(o.internalField()), y, w + ": stored old value");
        t += dt;
        H::count("time steps taken");
    }
#if WHAT == 4
    if (r.chance(0.1))
    {
        auto x = H::inChild(
            [&]
            {
                ddt.remove("Runge-Kutta-Method");
                ddt.insert("Runge-Kutta-Method", std::string(r.pick({"Heun", "Midpoint", "RK4", ""})));
                TI other(ddt, c.fvSolution);
                other.solve(*ex, *c.phi, t, 0.125);
            }
        );
        H_CHECK(x.exited && x.code == 1, "a method which is not supported must be refused (code " << x.code << " signal " << x.signal << ")");
        H::count("unsupported methods refused");
    }
    auto& sun = NfmSundials::get();
    kept.reset();
    Kokkos::fence();
    H_CHECK(sun.contexts == 0 && sun.arks == 0 && sun.vectors == 0, "solver memory is left behind when the integrators are gone: " << sun.contexts << " contexts, " << sun.arks << " integrators, " << sun.vectors << " vectors");
    H::count("right-hand sides evaluated by the ODE solver", (std::uint64_t)sun.rhs);
    sun.rhs = 0;
#endif
}
#endif
} // namespace

void runCase(H::Ctx& c)
{
    Rng& r = c.rng;
    for (int i = 0; i < 3; ++i)
    {
        hostileSchedule(r);
        one(r, c.thorough);
        Kokkos::fence();
    }
}
