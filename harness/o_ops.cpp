// O01..O07: the finite-volume operators against their defining sums (-DWHAT=1..7).
#include "terms.hpp"
using namespace FV;
FV_MAIN

namespace
{
Input divInput(Rng& r, const std::string& scheme, bool dict)
{
    if (!dict) return TokenList({std::string("Gauss"), scheme});
    Dictionary d;
    d.insert("DivOperator", std::string("Gauss"));
    d.insert("surfaceInterpolation", scheme);
    (void)r;
    return d;
}
template<typename T>
Field<T> zeroField(const Executor& e, std::size_t n)
{
    return field(e, std::vector<T>(n, T {}));
}
// divergence-free flux on a box mesh: uniform velocity
std::vector<scalar> uniformFlow(Rng& r, const HMesh& h)
{
    Vector u(r.dyadic(), r.dyadic(), r.dyadic());
    std::vector<scalar> fl(h.nFaces());
    for (std::size_t f = 0; f < h.nFaces(); ++f) fl[f] = u & h.Sf[f];
    return fl;
}

#if WHAT == 1
template<typename T>
void one(Rng& r, bool thorough)
{
    Executor e = anyExec(r);
    bool flow = r.chance(0.25);
    HMesh h = flow ? boxMesh(r, thorough ? 4 : 3) : sizedMesh(r, thorough);
    bool up = r.chance(0.5), dict = r.chance(0.4);
    auto m = build(e, h);
    auto x = rndVec<T>(r, h.nCells);
    auto phi = volField<T>(r, e, *m, x, rndBCs<T>(r, h, {0, 2, 3, 4}));
    if (r.chance(0.6)) phi.correctBoundaryConditions();
    auto fl = flow ? uniformFlow(r, h) : rndFluxes(r, h.nFaces());
    T cst = rnd<T>(r);
    if (flow)
    {
        x.assign(h.nCells, cst);
        poke(phi.internalField(), x);
        poke(phi.boundaryField().value(), std::vector<T>(h.nBnd, cst));
    }
    auto flux = surfField<scalar>(r, e, *m, fl, rndBCs<scalar>(r, h, {0}), "phi");
    phi.name = "T";
    K k(r, e, h.nCells);
    H::ctx().notes = std::string(up ? "upwind" : "linear") + " explicit divergence of a " + tname<T>() + " field on " + exName(e) + k.str() + ": " + describe(h);
    sigMesh(h);
    Snap<T> s0(phi);
    Snap<scalar> f0(flux);
    auto pf = up ? upwindFace(h, x, s0.val, fl) : linearFace(h, x, s0.val);
    std::vector<T> face(h.nFaces());
    for (std::size_t f = 0; f < h.nFaces(); ++f) face[f] = fl[f] * pf[f];
    Sums<T> want(h, face);
    auto check = [&](const std::vector<T>& got, const std::vector<scalar>& kk, const std::string& w)
    {
        compareCells(h, got, want, kk, w);
        s0.unchanged(phi, w + ": transported field");
        f0.unchanged(flux, w + ": flux");
        if (k.uniform() && &kk == &k.k) conservation(h, got, face, k.s, w);
        if (flow)
        {
            for (std::size_t c = 0; c < h.nCells; ++c)
                H_CHECK(near(got[c], T {}, std::fabs(kk[c]) * want.a[c] / h.V[c]), w << ": divergence of a constant in a divergence-free flux is " << str(got[c]) << " in cell " << c);
            H::count("constants in divergence-free fluxes");
        }
    };
    auto op = fvcc::DivOperatorFactory<T>::create(e, *m, divInput(r, up ? "upwind" : "linear", dict));
    auto out = field(e, rndVec<T>(r, h.nCells)); // (whatever the result held before)
    op->div(out, flux, phi, k.coeff());
    check(values(out), k.k, "div into a field");
    auto vout = volField<T>(r, e, *m, rndVec<T>(r, h.nCells), rndBCs<T>(r, h, {0, 3}), "out");
    Snap<T> o0(vout);
    op->clone()->div(vout, flux, phi, k.coeff());
    check(values(vout.internalField()), k.k, "cloned operator, div into a volume field");
    o0.boundaryUnchanged(vout, "div into a volume field: result");
    auto ret = op->div(flux, phi, k.coeff());
    check(values(ret.internalField()), k.k, "returned divergence field");
    H_CHECK(ret.name == "div(phi,T)" && ret.exec() == e, "name and executor of the returned field: " << ret.name);
    // through the operator object, built directly or later from the schemes
    TokenList tl({std::string("Gauss"), std::string(up ? "upwind" : "linear")});
    Dictionary schemes, ds;
    ds.insert("div(phi,T)", tl);
    schemes.insert("divSchemes", ds);
    bool late = r.chance(0.5);
    using D = fvcc::DivOperator<T>;
    D a = late ? D(dsl::Operator::Type::Explicit, flux, phi) : D(dsl::Operator::Type::Explicit, flux, phi, Input(tl));
    if (late) a.build(r.chance(0.5) ? Input(schemes) : Input(tl));
    a.getCoefficient() *= k.coeff();
    D b(a);
    a.div(out);
    check(values(out), k.k, "operator object");
    b.div(vout);
    check(values(vout.internalField()), k.k, "copied operator object");
    // explicitOperation adds
    auto base = rndVec<T>(r, h.nCells);
    auto src = field(e, base);
    dsl::SpatialOperator<T> so = b;
    so.explicitOperation(src);
    auto got = values(src);
    for (std::size_t c = 0; c < h.nCells; ++c) got[c] = got[c] - base[c];
    for (std::size_t c = 0; c < h.nCells; ++c)
    {
        T d = h.V[c] * got[c], wv = k.k[c] * want.v[c];
        H_CHECK(near(d, wv, std::fabs(k.k[c]) * want.a[c] + h.V[c] * magOf(base[c])), "explicit operation must add its divergence in cell " << c << ": added " << str(d) << " instead of " << str(wv) << " (times volume)");
    }
    H_CHECK(so.getType() == dsl::Operator::Type::Explicit && so.getName() == "DivOperator", "type and name of the operator");
    if constexpr (std::is_same_v<T, scalar>)
    {
        auto lang = k.times(dsl::exp::div(flux, phi));
        lang.build(Input(schemes));
        poke(src, std::vector<T>(h.nCells, T {}));
        lang.explicitOperation(src);
        check(values(src), k.k, "exp::div");
    }
}
#elif WHAT == 2 || WHAT == 4
template<typename T>
void one(Rng& r, bool thorough)
{
    constexpr bool LAP = WHAT == 4;
    Executor e = anyExec(r);
    MeshOpt mo;
    mo.maxDegree = 200;
    HMesh h = sizedMesh(r, thorough, mo);
    auto m = build(e, h);
    bool lagged = r.chance(0.3);
    auto bcs = lagged ? rndBCs<T>(r, h, {2, 3, 4}) : rndBCs<T>(r, h, {3, 4});
    auto x = rndVec<T>(r, h.nCells);
    auto phi = volField<T>(r, e, *m, x, bcs, "T");
    phi.correctBoundaryConditions();
    auto fl = rndFluxes(r, h.nFaces());
    if (LAP)
        for (auto& g : fl) g = r.chance(0.15) ? 0.0 : r.posDyadic();
    auto flux = surfField<scalar>(r, e, *m, fl, rndBCs<scalar>(r, h, {0}), "phi");
    K k(r, e, h.nCells);
    H::ctx().notes = std::string("implicit ") + (LAP ? "Laplacian" : "divergence") + " of a " + tname<T>() + " field on " + exName(e) + k.str() + ": " + describe(h);
    sigMesh(h);
    Snap<T> s0(phi);
    Snap<scalar> f0(flux);
    // reference: sum over faces for a field x that satisfies the boundary conditions
    auto faces = [&](const std::vector<T>& y)
    {
        std::vector<T> bv(h.nBnd), out(h.nFaces());
        for (std::size_t b = 0; b < h.nBnd; ++b) bv[b] = bcValue<T>(h, bcs, y, s0.val, b);
        auto v = LAP ? normalGrad(h, y, bv) : upwindFace(h, y, bv, fl);
        for (std::size_t f = 0; f < h.nFaces(); ++f) out[f] = fl[f] * (LAP ? h.magSf[f] : 1.0) * v[f];
        return out;
    };
    auto sp = fvcc::SparsityPattern::readOrCreate(*m);
    auto apply = [&](auto&& assemble, const std::string& w)
    {
        auto ls = la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*sp);
        auto a0 = rndVec<T>(r, ls.matrix().values().size());
        if (trace) a0.assign(a0.size(), T {}); // (their place depends on the order of entries)
        auto b0 = rndVec<T>(r, ls.rhs().size());
        poke(ls.matrix().values(), a0);
        poke(ls.rhs(), b0);
        Sys<T> before(ls);
        assemble(ls);
        Sys<T> after(ls);
        H_CHECK(after.sameStructure(before), w << ": the structure of the matrix changed");
        s0.unchanged(phi, w + ": field");
        f0.unchanged(flux, w + ": flux / diffusivity");
        auto test = [&](const std::vector<T>& y, const std::string& what)
        {
            Sums<T> s(h, faces(y));
            auto p = after.residual(y), q = before.residual(y);
            auto sc = after.scale(y), sq = before.scale(y);
            for (std::size_t c = 0; c < h.nCells; ++c)
            {
                T got = p[c] - q[c], want = k.k[c] * s.v[c];
                H_CHECK(near(got, want, std::fabs(k.k[c]) * s.a[c] + sc[c] + sq[c]), w << ": (A x - b) in row " << c << " for " << what << " is " << str(got) << " instead of " << str(want));
                H::count("rows compared");
            }
        };
        test(x, "the current field");
        if (!lagged)
        {
            for (int i = 0; i < 2; ++i) test(rndVec<T>(r, h.nCells), "another field satisfying the boundary conditions");
            test(std::vector<T>(h.nCells, T {}), "zero");
        }
        if (LAP && h.nCells < 20)
        {
            // internal part: symmetric (for a uniform coefficient) with zero row sums
            auto d = after.dense();
            auto z = before.dense();
            for (std::size_t i = 0; i < h.nCells; ++i)
                for (std::size_t j = 0; j < i; ++j)
                {
                    T u = d[i * h.nCells + j] - z[i * h.nCells + j], l = d[j * h.nCells + i] - z[j * h.nCells + i];
                    if (k.uniform()) H_CHECK(near(u, l, 100 * (magOf(u) + 60)), w << ": entries (" << i << "," << j << ") and its mirror differ: " << str(u) << " " << str(l));
                }
        }
    };
    TokenList tl = LAP ? TokenList({std::string("Gauss"), std::string("linear"), std::string("uncorrected")}) : TokenList({std::string("Gauss"), std::string("upwind")});
    Dictionary schemes, ds;
    ds.insert(LAP ? "laplacian(phi,T)" : "div(phi,T)", tl);
    schemes.insert(LAP ? "laplacianSchemes" : "divSchemes", ds);
    using D = std::conditional_t<LAP, fvcc::LaplacianOperator<T>, fvcc::DivOperator<T>>;
    using FA = std::conditional_t<LAP, fvcc::LaplacianOperatorFactory<T>, fvcc::DivOperatorFactory<T>>;
    auto op = FA::create(e, *m, Input(tl));
    apply([&](auto& ls)
          {
              if constexpr (LAP) op->laplacian(ls, flux, phi, k.coeff());
              else op->div(ls, flux, phi, k.coeff());
          }, "operator strategy");
    bool late = r.chance(0.5);
    D a = late ? D(dsl::Operator::Type::Implicit, flux, phi) : D(dsl::Operator::Type::Implicit, flux, phi, Input(tl));
    if (late) a.build(r.chance(0.5) ? Input(schemes) : Input(tl));
    a.getCoefficient() *= k.coeff();
    D b(a);
    apply([&](auto& ls) { b.implicitOperation(ls); }, "copied operator object");
    dsl::SpatialOperator<T> lang = [&]
    {
        if constexpr (LAP) return k.times(dsl::imp::laplacian(flux, phi));
        else return k.times(dsl::imp::div(flux, phi));
    }();
    lang.build(Input(schemes));
    dsl::SpatialOperator<T> lang2(lang);
    apply([&](auto& ls) { lang2.implicitOperation(ls); }, LAP ? "imp::laplacian" : "imp::div");
    H_CHECK(lang2.getType() == dsl::Operator::Type::Implicit, "type of the operator");
}
#elif WHAT == 3
template<typename T>
void one(Rng& r, bool thorough)
{
    Executor e = anyExec(r);
    bool box = r.chance(0.3);
    HMesh h = box ? boxMesh(r, thorough ? 4 : 3) : sizedMesh(r, thorough);
    auto m = build(e, h);
    auto x = rndVec<T>(r, h.nCells);
    auto phi = volField<T>(r, e, *m, x, rndBCs<T>(r, h, {0, 2, 3, 4}), "T");
    if (r.chance(0.6)) phi.correctBoundaryConditions();
    std::vector<scalar> g(h.nFaces());
    for (auto& v : g) v = r.chance(0.15) ? 0.0 : r.posDyadic();
    int special = box ? (int)r.below(3) : r.chance(0.1) ? 1 : 0; // 1: constant, 2: linear profile with unit diffusivity
    if (special)
    {
        T dir = rnd<T>(r);
        Vector slope(r.dyadic(), r.dyadic(), r.dyadic());
        std::vector<T> b(h.nBnd);
        for (std::size_t i = 0; i < h.nCells; ++i) x[i] = special == 1 ? dir : (slope & h.C[i]) * dir;
        for (std::size_t i = 0; i < h.nBnd; ++i) b[i] = special == 1 ? dir : (slope & h.Cf[h.nInt + i]) * dir;
        poke(phi.internalField(), x);
        poke(phi.boundaryField().value(), b);
        if (special == 2) g.assign(h.nFaces(), r.pick({1.0, 2.5}));
    }
    auto gamma = surfField<scalar>(r, e, *m, g, rndBCs<scalar>(r, h, {0}), "nu");
    K k(r, e, h.nCells);
    H::ctx().notes = std::string("explicit Laplacian of a ") + tname<T>() + " field on " + exName(e) + k.str() + ": " + describe(h);
    sigMesh(h);
    Snap<T> s0(phi);
    Snap<scalar> f0(gamma);
    auto ng = normalGrad(h, x, s0.val);
    std::vector<T> face(h.nFaces());
    for (std::size_t f = 0; f < h.nFaces(); ++f) face[f] = g[f] * h.magSf[f] * ng[f];
    Sums<T> want(h, face);
    auto check = [&](const std::vector<T>& got, const std::string& w)
    {
        compareCells(h, got, want, k.k, w);
        s0.unchanged(phi, w + ": field");
        f0.unchanged(gamma, w + ": diffusivity");
        if (k.uniform()) conservation(h, got, face, k.s, w);
        if (special)
        {
            for (std::size_t c = 0; c < h.nCells; ++c)
                H_CHECK(near(got[c], T {}, std::fabs(k.k[c]) * want.a[c] / h.V[c]), w << ": Laplacian of a " << (special == 1 ? "constant" : "linear profile") << " is " << str(got[c]) << " in cell " << c);
            H::count(special == 1 ? "constant fields" : "linear profiles");
        }
    };
    TokenList tl({std::string("Gauss"), std::string("linear"), std::string("uncorrected")});
    Dictionary schemes, ds, direct;
    ds.insert("laplacian(nu,T)", tl);
    schemes.insert("laplacianSchemes", ds);
    direct.insert("LaplacianOperator", std::string("Gauss"));
    direct.insert("surfaceInterpolation", std::string("linear"));
    direct.insert("faceNormalGradient", std::string("uncorrected"));
    auto op = fvcc::LaplacianOperatorFactory<T>::create(e, *m, r.chance(0.5) ? Input(tl) : Input(direct));
    auto out = field(e, rndVec<T>(r, h.nCells)); // (whatever the result held before)
    op->laplacian(out, gamma, phi, k.coeff());
    check(values(out), "Laplacian into a field");
    auto vout = volField<T>(r, e, *m, rndVec<T>(r, h.nCells), rndBCs<T>(r, h, {0, 3}), "out");
    Snap<T> o0(vout);
    op->clone()->laplacian(vout, gamma, phi, k.coeff());
    check(values(vout.internalField()), "cloned operator, Laplacian into a volume field");
    o0.boundaryUnchanged(vout, "Laplacian into a volume field: result");
    using D = fvcc::LaplacianOperator<T>;
    bool late = r.chance(0.5);
    D a = late ? D(dsl::Operator::Type::Explicit, gamma, phi) : D(dsl::Operator::Type::Explicit, gamma, phi, Input(tl));
    if (late) a.build(r.chance(0.5) ? Input(schemes) : Input(tl));
    a.getCoefficient() *= k.coeff();
    D b(a);
    auto base = rndVec<T>(r, h.nCells);
    auto src = field(e, base);
    dsl::SpatialOperator<T> so(b);
    so.explicitOperation(src);
    auto got = values(src);
    for (std::size_t c = 0; c < h.nCells; ++c)
    {
        T d = h.V[c] * (got[c] - base[c]), wv = k.k[c] * want.v[c];
        H_CHECK(near(d, wv, std::fabs(k.k[c]) * want.a[c] + h.V[c] * magOf(base[c])), "explicit operation must add its Laplacian in cell " << c << ": added " << str(d) << " instead of " << str(wv) << " (times volume)");
    }
}
#elif WHAT == 5
template<typename T>
void one(Rng& r, bool thorough)
{
    Executor e = anyExec(r);
    MeshOpt mo;
    mo.maxDegree = 200;
    HMesh h = sizedMesh(r, thorough, mo);
    auto m = build(e, h);
    auto sp = fvcc::SparsityPattern::readOrCreate(*m);
    K k(r, e, h.nCells);
    auto x = rndVec<T>(r, h.nCells), old = rndVec<T>(r, h.nCells);
    auto cf = rndVec<scalar>(r, h.nCells);
    double dt = r.pick({0.125, 0.5, 1.0, 2.0, 1e-3});
    H::ctx().notes = std::string("source and ddt of a ") + tname<T>() + " field on " + exName(e) + k.str() + " dt " + str(dt) + ": " + describe(h);
    sigMesh(h);
    Database db;
    auto& phi = registered<T>(r, db, e, *m, "T", x, rndBCs<T>(r, h, {2, 3, 4}));
    auto coef = volField<scalar>(r, e, *m, cf, rndBCs<scalar>(r, h, {0, 3}), "coef");
    auto& o = fvcc::oldTime(phi);
    poke(o.internalField(), old);
    Snap<T> s0(phi), so(o);
    Snap<scalar> c0(coef);
    auto still = [&](const std::string& w)
    {
        s0.unchanged(phi, w + ": field");
        so.unchanged(o, w + ": old field");
        c0.unchanged(coef, w + ": coefficients");
    };
    // contributions per cell: explicit value, diagonal, right-hand side
    auto local = [&](auto&& impOp, const std::function<double(std::size_t)>& diag, const std::function<T(std::size_t)>& rhs, const std::string& w)
    {
        auto ls = la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*sp);
        auto a0 = rndVec<T>(r, ls.matrix().values().size());
        if (trace) a0.assign(a0.size(), T {}); // (their place depends on the order of entries)
        poke(ls.matrix().values(), a0);
        poke(ls.rhs(), rndVec<T>(r, ls.rhs().size()));
        Sys<T> before(ls);
        impOp(ls);
        Sys<T> after(ls);
        const T oneT = NeoFOAM::one<T>();
        auto dg = values(sp->diagOffset());
        H_CHECK(after.sameStructure(before), w << ": structure changed");
        for (std::size_t c = 0; c < h.nCells; ++c)
        {
            for (auto p = before.rp[c]; p < before.rp[c + 1]; ++p)
            {
                bool d = p == before.rp[c] + dg[c];
                T add = after.val[p] - before.val[p], want = d ? diag(c) * oneT : T {};
                H_CHECK(near(add, want, 64 + magOf(want)), w << ": row " << c << " column " << before.ci[p] << " received " << str(add) << " instead of " << str(want));
            }
            T add = after.b[c] - before.b[c];
            H_CHECK(near(add, rhs(c), 64 + magOf(rhs(c))), w << ": right-hand side of row " << c << " received " << str(add) << " instead of " << str(rhs(c)));
            H::count("rows compared");
        }
        still(w);
    };
    auto added = [&](auto&& expOp, const std::function<T(std::size_t)>& want, const std::string& w)
    {
        auto base = rndVec<T>(r, h.nCells);
        auto f = field(e, base);
        expOp(f);
        auto got = values(f);
        for (std::size_t c = 0; c < h.nCells; ++c)
        {
            T a = got[c] - base[c];
            H_CHECK(near(a, want(c), 64 + magOf(want(c))), w << ": added " << str(a) << " instead of " << str(want(c)) << " in cell " << c);
            H::count("cells compared");
        }
        still(w);
    };
    {
        fvcc::SourceTerm<T> s(dsl::Operator::Type::Implicit, coef, phi), q(s);
        q.getCoefficient() *= k.coeff();
        dsl::SpatialOperator<T> lang = k.times(dsl::imp::source(coef, phi));
        auto ex = [&](std::size_t c) -> T { return k.k[c] * cf[c] * x[c]; };
        auto dg = [&](std::size_t c) { return k.k[c] * cf[c] * h.V[c]; };
        auto zero = [](std::size_t) { return T {}; };
        added([&](auto& f) { q.explicitOperation(f); }, ex, "explicit source");
        added([&](auto& f) { lang.explicitOperation(f); }, ex, "explicit source through the language");
        local([&](auto& ls) { q.implicitOperation(ls); }, dg, zero, "implicit source");
        local([&](auto& ls) { lang.implicitOperation(ls); }, dg, zero, "imp::source");
        if constexpr (std::is_same_v<T, scalar>)
            added([&](auto& f) { k.times(dsl::exp::source(coef, phi)).explicitOperation(f); }, ex, "exp::source");
    }
    {
        fvcc::DdtOperator<T> s(dsl::Operator::Type::Implicit, phi), q(s);
        q.getCoefficient() *= k.coeff();
        dsl::TemporalOperator<T> lang = k.hasField ? *k.dev * dsl::imp::ddt(phi) : 1.0 * dsl::imp::ddt(phi);
        lang.getCoefficient() *= k.s;
        auto ex = [&](std::size_t c) -> T { return (k.k[c] * h.V[c] / dt) * (x[c] - old[c]); };
        auto dg = [&](std::size_t c) { return k.k[c] * h.V[c] / dt; };
        auto rh = [&](std::size_t c) -> T { return (k.k[c] * h.V[c] / dt) * old[c]; };
        double t = r.dyadic();
        for (int again = 0; again < 2; ++again)
        {
            // the same objects at another time, with another step
            added([&](auto& f) { q.explicitOperation(f, t, dt); }, ex, "explicit ddt");
            added([&](auto& f) { lang.explicitOperation(f, t, dt); }, ex, "explicit ddt through the language");
            local([&](auto& ls) { q.implicitOperation(ls, t, dt); }, dg, rh, "implicit ddt");
            local([&](auto& ls) { lang.implicitOperation(ls, t, dt); }, dg, rh, "imp::ddt");
            t += dt;
            dt = r.pick({0.0625, 0.75, 1.0, 3.0, 2e-3});
        }
    }
}
#elif WHAT == 6
void grad(Rng& r, bool thorough)
{
    Executor e = anyExec(r);
    int special = (int)r.below(3); // 0 any, 1 constant on a box, 2 linear profile on a uniform box
    HMesh h = special == 0 ? sizedMesh(r, thorough) : boxMesh(r, thorough ? 4 : 3, special == 2);
    auto m = build(e, h);
    auto x = rndVec<scalar>(r, h.nCells);
    auto phi = volField<scalar>(r, e, *m, x, rndBCs<scalar>(r, h, {0, 2, 3, 4}), "T");
    if (r.chance(0.5)) phi.correctBoundaryConditions();
    Vector slope(r.dyadic(), r.dyadic(), r.dyadic());
    scalar c0 = r.dyadic();
    if (special)
    {
        std::vector<scalar> b(h.nBnd);
        for (std::size_t i = 0; i < h.nCells; ++i) x[i] = c0 + (special == 2 ? (slope & h.C[i]) : 0.0);
        for (std::size_t i = 0; i < h.nBnd; ++i) b[i] = c0 + (special == 2 ? (slope & h.Cf[h.nInt + i]) : 0.0);
        poke(phi.internalField(), x);
        poke(phi.boundaryField().value(), b);
    }
    H::ctx().notes = "Gauss gradient on " + exName(e) + ": " + describe(h);
    sigMesh(h);
    Snap<scalar> s0(phi);
    auto pf = linearFace(h, x, s0.val);
    std::vector<Vector> face(h.nFaces());
    for (std::size_t f = 0; f < h.nFaces(); ++f) face[f] = pf[f] * h.Sf[f];
    Sums<Vector> want(h, face);
    std::vector<scalar> ones(h.nCells, 1.0);
    auto check = [&](const std::vector<Vector>& got, const std::string& w)
    {
        compareCells(h, got, want, ones, w);
        conservation(h, got, face, 1.0, w);
        s0.unchanged(phi, w + ": field");
        if (special)
        {
            Vector g = special == 2 ? slope : Vector(0, 0, 0);
            for (std::size_t c = 0; c < h.nCells; ++c)
                H_CHECK(near(got[c], g, want.a[c] / h.V[c] + 1000), w << ": gradient of a " << (special == 2 ? "linear profile" : "constant") << " is " << str(got[c]) << " in cell " << c << " instead of " << str(g));
            H::count(special == 2 ? "linear profiles" : "constant fields");
        }
    };
    fvcc::GaussGreenGrad g(e, *m);
    auto ret = g.grad(phi);
    check(values(ret.internalField()), "returned gradient");
    H_CHECK(ret.exec() == e, "executor of the returned gradient");
    auto out = volField<Vector>(r, e, *m, rndVec<Vector>(r, h.nCells), rndBCs<Vector>(r, h, {0, 3}), "g");
    Snap<Vector> o0(out);
    g.grad(phi, out);
    check(values(out.internalField()), "gradient into a field");
    o0.boundaryUnchanged(out, "gradient into a field: result");
    check(values(g.grad(phi).internalField()), "gradient repeated");
}
#elif WHAT == 7
template<typename T>
void one(Rng& r, bool thorough)
{
    Executor e = anyExec(r);
    HMesh h = sizedMesh(r, thorough);
    auto m = build(e, h);
    auto fl = rndVec<T>(r, h.nFaces());
    auto flux = surfField<T>(r, e, *m, fl, rndBCs<T>(r, h, {0, 3}), "phi");
    K k(r, e, h.nCells);
    H::ctx().notes = std::string("surface integration of a ") + tname<T>() + " flux on " + exName(e) + k.str() + ": " + describe(h);
    sigMesh(h);
    Snap<T> f0(flux);
    Sums<T> want(h, fl);
    auto check = [&](const std::vector<T>& got, const std::string& w)
    {
        compareCells(h, got, want, k.k, w);
        if (k.uniform()) conservation(h, got, fl, k.s, w);
        f0.unchanged(flux, w + ": flux");
    };
    auto out = zeroField<T>(e, h.nCells);
    fvcc::surfaceIntegrate<T>(e, h.nInt, std::as_const(*m).faceNeighbour().view(), std::as_const(*m).faceOwner().view(), std::as_const(*m).boundaryMesh().faceCells().view(),
                              std::as_const(flux).internalField().view(), std::as_const(*m).cellVolumes().view(), out.view(), k.coeff());
    check(values(out), "free function");
    fvcc::SurfaceIntegrate<T> a(flux);
    a.getCoefficient() *= k.coeff();
    fvcc::SurfaceIntegrate<T> b(a);
    auto base = rndVec<T>(r, h.nCells);
    auto src = field(e, base);
    b.explicitOperation(src);
    auto got = values(src);
    for (std::size_t c = 0; c < h.nCells; ++c)
    {
        T d = h.V[c] * (got[c] - base[c]), wv = k.k[c] * want.v[c];
        H_CHECK(near(d, wv, std::fabs(k.k[c]) * want.a[c] + h.V[c] * magOf(base[c])), "explicit operation must add its sum in cell " << c << ": added " << str(d) << " instead of " << str(wv) << " (times volume)");
    }
    H_CHECK(b.getType() == dsl::Operator::Type::Explicit, "surface integration is explicit");
    if constexpr (std::is_same_v<T, scalar>)
    {
        auto lang = k.times(dsl::exp::div(flux));
        poke(src, std::vector<T>(h.nCells, T {}));
        lang.explicitOperation(src);
        check(values(src), "exp::div");
    }
}
#endif
}
void runCase(H::Ctx& c)
{
    auto& r = c.rng;
    hostileSchedule(r);
    for (int i = 0; i < 3; ++i)
#if WHAT == 6
        grad(r, c.thorough);
#else
        if (r.chance(0.6)) one<scalar>(r, c.thorough);
        else one<Vector>(r, c.thorough);
#endif
}
