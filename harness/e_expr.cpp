// E01: expressions against a list of (term, coefficient) pairs built alongside.
#include "terms.hpp"
#include <deque>
#include "NeoFOAM/dsl/expression.hpp"
using namespace FV;
FV_MAIN

namespace
{
using Kind = dsl::Operator::Type;
struct Event
{
    int id;
    char what;
    bool operator<(const Event& o) const { return std::tie(id, what) < std::tie(o.id, o.what); }
    bool operator==(const Event& o) const { return id == o.id && what == o.what; }
};
std::vector<Event> trace; // what the evaluated operators report
double expectT = 0, expectDt = 0;

// an operator that reports every call: explicit: + k x; implicit: k x' - k x in the residual
template<typename T>
struct Probe : dsl::OperatorMixin<fvcc::VolumeField<T>>
{
    using FieldValueType = T;
    using Base = dsl::OperatorMixin<fvcc::VolumeField<T>>;
    int id;
    std::shared_ptr<fvcc::SparsityPattern> sp;
    std::string scheme;
    Probe(Kind k, fvcc::VolumeField<T>& f, int i) : Base(f.exec(), dsl::Coeff(1.0), f, k), id(i), sp(fvcc::SparsityPattern::readOrCreate(f.mesh())) {}
    std::string getName() const { return "Probe" + std::to_string(id); }
    void build(const Input& in)
    {
        trace.push_back({id, 'b'});
        scheme = std::get<Dictionary>(in).get<std::string>("probe");
    }
    void addExplicit(Field<T>& s, double w) const
    {
        auto k = this->coeffs_;
        auto [sv, fv] = spans(s, this->field_.internalField());
        parallelFor(s.exec(), s.range(), KOKKOS_LAMBDA(const std::size_t i) { sv[i] += w * k[i] * fv[i]; });
    }
    void addImplicit(la::LinearSystem<T, localIdx>& ls, double w)
    {
        auto k = this->coeffs_;
        auto [d, fv] = spans(sp->diagOffset(), this->field_.internalField());
        auto [matrix, rhs] = ls.view();
        parallelFor(ls.exec(), {0, fv.size()}, KOKKOS_LAMBDA(const std::size_t i) {
            auto at = static_cast<std::size_t>(matrix.rowOffs[i]) + d[i];
            matrix.values[at] += w * k[i] * one<T>();
            rhs[i] += w * k[i] * fv[i];
        });
    }
};
template<typename T>
struct SProbe : Probe<T>
{
    using FieldValueType = T;
    using Probe<T>::Probe;
    void explicitOperation(Field<T>& s) const
    {
        trace.push_back({this->id, 'e'});
        this->addExplicit(s, 1);
    }
    void implicitOperation(la::LinearSystem<T, localIdx>& ls)
    {
        trace.push_back({this->id, 'i'});
        this->addImplicit(ls, 1);
    }
};
template<typename T>
struct TProbe : Probe<T>
{
    using FieldValueType = T;
    using Probe<T>::Probe;
    void explicitOperation(Field<T>& s, scalar t, scalar dt) const
    {
        H_CHECK(t == expectT && dt == expectDt, "time " << t << " and step " << dt << " handed to a temporal term instead of " << expectT << " and " << expectDt);
        trace.push_back({this->id, 'E'});
        this->addExplicit(s, dt);
    }
    void implicitOperation(la::LinearSystem<T, localIdx>& ls, scalar t, scalar dt)
    {
        H_CHECK(t == expectT && dt == expectDt, "time " << t << " and step " << dt << " handed to a temporal term instead of " << expectT << " and " << expectDt);
        trace.push_back({this->id, 'I'});
        this->addImplicit(ls, dt);
    }
};
// what a term is expected to be
struct Term
{
    int id;      // probe, or < 0: -1 source term, -2 surface integral
    bool temporal;
    Kind kind;
    std::vector<double> k;
    bool hasField = false;
};
template<typename T>
struct World
{
    Rng& r;
    Executor e;
    HMesh h;
    std::unique_ptr<UnstructuredMesh> m;
    std::vector<std::vector<T>> x;
    std::vector<std::unique_ptr<fvcc::VolumeField<T>>> f;
    std::vector<scalar> cf, fl;
    std::optional<fvcc::VolumeField<scalar>> coef;
    std::optional<fvcc::SurfaceField<scalar>> flux;
    std::vector<std::vector<scalar>> kv;
    std::deque<Field<scalar>> kf;
    int depthMax;
    std::ostringstream text;
    World(Rng& rr, bool thorough) : r(rr), e(anyExec(rr)), h(sizedMesh(rr, false, {}, 600)), depthMax(thorough ? 6 : 4)
    {
        m = build(e, h);
        for (int i = 0; i < 3; ++i)
        {
            x.push_back(rndVec<T>(r, h.nCells));
            f.push_back(std::make_unique<fvcc::VolumeField<T>>(volField<T>(r, e, *m, x.back(), rndBCs<T>(r, h, {0, 3}), "f" + std::to_string(i))));
        }
        cf = rndVec<scalar>(r, h.nCells);
        coef.emplace(volField<scalar>(r, e, *m, cf, rndBCs<scalar>(r, h, {0}), "coef"));
        fl = rndFluxes(r, h.nFaces());
        flux.emplace(surfField<scalar>(r, e, *m, fl, rndBCs<scalar>(r, h, {0}), "flux"));
        for (int i = 0; i < 2; ++i)
        {
            kv.push_back(rndVec<scalar>(r, h.nCells));
            kf.push_back(field(e, kv.back()));
        }
    }
    // the field a probe adds
    const std::vector<T>& xOf(int id) const { return x[(std::size_t)id % 3]; }

    template<typename Op>
    Op scaled(Op op, Term& t)
    {
        for (auto n = r.below(4); n-- > 0;)
        {
            int how = (int)r.below(t.hasField ? 3 : 5);
            Op before(op);
            auto kBefore = t.k;
            double s = r.pick({-1.0, 2.0, 0.5, 0.0, 3.0, -0.25, 1.0});
            std::size_t w = r.below(2);
            Op after = how == 0 ? Op(s * op) : how < 3 ? Op(dsl::Coeff(s) * op) : how == 3 ? Op(kf[w] * op) : Op(dsl::Coeff(s, kf[w]) * op);
            for (std::size_t i = 0; i < t.k.size(); ++i) t.k[i] *= how == 3 ? kv[w][i] : how == 4 ? s * kv[w][i] : s;
            t.hasField = t.hasField || how >= 3;
            text << "*" << (how >= 3 ? "field" : "") << s;
            // the operand keeps its coefficient
            coefficient(op, kBefore, "operand of a scaling");
            op = Op(after);
            coefficient(op, t.k, "scaled operator");
        }
        return op;
    }
    template<typename Op>
    void coefficient(const Op& op, const std::vector<double>& want, const std::string& w)
    {
        Kokkos::fence();
        dsl::Coeff c = op.getCoefficient();
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            double got = 0;
            NFM::withHostAndDevice([&] { got = c[i]; });
            H_CHECK(near(got, want[i], want[i]), w << ": coefficient of " << op.getName() << " in cell " << i << " is " << str(got) << " instead of " << str(want[i]));
        }
    }
    dsl::SpatialOperator<T> spatial(std::vector<Term>& ts)
    {
        Kind k = r.chance(0.5) ? Kind::Explicit : Kind::Implicit;
        Term t {(int)r.below(9), false, k, std::vector<double>(h.nCells, 1.0)};
        std::optional<dsl::SpatialOperator<T>> op;
        int real = (int)r.below(6);
        if (real == 0)
        {
            t.id = -1;
            op.emplace(fvcc::SourceTerm<T>(k, *coef, *f[0]));
        }
        else if (real == 1 && std::is_same_v<T, scalar>)
        {
            if constexpr (std::is_same_v<T, scalar>)
            {
                t.id = -2;
                t.kind = Kind::Explicit;
                op.emplace(fvcc::SurfaceIntegrate<scalar>(*flux));
            }
        }
        else op.emplace(SProbe<T>(k, *f[(std::size_t)t.id % 3], t.id));
        text << " S" << t.id << (t.kind == Kind::Explicit ? "e" : "i");
        auto out = scaled(*op, t);
        H_CHECK(out.getType() == t.kind, "a term declared " << (t.kind == Kind::Explicit ? "explicit" : "implicit") << " changed its type");
        ts.push_back(t);
        return out;
    }
    dsl::TemporalOperator<T> temporal(std::vector<Term>& ts)
    {
        Kind k = r.chance(0.5) ? Kind::Explicit : Kind::Implicit;
        Term t {(int)r.below(9), true, k, std::vector<double>(h.nCells, 1.0)};
        dsl::TemporalOperator<T> op(TProbe<T>(k, *f[(std::size_t)t.id % 3], t.id));
        text << " T" << t.id << (k == Kind::Explicit ? "e" : "i");
        // (no assignment for temporal operators: scale by construction)
        for (auto n = r.below(3); n-- > 0;)
        {
            int how = (int)r.below(t.hasField ? 2 : 4);
            double s = r.pick({-1.0, 2.0, 0.5, 0.0, 3.0});
            std::size_t w = r.below(2);
            auto kBefore = t.k;
            if (how == 2 || how == 3) t.hasField = true;
            for (std::size_t i = 0; i < t.k.size(); ++i) t.k[i] *= how == 2 ? kv[w][i] : how == 3 ? s * kv[w][i] : s;
            dsl::TemporalOperator<T> after = how == 0 ? dsl::TemporalOperator<T>(s * op) : how == 1 ? dsl::TemporalOperator<T>(dsl::Coeff(s) * op) : how == 2 ? dsl::TemporalOperator<T>(kf[w] * op) : dsl::TemporalOperator<T>(dsl::Coeff(s, kf[w]) * op);
            coefficient(op, kBefore, "operand of a scaling");
            coefficient(after, t.k, "scaled operator");
            text << "*" << (how >= 2 ? "field" : "") << s;
            if (n == 0)
            {
                ts.push_back(t);
                return after;
            }
            t.k = kBefore;
            t.hasField = how >= 2 ? false : t.hasField;
        }
        t.k.assign(h.nCells, 1.0);
        t.hasField = false;
        ts.push_back(t);
        return op;
    }
    using Ex = dsl::Expression<T>;
    struct Node
    {
        Ex ex;
        std::vector<Term> ts;
    };
    static void append(std::vector<Term>& a, const std::vector<Term>& b, double s)
    {
        for (auto t : b)
        {
            for (auto& k : t.k) k *= s;
            a.push_back(t);
        }
    }
    std::deque<Node> kept; // operands, checked again after the expressions built from them
    Node keep(Node n)
    {
        if (r.chance(0.4) && kept.size() < 6) kept.push_back(n);
        return n;
    }
    Node tree(int depth)
    {
        std::vector<Term> ts;
        int c = depth <= 0 ? (int)r.below(5) : (int)r.below(12);
        bool minus = r.chance(0.5);
        auto sgn = minus ? -1.0 : 1.0;
        if (c == 4)
        {
            Ex ex(e);
            text << " {";
            for (auto n = r.below(4); n-- > 0;)
            {
                if (r.chance(0.7)) ex.addOperator(spatial(ts));
                else ex.addOperator(temporal(ts));
            }
            text << " }";
            return keep({ex, ts});
        }
        if (c < 4)
        {
            std::vector<Term> a, b;
            text << " (";
            auto make = [&](auto l, auto rr)
            {
                text << (minus ? " minus)" : " plus)");
                Ex ex = minus ? l - rr : l + rr;
                append(ts, a, 1);
                append(ts, b, sgn);
                return keep({ex, ts});
            };
            if (c == 0)
            {
                auto l = spatial(a);
                auto rr = spatial(b);
                return make(l, rr);
            }
            if (c == 1)
            {
                auto l = spatial(a);
                auto rr = temporal(b);
                return make(l, rr);
            }
            if (c == 2)
            {
                auto l = temporal(a);
                auto rr = spatial(b);
                return make(l, rr);
            }
            auto l = temporal(a);
            auto rr = temporal(b);
            return make(l, rr);
        }
        if (c < 7)
        {
            Node l = tree(depth - 1);
            std::vector<Term> b;
            auto op = spatial(b);
            text << (minus ? " -op" : " +op");
            Ex ex = minus ? l.ex - op : l.ex + op;
            append(ts, l.ts, 1);
            append(ts, b, sgn);
            return keep({ex, ts});
        }
        if (c < 9)
        {
            Node l = tree(depth - 1), rr = tree(depth - 1);
            text << (minus ? " -" : " +");
            Ex ex = minus ? l.ex - rr.ex : l.ex + rr.ex;
            append(ts, l.ts, 1);
            append(ts, rr.ts, sgn);
            return keep({ex, ts});
        }
        if (c == 9)
        {
            Node l = tree(depth - 1);
            double s = r.pick({-1.0, 2.0, 0.5, 0.0, -3.0});
            text << " x" << s;
            Ex ex = s * l.ex;
            append(ts, l.ts, s);
            return keep({ex, ts});
        }
        Node l = tree(depth - 1);
        if (c == 10)
        {
            // the same expression on both sides
            text << (minus ? " -self" : " +self");
            Ex ex = minus ? l.ex - l.ex : l.ex + l.ex;
            append(ts, l.ts, 1);
            append(ts, l.ts, sgn);
            return keep({ex, ts});
        }
        text << " add";
        Ex ex(l.ex);
        bool self = r.chance(0.4);
        if (self) ex.addExpression(ex);
        else ex.addExpression(l.ex);
        append(ts, l.ts, 1);
        append(ts, l.ts, 1);
        return keep({ex, ts});
    }
    void expectTrace(const std::vector<Event>& want, const std::string& w)
    {
        auto got = trace, exp = want;
        std::sort(got.begin(), got.end());
        std::sort(exp.begin(), exp.end());
        std::string a, b;
        for (auto& g : got) a += " " + std::to_string(g.id) + g.what;
        for (auto& g : exp) b += " " + std::to_string(g.id) + g.what;
        H_CHECK(got == exp, w << ": evaluated terms" << a << " instead of" << b);
        H::count("term evaluations observed", got.size());
        trace.clear();
    }
    std::vector<Event> calls(const std::vector<Term>& ts, bool temporal, Kind k, char c)
    {
        std::vector<Event> v;
        for (auto& t : ts)
            if (t.id >= 0 && t.temporal == temporal && t.kind == k) v.push_back({t.id, c});
        return v;
    }
    void evaluate(Node& n, const std::string& w)
    {
        std::size_t nT = 0, nS = 0;
        for (auto& t : n.ts) (t.temporal ? nT : nS)++;
        auto& ex = n.ex;
        H_CHECK(ex.size() == n.ts.size(), w << ": " << ex.size() << " terms instead of " << n.ts.size());
        H_CHECK(std::as_const(ex).temporalOperators().size() == nT && ex.spatialOperators().size() == nS, w << ": " << ex.temporalOperators().size() << " temporal and " << ex.spatialOperators().size() << " spatial terms instead of " << nT << " and " << nS);
        H_CHECK(ex.exec() == e, w << ": executor");
        for (int p = 0; p < 2; ++p)
        {
            std::vector<std::pair<int, int>> a, b;
            for (auto& t : n.ts)
                if (t.temporal == (p == 1) && t.id >= 0) a.push_back({t.id, (int)t.kind});
            auto put = [&](auto& ops)
            {
                for (auto& o : ops)
                    if (o.getName().rfind("Probe", 0) == 0) b.push_back({std::stoi(o.getName().substr(5)), (int)o.getType()});
            };
            if (p) put(ex.temporalOperators());
            else put(ex.spatialOperators());
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            H_CHECK(a == b, w << ": the declared types of the terms changed");
        }
        trace.clear();
        // every term reads its inputs once
        Dictionary in;
        in.insert("probe", std::string("x"));
        ex.build(in);
        std::vector<Event> bs;
        for (auto& t : n.ts)
            if (t.id >= 0) bs.push_back({t.id, 'b'});
        expectTrace(bs, w + ": build");
        auto base = rndVec<T>(r, h.nCells);
        auto zeros = std::vector<T>(h.nCells, T {});
        std::vector<T> si(h.nCells);
        std::vector<double> sa(h.nCells);
        {
            Sums<scalar> s(h, fl);
            for (std::size_t c = 0; c < h.nCells; ++c)
            {
                if constexpr (std::is_same_v<T, scalar>) si[c] = s.v[c] / h.V[c];
                sa[c] = s.a[c] / h.V[c];
            }
        }
        auto explicitOf = [&](bool temporal, const std::vector<T>& from, const std::vector<T>& got, const std::string& v)
        {
            H_CHECK(got.size() == h.nCells, v << ": size");
            for (std::size_t c = 0; c < h.nCells; ++c)
            {
                T want = from[c];
                double a = magOf(want);
                for (auto& t : n.ts)
                {
                    if (t.temporal != temporal || t.kind != Kind::Explicit) continue;
                    T add = t.id == -1 ? T(t.k[c] * cf[c] * x[0][c]) : t.id == -2 ? T(t.k[c] * si[c]) : T((temporal ? expectDt : 1.0) * t.k[c] * xOf(t.id)[c]);
                    want += add;
                    a += t.id == -2 ? std::fabs(t.k[c]) * sa[c] : magOf(add);
                }
                H_CHECK(near(got[c], want, a), v << " in cell " << c << " is " << str(got[c]) << " instead of the sum of the terms " << str(want));
            }
        };
        expectT = r.dyadic();
        expectDt = r.pick({0.5, 1.0, 0.125, 2.0});
        const Ex& cex = ex;
        auto out = cex.explicitOperation(h.nCells);
        explicitOf(false, zeros, values(out), w + ": explicit terms");
        H_CHECK(out.exec() == e, w << ": executor of the explicit terms");
        expectTrace(calls(n.ts, false, Kind::Explicit, 'e'), w + ": explicit terms");
        auto src = field(e, base);
        auto ret = cex.explicitOperation(src);
        explicitOf(false, base, values(src), w + ": explicit terms added to a source");
        expectEq(values(ret), values(src), w + ": returned source");
        expectTrace(calls(n.ts, false, Kind::Explicit, 'e'), w + ": explicit terms added to a source");
        poke(src, base);
        auto ret2 = cex.explicitOperation(src, expectT, expectDt);
        explicitOf(true, base, values(src), w + ": explicit temporal terms");
        expectEq(values(ret2), values(src), w + ": returned source");
        expectTrace(calls(n.ts, true, Kind::Explicit, 'E'), w + ": explicit temporal terms");
        // implicit: difference of the residuals for a random vector
        auto sp = fvcc::SparsityPattern::readOrCreate(*m);
        for (int temporal = 0; temporal < 2; ++temporal)
        {
            auto ls = la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*sp);
            poke(ls.matrix().values(), rndVec<T>(r, ls.matrix().values().size()));
            poke(ls.rhs(), base);
            Sys<T> before(ls);
            if (temporal) ex.implicitOperation(ls, expectT, expectDt);
            else ex.implicitOperation(ls);
            Sys<T> after(ls);
            std::string v = w + (temporal ? ": implicit temporal terms" : ": implicit terms");
            expectTrace(calls(n.ts, temporal, Kind::Implicit, temporal ? 'I' : 'i'), v);
            H_CHECK(after.sameStructure(before), v << ": structure of the matrix");
            auto y = rndVec<T>(r, h.nCells);
            auto p = after.residual(y), q = before.residual(y);
            auto sc = after.scale(y), sq = before.scale(y);
            for (std::size_t c = 0; c < h.nCells; ++c)
            {
                T want {};
                for (auto& t : n.ts)
                {
                    if (t.temporal != (bool)temporal || t.kind != Kind::Implicit) continue;
                    want += t.id == -1 ? T(t.k[c] * cf[c] * h.V[c] * y[c]) : T((temporal ? expectDt : 1.0) * t.k[c] * (y[c] - xOf(t.id)[c]));
                }
                T got = p[c] - q[c];
                H_CHECK(near(got, want, sc[c] + sq[c] + magOf(want)), v << " in cell " << c << " contribute " << str(got) << " instead of " << str(want));
            }
        }
        H::count("expressions evaluated");
        H::count("terms in them", n.ts.size());
        H::maxi("largest number of terms", (double)n.ts.size());
    }
};
void coeffs(Rng& r)
{
    Executor e = anyExec(r);
    auto n = 1 + r.below(20);
    auto v = rndVec<scalar>(r, n);
    auto f = field(e, v);
    double s = r.dyadic(), t = r.dyadic();
    auto at = [](const dsl::Coeff& c, std::size_t i)
    {
        double g = 0;
        Kokkos::fence();
        NFM::withHostAndDevice([&] { g = c[i]; });
        return g;
    };
    dsl::Coeff d, a(s), b(f), c(t, f);
    H_CHECK(at(d, 0) == 1 && !d.hasSpan(), "a default coefficient is one");
    H_CHECK(at(a, 3) == s && !a.hasSpan() && b.hasSpan() && c.hasSpan(), "coefficient of a number and of a field");
    std::size_t i = r.below(n);
    H_CHECK(at(b, i) == v[i] && eq(at(c, i), t * v[i]) && c.view().size() == n, "coefficient of a field in cell " << i);
    auto ac = a * c, ca = c * a, aa = a * a;
    H_CHECK(ac.hasSpan() && ca.hasSpan() && !aa.hasSpan() && near(at(ac, i), s * t * v[i], 1) && near(at(ca, i), s * t * v[i], 1) && near(at(aa, 0), s * s, 1), "products of coefficients");
    H_CHECK(at(a, 0) == s && !a.hasSpan() && eq(at(c, i), t * v[i]), "operands of a product must not change");
    a *= 2.0;
    c *= -1.0;
    H_CHECK(at(a, 0) == 2 * s && eq(at(c, i), -t * v[i]), "scaled coefficients");
    Field<scalar> out(e, r.below(30));
    dsl::detail::toField(c, out);
    auto o = values(out);
    H_CHECK(o.size() == n, "a field coefficient becomes a field of its size, not " << o.size());
    for (std::size_t j = 0; j < n; ++j) H_CHECK(eq(o[j], -t * v[j]), "evaluated coefficient " << j);
    dsl::detail::toField(a, out);
    o = values(out);
    H_CHECK(o.size() == 1 && o[0] == 2 * s, "a number becomes a field of one value");
    if (r.chance(0.1))
    {
        auto x = H::inChild([&] { (void)(b * c); });
        H_CHECK(x.exited && x.code == 1, "the product of two field coefficients must be refused (code " << x.code << " signal " << x.signal << ")");
        H::count("refused products of two fields");
    }
    H::count("coefficients checked");
}
template<typename T>
void one(Rng& r, bool thorough)
{
    World<T> w(r, thorough);
    sigMesh(w.h);
    auto n = w.tree(1 + (int)r.below((uint64_t)w.depthMax));
    if (r.chance(0.04) && w.h.nCells < 50)
    {
        // a long sum
        w.kept.clear();
        for (auto k = 10 + r.below(thorough ? 60 : 20); k-- > 0 && n.ts.size() < 150;)
        {
            auto b = w.tree(1);
            bool minus = r.chance(0.3), left = r.chance(0.3);
            std::vector<Term> ts;
            w.append(ts, left ? b.ts : n.ts, 1);
            w.append(ts, left ? n.ts : b.ts, minus ? -1.0 : 1.0);
            auto &x = left ? b.ex : n.ex, &y = left ? n.ex : b.ex;
            dsl::Expression<T> ex(minus ? x - y : x + y);
            if (!minus && r.chance(0.4))
            {
                ex.~Expression();
                new (&ex) dsl::Expression<T>(x);
                ex.addExpression(y);
            }
            std::destroy_at(&n);
            new (&n) typename World<T>::Node {ex, ts};
        }
        w.kept.clear();
        H::count("long expressions");
    }
    if (n.ts.size() > 200) return;
    H::ctx().notes = std::string(tname<T>()) + " expression on " + exName(w.e) + ":" + w.text.str();
    H::sig(w.text.str());
    H::sample(H::ctx().notes.substr(0, 300));
    w.evaluate(n, "expression");
    // copies are independent
    typename World<T>::Node copy {dsl::Expression<T>(n.ex), n.ts};
    if (copy.ex.spatialOperators().size())
    {
        copy.ex.spatialOperators()[0].getCoefficient() *= 5.0;
        w.evaluate(n, "expression whose copy was changed");
    }
    for (std::size_t i = 0; i < w.kept.size(); ++i) w.evaluate(w.kept[i], "operand " + std::to_string(i) + " afterwards");
}
} // namespace

void runCase(H::Ctx& c)
{
    Rng& r = c.rng;
    hostileSchedule(r);
    for (int i = 0; i < 3; ++i)
    {
        if (r.chance(0.5)) one<scalar>(r, c.thorough);
        else one<Vector>(r, c.thorough);
        coeffs(r);
    }
}
