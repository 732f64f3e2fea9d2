// F09: boundary and domain fields. Random patch layouts on every executor; sizes and patch ranges against the layout,
// and a history of copies, moves, assignments and writes compared with plain containers.
#include "fv.hpp"
using namespace FV;
FV_MAIN

namespace
{
template<typename T>
struct Model
{
    int ex;
    std::vector<localIdx> off;
    std::vector<T> in, val, ref, grad;
    std::vector<scalar> frac;
};
template<typename T>
struct Entry
{
    std::unique_ptr<DomainField<T>> d;
    Model<T> m;
};

template<typename T>
void checkBoundary(const BoundaryFields<T>& b, const Model<T>& m, const std::string& w)
{
    std::size_t nb = m.off.back(), np = m.off.size() - 1;
    H_CHECK(b.nBoundaries() == np, w << "nBoundaries is " << b.nBoundaries() << " instead of " << np);
    H_CHECK(b.nBoundaryFaces() == nb, w << "nBoundaryFaces is " << b.nBoundaryFaces() << " instead of " << nb);
    expectEq(values(b.offset()), m.off, w + "offset");
    expectEq(values(b.value()), m.val, w + "boundary value");
    expectEq(values(b.refValue()), m.ref, w + "boundary refValue");
    expectEq(values(b.refGrad()), m.grad, w + "boundary refGrad");
    expectEq(values(b.valueFraction()), m.frac, w + "boundary valueFraction");
    H_CHECK(b.boundaryTypes().size() == np, w << "boundaryTypes has " << b.boundaryTypes().size() << " entries instead of " << np);
    Executor e = exByIndex(m.ex);
    H_CHECK(const_cast<BoundaryFields<T>&>(b).exec() == e, w << "boundary fields report executor " << exName(const_cast<BoundaryFields<T>&>(b).exec()) << " instead of " << exName(e));
    for (const Executor* x : {&b.value().exec(), &b.refValue().exec(), &b.refGrad().exec(), &b.valueFraction().exec(), &b.offset().exec(), &b.boundaryTypes().exec()})
        H_CHECK(*x == e, w << "boundary data on executor " << exName(*x) << " instead of " << exName(e));
    // patch ranges: contiguous, disjoint, covering
    std::size_t at = 0;
    for (std::size_t p = 0; p < np; ++p)
    {
        auto [s, t] = b.range((localIdx)p);
        H_CHECK(s == m.off[p] && t == m.off[p + 1], w << "range(" << p << ") is " << s << "," << t << " instead of " << m.off[p] << "," << m.off[p + 1]);
        H_CHECK(s == at, w << "patch " << p << " does not start where the previous one ends");
        at = t;
        H::count("patch ranges checked");
    }
    H_CHECK(at == nb, w << "patches do not cover all boundary faces");
}
template<typename T>
void check(const DomainField<T>& d, const Model<T>& m, const std::string& w)
{
    H_CHECK((int)d.exec().index() == m.ex, w << "executor is " << exName(d.exec()));
    H_CHECK((int)d.internalField().exec().index() == m.ex, w << "internal field on " << exName(d.internalField().exec()));
    expectEq(values(d.internalField()), m.in, w + "internal field");
    checkBoundary(d.boundaryField(), m, w);
}
template<typename T>
void fillBoundary(Rng& r, BoundaryFields<T>& b, Model<T>& m)
{
    std::size_t nb = m.off.back();
    m.val = rndVec<T>(r, nb);
    m.ref = rndVec<T>(r, nb);
    m.grad = rndVec<T>(r, nb);
    m.frac = rndVec<scalar>(r, nb);
    poke(b.value(), m.val);
    poke(b.refValue(), m.ref);
    poke(b.refGrad(), m.grad);
    poke(b.valueFraction(), m.frac);
}

template<typename T>
void history(Rng& r, std::size_t steps)
{
    std::vector<Entry<T>> P;
    std::string trace;
    auto layout = [&](HMesh& hm) { hm = randomMesh(r); };
    for (std::size_t s = 0; s < steps; ++s)
    {
        int op = (int)r.below(12);
        if (P.empty()) op = (int)r.below(4);
        std::size_t k = r.below(P.size()), k2 = r.below(P.size());
        int ex = (int)r.below(3);
        Executor E = exByIndex(ex);
        H::sig((uint64_t)op * 64 + k);
        auto add = [&](Entry<T> e)
        {
            if (P.size() < 5) P.push_back(std::move(e));
            else P[r.below(5)] = std::move(e);
        };
        auto log = [&](const std::string& x)
        {
            trace += x + "; ";
            if (trace.size() > 2500) trace = trace.substr(trace.size() - 2000);
            H::ctx().notes = std::string(tname<T>()) + ": " + trace;
        };
        switch (op)
        {
        case 0:
        case 1:
        {
            HMesh hm;
            layout(hm);
            sigMesh(hm);
            log("from mesh/offsets on " + exName(E));
            Entry<T> e;
            e.m.ex = ex;
            e.m.off = hm.offset;
            if (op == 0)
            {
                auto mesh = build(E, hm);
                e.d = std::make_unique<DomainField<T>>(E, *mesh);
            }
            else e.d = std::make_unique<DomainField<T>>(E, hm.nCells, hm.offset);
            H_CHECK(e.d->internalField().size() == hm.nCells, "internal field has " << e.d->internalField().size() << " entries for " << hm.nCells << " cells");
            e.m.in = rndVec<T>(r, hm.nCells);
            poke(e.d->internalField(), e.m.in);
            fillBoundary(r, e.d->boundaryField(), e.m);
            add(std::move(e));
            break;
        }
        case 2:
        {
            HMesh hm;
            layout(hm);
            log("from field and offsets on " + exName(E));
            Entry<T> e;
            e.m.ex = ex;
            e.m.off = hm.offset;
            e.m.in = rndVec<T>(r, hm.nCells);
            auto f = field(exByIndex((int)r.below(3)), e.m.in);
            e.d = std::make_unique<DomainField<T>>(E, f, hm.offset);
            fillBoundary(r, e.d->boundaryField(), e.m);
            poke(f, rndVec<T>(r, hm.nCells)); // the source changes, the copy must not
            add(std::move(e));
            break;
        }
        case 3:
        {
            HMesh hm;
            layout(hm);
            log("from field and boundary field on " + exName(E));
            Model<T> m;
            m.ex = ex;
            m.off = hm.offset;
            m.in = rndVec<T>(r, hm.nCells);
            auto src = exByIndex((int)r.below(3));
            auto f = field(src, m.in);
            BoundaryFields<T> b(src, hm.offset);
            fillBoundary(r, b, m);
            Entry<T> e;
            e.d = std::make_unique<DomainField<T>>(E, f, b);
            e.m = m;
            poke(b.value(), rndVec<T>(r, m.val.size()));
            add(std::move(e));
            break;
        }
        case 4:
        {
            log("copy " + std::to_string(k));
            Entry<T> e;
            e.d = std::make_unique<DomainField<T>>(*P[k].d);
            e.m = P[k].m;
            add(std::move(e));
            break;
        }
        case 5:
        {
            log("boundary copy of " + std::to_string(k) + " to " + exName(E));
            BoundaryFields<T> b(E, P[k].d->boundaryField());
            Model<T> m = P[k].m;
            m.ex = ex;
            checkBoundary(b, m, "boundary fields copied to " + exName(E) + ": ");
            BoundaryFields<T> b2(b);
            fillBoundary(r, b, m);
            Model<T> m0 = P[k].m;
            m0.ex = ex;
            checkBoundary(b2, m0, "copy of copied boundary fields: ");
            break;
        }
        case 6:
        {
            auto &a = P[k], &b = P[k2];
            if (a.m.ex != b.m.ex) break;
            log(std::to_string(k) + " = " + std::to_string(k2));
            *a.d = *b.d;
            a.m = Model<T>(b.m);
            break;
        }
        case 7:
        {
            auto &a = P[k], &b = P[k2];
            if (a.m.ex != b.m.ex || k == k2) break;
            log(std::to_string(k) + " = move " + std::to_string(k2));
            *a.d = std::move(*b.d);
            a.m = b.m;
            P.erase(P.begin() + (long)k2);
            break;
        }
        case 8:
        {
            log("move-construct from " + std::to_string(k));
            Entry<T> e;
            e.d = std::make_unique<DomainField<T>>(std::move(*P[k].d));
            e.m = P[k].m;
            P.erase(P.begin() + (long)k);
            P.push_back(std::move(e));
            break;
        }
        case 9:
            log("write internal " + std::to_string(k));
            P[k].m.in = rndVec<T>(r, P[k].m.in.size());
            poke(P[k].d->internalField(), P[k].m.in);
            break;
        case 10:
        {
            log("write one patch of " + std::to_string(k));
            auto& e = P[k];
            std::size_t np = e.m.off.size() - 1;
            if (!np) break;
            std::size_t p = r.below(np);
            auto [a, b] = e.d->boundaryField().range((localIdx)p);
            T x = rnd<T>(r);
            if (a == b) break; // {0,0} would mean the whole field
            fill(e.d->boundaryField().value(), x, {a, b});
            for (std::size_t i = a; i < b; ++i) e.m.val[i] = x;
            break;
        }
        default:
            log("destroy " + std::to_string(k));
            P.erase(P.begin() + (long)k);
            break;
        }
        for (std::size_t i = 0; i < P.size(); ++i) check(*P[i].d, P[i].m, "domain field " + std::to_string(i) + ": ");
    }
    H::count("history steps", steps);
}
}
void runCase(H::Ctx& c)
{
    hostileSchedule(c.rng);
    if (c.rng.chance(0.5)) history<scalar>(c.rng, c.thorough ? 60 : 25);
    else history<Vector>(c.rng, c.thorough ? 60 : 25);
}
