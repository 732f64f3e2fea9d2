// F02: field arithmetic is elementwise; every operator and free function against a reference loop, with operands
// that are the target itself, on every executor; length mismatches must throw and change nothing.
#include "f02_mixed.hpp"
using namespace FV;
FV_MAIN

namespace
{
template<typename T>
void expectExact(const Field<T>& f, const std::vector<T>& want, const std::string& what)
{
    expectEq(values(f), want, what);
}

template<typename T>
struct Ops
{
    Rng& r;
    Executor e;
    std::size_t n;
    std::string w;
    std::vector<T> A, B;
    std::vector<scalar> S;

    template<typename F>
    std::vector<T> zip(const std::vector<T>& a, const std::vector<T>& b, F f)
    {
        std::vector<T> o;
        for (std::size_t i = 0; i < a.size(); ++i) o.push_back(f(a[i], b[i]));
        return o;
    }
    void run()
    {
        auto plus = [](T a, T b) { return T(a + b); };
        auto minus = [](T a, T b) { return T(a - b); };
        auto f = field(e, A), g = field(e, B);
        const auto cf = field(e, A);
        const auto cg = field(e, B);
        auto unchanged = [&](const std::string& what)
        {
            expectExact(cf, A, what + ": left operand");
            expectExact(cg, B, what + ": right operand");
        };
        auto wPlus = zip(A, B, plus), wMinus = zip(A, B, minus);
        {
            auto s = cf + cg;
            H_CHECK(s.exec() == e, "the sum is on another executor");
            expectExact(s, wPlus, w + "a+b");
            auto d = cf - cg;
            expectExact(d, wMinus, w + "a-b");
            unchanged("a+b, a-b");
            auto t = (cf + cg) - cf;
            expectExact(t, zip(wPlus, A, minus), w + "(a+b)-a");
        }
        {
            Field<T> x(f);
            auto& ref = (x += g);
            H_CHECK(&ref == &x, "+= does not return its target");
            expectExact(x, wPlus, w + "a+=b");
            (x -= g) -= g;
            expectExact(x, zip(zip(wPlus, B, minus), B, minus), w + "a-=b twice");
        }
        {
            Field<T> x(f);
            add(x, g);
            expectExact(x, wPlus, w + "add");
            Field<T> y(f);
            sub(y, g);
            expectExact(y, wMinus, w + "sub");
            expectExact(g, B, w + "operand of add/sub");
        }
        { // the target is its own operand
            Field<T> x(f);
            x += x;
            expectExact(x, zip(A, A, plus), w + "a+=a");
            Field<T> y(f);
            y -= y;
            expectExact(y, zip(A, A, minus), w + "a-=a");
            auto z = f + f;
            expectExact(z, zip(A, A, plus), w + "a+a");
            H::count("operations with an aliased operand", 3);
        }
        if constexpr (!std::is_integral_v<T>)
        {
            scalar q = r.pick({r.dyadic(), 0.0, 1.0, -1.0, 0.1, 1e300, -3.7e-200});
            std::vector<T> m;
            for (auto& a : A) m.push_back(a * q);
            Field<T> x(f);
            auto p = x * q;
            expectExact(p, m, w + "a*s");
            expectExact(x, A, w + "operand of a*s");
            x *= q;
            expectExact(x, m, w + "a*=s");
            Field<T> y(f);
            scalarMul(y, q);
            expectExact(y, m, w + "scalarMul");
        }
        if constexpr (std::is_same_v<T, scalar>)
        {
            auto times = [](T a, T b) { return a * b; };
            auto wMul = zip(A, B, times);
            Field<T> x(f);
            auto p = x * g;
            expectExact(p, wMul, w + "a*b");
            expectExact(x, A, w + "left operand of a*b");
            expectExact(g, B, w + "right operand of a*b");
            x *= g;
            expectExact(x, wMul, w + "a*=b");
            Field<T> y(f);
            y *= y;
            expectExact(y, zip(A, A, times), w + "a*=a");
            Field<T> z(f);
            mul(z, g);
            expectExact(z, wMul, w + "mul");
        }
        if constexpr (std::is_same_v<T, Vector>) scaledByField(f, A, S, w);
        // equality of fields follows the elements
        {
            Field<T> x(f);
            H_CHECK(equal(x, f), w << "a field is not equal to its copy");
            if (n)
            {
                auto C = A;
                std::size_t i = r.below(n);
                C[i] = C[i] + T(rnd<T>(r) + rnd<T>(r));
                bool differs = !eq(C[i], A[i]);
                Field<T> y = field(e, C);
                H_CHECK(equal(y, f) == !differs, w << "equal() does not see a difference at [" << i << "]");
                Field<T> one(e, n, A[0]);
                bool uniform = true;
                for (auto& a : A) uniform = uniform && eq(a, A[0]);
                comparedWithViews(f, A, y, C, differs, w);
                H_CHECK(equal(one, A[0]), w << "a uniform field does not equal its value");
                H_CHECK(equal(f, A[0]) == uniform, w << "equal(field, value) is wrong");
                Field<T> longer = field(e, [&] { auto v = A; v.push_back(A[0]); return v; }());
                H_CHECK(!equal(longer, f) && !equal(f, longer), w << "fields of different length compare equal");
            }
        }
#ifndef NF_DEBUG
        mismatch(f);
#endif
    }
    void mismatch(Field<T>& f)
    {
        std::size_t m = r.below(n + 4);
        if (m == n) m = n + 1;
        auto V = rndVec<T>(r, m);
        auto g = field(e, V);
        std::string mm = w + " with lengths " + std::to_string(n) + "," + std::to_string(m);
        auto check = [&](const char* op)
        {
            expectExact(f, A, mm + ": target changed by rejected " + op);
            expectExact(g, V, mm + ": operand changed by rejected " + op);
        };
        H_THROWS(f += g, std::exception, mm << " +=");
        check("+=");
        H_THROWS(f -= g, std::exception, mm << " -=");
        check("-=");
        H_THROWS(add(f, g), std::exception, mm << " add");
        check("add");
        H_THROWS(sub(f, g), std::exception, mm << " sub");
        check("sub");
        H_THROWS((void)(f + g), std::exception, mm << " +");
        H_THROWS((void)(f - g), std::exception, mm << " -");
        check("+/-");
        if constexpr (std::is_same_v<T, Vector>)
        {
            scaledByFieldRejects(f, m, mm);
            check("* (scalar field)");
        }
        if constexpr (std::is_same_v<T, scalar>)
        {
            H_THROWS(f *= g, std::exception, mm << " *=");
            check("*=");
            H_THROWS((void)(f * g), std::exception, mm << " *");
            H_THROWS(mul(f, g), std::exception, mm << " mul");
            check("*");
        }
        H::count("length mismatches rejected", 6);
    }
};
template<typename T>
void one(Rng& r)
{
    Executor e = anyExec(r);
    std::size_t n = r.chance(0.02) ? 1000 + r.below(5000) : r.chance(0.15) ? 0 : r.chance(0.1) ? 1 : r.chance(0.1) ? 50 + r.below(200) : r.below(16);
    Ops<T> o {r, e, n, "", {}, {}, {}};
    o.A = rndVec<T>(r, n);
    o.B = rndVec<T>(r, n);
    o.S = rndVec<scalar>(r, n);
    if constexpr (!std::is_integral_v<T>)
        if (r.chance(0.3))
            for (auto& x : o.A) x = x * std::ldexp(r.uniform(-1, 1), (int)r.range(-60, 60));
    o.w = std::string(tname<T>()) + "[" + std::to_string(n) + "] on " + exName(e) + ": ";
    H::note(o.w + str(o.A) + " " + str(o.B));
    H::sig(o.w + str(o.A));
    H::seen("lengths", n);
    o.run();
    H::count("elements combined", n * 10);
}
}
void runCase(H::Ctx& c)
{
    hostileSchedule(c.rng);
    for (int k = 0; k < 4; ++k)
    {
        one<scalar>(c.rng);
        one<Vector>(c.rng);
        one<label>(c.rng);
        one<localIdx>(c.rng);
    }
}
