// F10: vector and scalar primitives against componentwise references, all operators, hostile values, aliased operands.
// Compiled in double and in single precision.
#include "nfh.hpp"
#include "nfm_control.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
#include "NeoFOAM/core/primitives/scalar.hpp"
#include "NeoFOAM/core/primitives/label.hpp"
#include "NeoFOAM/fields/field.hpp"
using namespace NeoFOAM;
using H::Rng;
void harnessInit() { NFM::install(); }
void harnessCaseEnd() {}

namespace
{
bool bits(scalar a, scalar b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b || (std::isnan(a) && std::isnan(b)); }
std::string str(const std::array<scalar, 3>& v)
{
    std::ostringstream o;
    o.precision(17);
    o << "(" << v[0] << " " << v[1] << " " << v[2] << ")";
    return o.str();
}
using A3 = std::array<scalar, 3>;
scalar val(Rng& r)
{
    switch (r.below(12))
    {
    case 0: return 0;
    case 1: return -scalar(0);
    case 2: return std::numeric_limits<scalar>::max();
    case 3: return -std::numeric_limits<scalar>::min();
    case 4: return std::numeric_limits<scalar>::denorm_min();
    case 5: return std::numeric_limits<scalar>::infinity();
    case 6: return scalar(1) / 3;
    case 7: return (scalar)r.uniform(-1e6, 1e6);
    case 8: return (scalar)std::ldexp(r.uniform(-1, 1), (int)r.range(-100, 100));
    default: return (scalar)r.dyadic();
    }
}
A3 get(const Vector& v) { return {v[0], v[1], v[2]}; }
void same(const Vector& v, const A3& w, const char* what)
{
    for (std::size_t i = 0; i < 3; ++i)
    {
        H_CHECK(bits(v[i], w[i]), what << ": component " << i << " is " << v[i] << " instead of " << w[i]);
        H_CHECK(bits(v(i), v[i]) && bits(v.data()[i], v[i]), what << ": component access paths disagree");
    }
}
}
void runCase(H::Ctx& c)
{
    Rng& r = c.rng;
    for (int k = 0; k < 40; ++k)
    {
        A3 a {val(r), val(r), val(r)}, b {val(r), val(r), val(r)};
        if (r.chance(0.2)) b = a;
        scalar s = val(r);
        label l = r.chance(0.3) ? (label)r.range(-2147483647, 2147483647) : (label)r.range(-1000, 1000);
        c.notes = str(a) + " " + str(b) + " " + std::to_string(s) + " " + std::to_string(l);
        H::sig(c.notes);
        Vector u(a[0], a[1], a[2]), v(b[0], b[1], b[2]);
        const Vector cu(u), cv(v);
        auto map2 = [&](auto f) { return A3 {f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])}; };
        auto map1 = [&](auto f) { return A3 {f(a[0]), f(a[1]), f(a[2])}; };
        auto add = [](scalar x, scalar y) { return scalar(x + y); };
        auto sub = [](scalar x, scalar y) { return scalar(x - y); };
        same(u, a, "constructor");
        same(Vector(s), {s, s, s}, "uniform constructor");
        same(Vector(), {0, 0, 0}, "default constructor");
        same(zero<Vector>(), {0, 0, 0}, "zero");
        same(one<Vector>(), {1, 1, 1}, "one");
        H_CHECK(zero<scalar>() == 0 && one<scalar>() == 1 && zero<localIdx>() == 0 && one<localIdx>() == 1, "zero/one of primitives");
        H_CHECK(u.size() == 3, "size");
        same(cu + cv, map2(add), "a+b");
        same(cu - cv, map2(sub), "a-b");
        same(cu * s, map1([&](scalar x) { return scalar(x * s); }), "a*scalar");
        same(s * cu, map1([&](scalar x) { return scalar(x * s); }), "scalar*a");
        same(cu * l, map1([&](scalar x) { return scalar(x * l); }), "a*label");
        {
            Vector w(u);
            Vector& q = (w += v);
            H_CHECK(&q == &w, "+= does not return its target");
            same(w, map2(add), "a+=b");
        }
        {
            Vector w(u);
            Vector& q = (w -= v);
            H_CHECK(&q == &w, "-= does not return its target");
            same(w, map2(sub), "a-=b");
        }
        {
            Vector w(u);
            Vector& q = (w *= s);
            H_CHECK(&q == &w, "*= does not return its target");
            same(w, map1([&](scalar x) { return scalar(x * s); }), "a*=scalar");
        }
        // operands that are (part of) the target
        {
            Vector w(u);
            w += w;
            same(w, map1([&](scalar x) { return scalar(x + x); }), "a+=a");
            Vector x(u);
            x -= x;
            same(x, map1([&](scalar y) { return scalar(y - y); }), "a-=a");
            std::size_t i = r.below(3);
            Vector y(u);
            y *= y[i];
            same(y, map1([&](scalar z) { return scalar(z * a[i]); }), "a*=a[i]");
            Vector z(u);
            z = z * z[i];
            same(z, map1([&](scalar t) { return scalar(t * a[i]); }), "a=a*a[i]");
            Vector p(u);
            p = p[i] * p;
            same(p, map1([&](scalar t) { return scalar(t * a[i]); }), "a=a[i]*a");
            Vector q(u);
            q = q + q;
            same(q, map1([&](scalar t) { return scalar(t + t); }), "a=a+a");
            H::count("aliased operations", 6);
        }
        // inner product, magnitude
        {
            scalar d = cu & cv, want = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
            double m = std::fabs((double)a[0] * b[0]) + std::fabs((double)a[1] * b[1]) + std::fabs((double)a[2] * b[2]);
            bool ok = bits(d, want) || std::fabs((double)d - (double)want) <= 8 * std::numeric_limits<scalar>::epsilon() * m
                   || !std::isfinite(m) || m > std::numeric_limits<scalar>::max();
            H_CHECK(ok, "inner product is " << d << " instead of " << want);
            H_CHECK(bits(cu & cv, cv & cu) || !std::isfinite(m), "inner product is not symmetric");
            scalar g = mag(cu);
            double n2 = (double)a[0] * a[0] + (double)a[1] * a[1] + (double)a[2] * a[2];
            if (std::isfinite(n2) && n2 < std::numeric_limits<scalar>::max() && n2 > 1e6 * std::numeric_limits<scalar>::min())
                H_CHECK(std::fabs((double)g - std::sqrt(n2)) <= 16 * std::numeric_limits<scalar>::epsilon() * std::sqrt(n2), "mag is " << g << " instead of " << std::sqrt(n2));
            if (n2 == 0) H_CHECK(g == 0, "mag of the zero vector is " << g);
            H_CHECK(!(g < 0), "negative magnitude " << g);
            H_CHECK(bits(mag(s), std::fabs(s)), "mag(" << s << ") is " << mag(s));
        }
        // equality
        {
            bool eqv = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
            H_CHECK((cu == cv) == eqv && (cu != cv) == !eqv, "comparison of vectors is wrong");
            H_CHECK(cu == cu, "a vector differs from itself");
            for (std::size_t i = 0; i < 3; ++i)
            {
                Vector w(u);
                w[i] = std::isfinite(a[i]) && a[i] != std::numeric_limits<scalar>::max() ? std::nextafter(a[i], std::numeric_limits<scalar>::infinity()) : scalar(0);
                H_CHECK(!(w == cu) && !(cu == w), "vectors that differ in component " << i << " compare equal");
                Vector x(u);
                x(i) = s;
                A3 e = a;
                e[i] = s;
                same(x, e, "component assignment");
                x.data()[i] = scalar(7);
                H_CHECK(x[i] == 7, "data() is not the storage");
            }
        }
        // printing keeps the order of the components
        {
            std::ostringstream o, w;
            o << cu;
            w << "(" << a[0] << " " << a[1] << " " << a[2] << ")";
            H_CHECK(o.str() == w.str(), "printed as " << o.str());
        }
        same(u, a, "left operand modified");
        same(v, b, "right operand modified");
        Vector t(u);
        t = v;
        same(t, b, "assignment");
        t[0] = scalar(5);
        same(v, b, "assigned vector shares storage");
        H::seen("operand pairs", c.sig);
    }
}
