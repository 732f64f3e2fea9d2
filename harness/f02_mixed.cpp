#include "f02_mixed.hpp"
namespace FV
{
void scaledByField(const Field<Vector>& f, const std::vector<Vector>& A, const std::vector<scalar>& S, const std::string& w)
{
    std::vector<Vector> wMul;
    for (std::size_t i = 0; i < A.size(); ++i) wMul.push_back(A[i] * S[i]);
    auto sf = field(f.exec(), S);
    Field<Vector> x(f);
    auto p = x * sf;
    expectEq(values(p), wMul, w + "a*s (fields)");
    expectEq(values(x), A, w + "left operand of a*s");
    x *= sf;
    expectEq(values(x), wMul, w + "a*=s (fields)");
    Field<Vector> z(f);
    mul(z, sf);
    expectEq(values(z), wMul, w + "mul by a scalar field");
    expectEq(values(sf), S, w + "scalar operand");
    H::count("vector fields multiplied by scalar fields", 3);
}
void scaledByFieldRejects(Field<Vector>& f, std::size_t m, const std::string& mm)
{
    auto sf = field(f.exec(), std::vector<scalar>(m, 2.0));
    H_THROWS(f *= sf, std::exception, mm << " *= (scalar field)");
    H_THROWS((void)(f * sf), std::exception, mm << " * (scalar field)");
    H_THROWS(mul(f, sf), std::exception, mm << " mul (scalar field)");
}
template<typename T>
void comparedWithViews(const Field<T>& f, const std::vector<T>& A, const Field<T>& y, const std::vector<T>& C, bool differs, const std::string& w)
{
    auto a = A, c = C;
    // views are compared on the host
    H_CHECK(equal(f, View<T>(a.data(), a.size())) && equal(y, View<T>(c.data(), c.size())), w << "a field is not equal to a view of its values");
    H_CHECK(equal(f, View<T>(c.data(), c.size())) == !differs, w << "equal(field, view) does not see a difference");
    H_CHECK(!equal(f, View<T>(a.data(), a.size() - 1)), w << "a field equals a shorter view");
    H::count("fields compared with views", 4);
}
template void comparedWithViews(const Field<scalar>&, const std::vector<scalar>&, const Field<scalar>&, const std::vector<scalar>&, bool, const std::string&);
template void comparedWithViews(const Field<Vector>&, const std::vector<Vector>&, const Field<Vector>&, const std::vector<Vector>&, bool, const std::string&);
template void comparedWithViews(const Field<label>&, const std::vector<label>&, const Field<label>&, const std::vector<label>&, bool, const std::string&);
template void comparedWithViews(const Field<localIdx>&, const std::vector<localIdx>&, const Field<localIdx>&, const std::vector<localIdx>&, bool, const std::string&);
}
