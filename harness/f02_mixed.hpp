// operations of fields with operands of another kind; in a file of their own, which has to compile
#pragma once
#include "nfk.hpp"
namespace FV
{
void scaledByField(const Field<Vector>& f, const std::vector<Vector>& A, const std::vector<scalar>& S, const std::string& w);
void scaledByFieldRejects(Field<Vector>& f, std::size_t m, const std::string& w);
template<typename T>
void comparedWithViews(const Field<T>& f, const std::vector<T>& A, const Field<T>& y, const std::vector<T>& C, bool differs, const std::string& w);
}
