// cpptrace is not installed here; error.hpp only needs generate_trace().to_string()
#pragma once
#include <string>
namespace cpptrace
{
struct stacktrace
{
    std::string to_string(bool = false) const { return "<trace>"; }
};
inline stacktrace generate_trace() { return {}; }
}
