#pragma once
#include "nfh.hpp"
#include "NeoFOAM/core/error.hpp"
#include "NeoFOAM/core/demangle.hpp"
#include "NeoFOAM/helpers/exceptions.hpp"
struct Eval
{
    int n = 0;
    bool operator()(bool v)
    {
        n++;
        return v;
    }
    int val(int v)
    {
        n++;
        return v;
    }
};
void throwingMacros(H::Rng& r); // c10_throwing.cpp
void bareBranches(H::Rng& r);
void manyAtOnce(H::Rng& r);
void diagnostics(H::Rng& r);
// texts of all sorts: long ones, several lines, format characters
inline std::string callerText(H::Rng& r)
{
    std::string t = "text " + r.word(10);
    if (r.chance(0.15)) t += std::string(r.below(20000), 'x') + r.word(5);
    if (r.chance(0.15)) t += "%s%n%d {} \\ \"q\" 'q' `b`";
    if (r.chance(0.1)) t += "\nsecond line\n\n  fourth line";
    if (r.chance(0.03)) t = "";
    return t;
}
// the message must contain text, condition, file name and line
void checkMessage(const std::string& m, const std::string& text, const std::string& cond, const char* file, int line, const char* how);
