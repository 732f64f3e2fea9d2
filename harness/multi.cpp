#include "multi.hpp"
#include "nfk.hpp"
#include <algorithm>
namespace Multi
{
std::vector<Work>& works()
{
    static std::vector<Work> w;
    return w;
}
} // namespace Multi
void harnessInit()
{
    FV::init();
    auto& w = Multi::works();
    std::sort(w.begin(), w.end(), [](auto& a, auto& b) { return std::string(a.name) < b.name; });
}
void harnessCaseEnd() { FV::caseEnd(); }
void runCase(H::Ctx& c)
{
    auto& w = Multi::works();
    auto& k = w[c.index % w.size()];
    auto i = c.index;
    c.index /= w.size();
    H::count((std::string("cases of workload ") + k.name).c_str());
    H::sig(k.name);
    k.run(c);
    c.index = i;
}
