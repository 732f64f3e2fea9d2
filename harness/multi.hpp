// Several workloads in one program: each part includes workload sources into namespaces of their own
// and adds their runCase here; case i runs workload i mod n.
#pragma once
#define NFM_MULTI 1 // (workloads included here leave known findings to the checks of their own)
#include <vector>
#include "nfh.hpp"
namespace Multi
{
struct Work
{
    const char* name;
    void (*run)(H::Ctx&);
};
std::vector<Work>& works();
struct Add
{
    Add(const char* n, void (*f)(H::Ctx&)) { works().push_back({n, f}); }
};
} // namespace Multi
#define MULTI_ADD(NS) static Multi::Add add_##NS(#NS, &NS::runCase);
