// control side of the MPI stand-in
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
#include "mpi.h"
namespace NFMPI
{
// forget everything; n ranks; seed drives the delays. maxDelay: how many polls a completed transfer may stay unreported
void world(int n, uint64_t seed, int maxDelay = 4);
void setRank(int r); // the rank the calling thread plays
MPI_Comm comm(const std::vector<int>& worldRanks); // another communicator
void threads(int n, const std::function<void(int)>& f); // one thread per rank
struct Stats
{
    uint64_t sends = 0, receives = 0, delivered = 0, bytes = 0, pendingTests = 0, reductions = 0, eager = 0, rendezvous = 0, inits = 0, finals = 0;
};
Stats& stats();
std::size_t open(); // requests that were never completed
std::size_t unmatched(); // messages sent but not received
int& threadLevel(); // granted by MPI_Init_thread
}
