// Harness-side control of the monitoring runtime (not visible to the code under test).
#pragma once
#include <cstdint>
#include <cstddef>
namespace NFM
{
void install();                          // signal handlers
void reseed(uint64_t seed);              // schedule randomness
void setAbortHook(void (*h)(const char*));
bool separateMemory();
void resetIfEmpty();                     // recycle the arenas when nothing is allocated
}
