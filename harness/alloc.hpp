// Allocation monitor (plain build only): counts blocks the library allocates and has not freed, and
// fills fresh blocks with a chosen pattern so that reads of uninitialised memory change the output.
#ifndef VERIF_ALLOC_HPP
#define VERIF_ALLOC_HPP
#include <cstddef>
void alloc_track(bool on);                 // per thread: allocations made while on belong to the library
void alloc_fill(int pattern);              // -1: leave fresh blocks alone
struct AllocStat { long blocks, bytes, total; };
AllocStat alloc_stat();                    // live library blocks and bytes, and blocks ever allocated
void alloc_reset();
bool alloc_active();                       // false in sanitizer builds
long alloc_live_of(void* p);               // bytes if p is a live library block, else -1
#endif
