#ifndef OMP_SHIM_H
#define OMP_SHIM_H
#include <stddef.h>
#include <stdint.h>
namespace shim {
struct point { uint32_t region; int tid; uint32_t ord; };                 // one access of one thread in one parallel region
struct preemption { uint32_t region; int tid; uint32_t ord; int to; };    // hand over to thread `to` before that access
// team size, order in which threads run (0 ascending, 1 descending), forced preemptions, record conflicts
void schedule(int team, int order, const preemption * p, int k, bool record);
size_t points(); point get(size_t i);     // conflicting accesses of the recorded run
uint64_t accesses(); uint64_t region_count();
bool preempted();
void together(void (*f)(void*), void * d, int threads); // run f in that many threads
int self();
}
#endif
