// Thread seam. In the "sched" variant: real pthreads, exactly one of them running at any time; every memory
// access of the code under test is a possible preemption point and is checked by a vector-clock race
// detector. In the other variants: stubs.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {
struct Plan;
void SchedPoint(int kind);                      // possible preemption (library context only)
void SchedDumpSwitches(char* out, size_t n);    // schedule taken so far
[[noreturn]] void SchedRealExit(int code);
#ifdef SIM_SCHED
void* SchedArenaAlloc(size_t n);
bool SchedInArena(const void* p);
void SchedOnAlloc(void* p, size_t n);
void SchedOnFree(void* p, size_t n);
void SchedEnterChild();                         // from here on all memory comes from the arena
// policy: explicit switches ("sw" items) or a seeded policy ("sched" item)
void SchedConfigure(const Plan& plan);
void SchedStart();                              // main thread becomes sim thread 0
int SchedSpawn(void (*fn)(void*), void* arg);   // returns sim thread id
void SchedJoin(int tid);
void SchedYield();                              // preemption point that also counts in harness context
int SchedSelf();
uint32_t SchedKernelTid(int tid);               // simulated kernel tid of a sim thread
uint32_t SchedPid();
uint64_t SchedSteps();
uint64_t SchedSwitches();
uint64_t SchedScheduleHash();
uint64_t SchedNow();                            // global event sequence number (advances on every call)
#endif
}  // namespace sim
