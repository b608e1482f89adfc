// Single-threaded variants: no scheduler.
#include <unistd.h>

#include "core.hpp"
#include "sched.hpp"

namespace sim {
void SchedPoint(int) {}
void SchedDumpSwitches(char* out, size_t n) {
  if (n) out[0] = 0;
}
void SchedRealExit(int code) { ::_exit(code); }
}  // namespace sim
