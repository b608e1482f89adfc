// History of one run of the trace world, filled in by thread_world.cc and judged by thread_check.cc.
#pragma once
#include <cstdint>
#include <deque>
#include <string>

namespace sim {
struct ScopeRec {
  int tid = 0;
  std::string name;
  int parent = -1;
  uint64_t begin_b = 0, begin_a = 0, end_b = 0, end_a = 0;  // event sequence numbers
  int64_t t_bb = 0, t_ba = 0, t_eb = 0, t_ea = 0;           // simulated monotonic time at those points
  uint64_t fired_b = 0, fired_a = 0;
  bool ended = false, normal = false, direct = false;
  bool shared = false;  // its name is not its own: known by the order on its thread
  int64_t ts = 0, dur = 0;
};
struct SnapRec {
  int tid = 0;
  uint64_t b = 0, a = 0, fired_b = 0, fired_a = 0;
  bool threw = false;
  std::string text;
};
constexpr uint64_t kCap = 100000;
struct TraceHistory {
  std::deque<ScopeRec> scopes;
  std::deque<SnapRec> snaps;
  uint64_t bulk = 0;      // events submitted before the threads start
  bool timing = false;    // judge timestamps and durations too (C02)
};
void CheckTraceHistory(const TraceHistory& h);
}  // namespace sim
