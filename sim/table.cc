#include "worlds.hpp"
namespace sim {
const PropDef* FindProp(const std::string& id) {
  static std::vector<PropDef>* table = [] {
    auto* t = new std::vector<PropDef>;
#ifdef SIM_SCHED
    RegisterThreads(t);
#else
    RegisterNls(t);
    RegisterQp(t);
    RegisterStore(t);
    RegisterReject(t);
    RegisterAccum(t);
#endif
    return t;
  }();
  for (const PropDef& d : *table)
    if (id == d.id) return &d;
  return nullptr;
}
}  // namespace sim
