// Decoding of the snapshots of one run and the judgement over its recorded history (C01, C02).
// Compiled without instrumentation, and with its own copy of the JSON library, so that only the code under test
// and the calls into it are scheduled.
#ifdef SIM_SCHED
#define JSON_DIAGNOSTICS 1
#include <algorithm>
#include <cmath>
#include <map>
#include <vector>

#include <nlohmann/json.hpp>

#include "core.hpp"
#include "sched.hpp"
#include "thread_hist.hpp"

namespace sim {
namespace {
// ---------------------------------------------------------------- decoding snapshots
struct DecEvent {
  std::string name;
  int64_t ts = 0, pid = -1, tid = -1, dur = 0;
  unsigned have = 0;
  bool operator==(const DecEvent& o) const { return name == o.name && ts == o.ts && pid == o.pid && tid == o.tid && dur == o.dur; }
};
struct SaxReader : nlohmann::json_sax<nlohmann::json> {
  std::vector<DecEvent> events;
  std::string error;
  int depth = 0, arr_depth = -1;
  std::string last_key;
  bool saw_events = false;
  bool Num(int64_t v) {
    if (arr_depth >= 0 && depth == arr_depth + 1) {
      DecEvent& e = events.back();
      if (last_key == "ts") e.ts = v, e.have |= 1;
      if (last_key == "pid") e.pid = v, e.have |= 2;
      if (last_key == "tid") e.tid = v, e.have |= 4;
      if (last_key == "dur") e.dur = v, e.have |= 8;
    }
    return true;
  }
  bool null() override { return true; }
  bool boolean(bool) override { return true; }
  bool number_integer(number_integer_t v) override { return Num(v); }
  bool number_unsigned(number_unsigned_t v) override { return Num(static_cast<int64_t>(v)); }
  bool number_float(number_float_t v, const string_t&) override {
    if (v == std::floor(v) && std::abs(v) < 9e15) return Num(static_cast<int64_t>(v));
    if (arr_depth >= 0) error = "a number in an event is not whole";
    return true;
  }
  bool string(string_t& s) override {
    if (arr_depth >= 0 && depth == arr_depth + 1) {
      if (last_key == "name") events.back().name = s, events.back().have |= 16;
      if (last_key == "ph" && s == "X") events.back().have |= 32;
    }
    return true;
  }
  bool binary(binary_t&) override { return true; }
  bool start_object(std::size_t) override {
    if (arr_depth >= 0 && depth == arr_depth) events.emplace_back();
    ++depth;
    return true;
  }
  bool key(string_t& k) override {
    last_key = k;
    return true;
  }
  bool end_object() override {
    --depth;
    if (arr_depth >= 0 && depth == arr_depth && events.back().have != 63) error = "an event lacks a field";
    return true;
  }
  bool start_array(std::size_t) override {
    ++depth;
    if (depth == 2 && last_key == "traceEvents") {
      arr_depth = depth;
      saw_events = true;
    }
    return true;
  }
  bool end_array() override {
    if (depth == arr_depth) arr_depth = -1;
    --depth;
    return true;
  }
  bool parse_error(std::size_t pos, const std::string&, const nlohmann::detail::exception& ex) override {
    error = "byte " + std::to_string(pos) + ": " + ex.what();
    return false;
  }
};

std::string Clip(const std::string& s, size_t n = 120) {
  std::string r;
  for (char ch : s.substr(0, n)) r += (static_cast<unsigned char>(ch) < 32 || ch == 127) ? '?' : ch;
  return r;
}

struct Decoded {
  bool ok = false;
  std::vector<DecEvent> ev;
  std::vector<int> id;  // scope index or -1-k for bulk event k
};

using SharedNames = std::map<std::pair<std::string, int64_t>, std::vector<int>>;

void Decode(const TraceHistory& h, const SnapRec& s, const std::map<std::string, int>& by_name, const SharedNames& shared, Decoded* d) {
  std::map<std::pair<std::string, int64_t>, size_t> met;
  if (s.threw) return;
  SaxReader r;
  const bool ok = nlohmann::json::sax_parse(s.text, &r);
  if (!ok) Violation("malformed-json", "a snapshot is not well-formed JSON: %s", Clip(r.error, 200).c_str());
  if (!r.saw_events) Violation("malformed-json", "a snapshot has no traceEvents array");
  if (!r.error.empty()) Violation("malformed-json", "%s", r.error.c_str());
  d->ok = true;
  d->ev = std::move(r.events);
  std::vector<bool> seen(static_cast<size_t>(h.bulk) + h.scopes.size());
  for (const DecEvent& e : d->ev) {
    int id;
    if (e.name == "bulk") {
      id = -1 - static_cast<int>(e.ts);
      if (e.ts < 0 || static_cast<uint64_t>(e.ts) >= h.bulk || e.pid != SchedPid() || e.tid != SchedKernelTid(0) || e.dur != e.ts % 7)
        Violation("event-modified", "a stored event came back changed: bulk ts %ld dur %ld pid %ld tid %ld", e.ts, e.dur, e.pid, e.tid);
    } else {
      auto it = by_name.find(e.name);
      auto sh = shared.find({e.name, e.tid});
      if (sh != shared.end()) {
        const size_t k = met[{e.name, e.tid}]++;
        if (k >= sh->second.size())
          Violation("event-duplicate", "%zu events named \"%s\" on thread %ld, but only %zu such scopes", k + 1, Clip(e.name).c_str(), e.tid, sh->second.size());
        id = sh->second[k];
      } else if (it == by_name.end()) {
        Violation("event-invented", "a snapshot holds an event no scope has: \"%s\"", Clip(e.name).c_str());
      } else {
        id = it->second;
      }
      const ScopeRec& sc = h.scopes[static_cast<size_t>(id)];
      if (e.pid != SchedPid()) Violation("event-pid", "event \"%s\" carries process id %ld, expected %u", Clip(e.name).c_str(), e.pid, SchedPid());
      if (e.tid != SchedKernelTid(sc.tid))
        Violation("event-tid", "event \"%s\" of thread %u carries thread id %ld", Clip(e.name).c_str(), SchedKernelTid(sc.tid), e.tid);
      if (sc.ended && !sc.normal) Violation("event-after-exception", "scope \"%s\" was left by an exception but has an event", Clip(e.name).c_str());
      if (!sc.end_b || sc.end_b > s.a) Violation("event-early", "event \"%s\" is in a snapshot taken before its scope began to end", Clip(e.name).c_str());
      if (sc.direct && (e.ts != sc.ts || e.dur != sc.dur / 1000)) Violation("event-modified", "a submitted event came back changed");
    }
    const size_t slot = id < 0 ? static_cast<size_t>(-1 - id) : static_cast<size_t>(h.bulk) + static_cast<size_t>(id);
    if (seen[slot]) Violation("event-duplicate", "event \"%s\" appears twice in one snapshot", Clip(e.name).c_str());
    seen[slot] = true;
    d->id.push_back(id);
  }
}

}  // namespace

void CheckTraceHistory(const TraceHistory& h) {
  std::map<std::string, int> by_name;
  SharedNames shared;
  for (size_t i = 0; i < h.scopes.size(); ++i) {
    const ScopeRec& sc = h.scopes[i];
    if (sc.shared)
      shared[{sc.name, SchedKernelTid(sc.tid)}].push_back(static_cast<int>(i));
    else
      by_name[sc.name] = static_cast<int>(i);
  }
  if (h.snaps.empty()) return;
  std::vector<Decoded> dec(h.snaps.size());
  for (size_t i = 0; i < h.snaps.size(); ++i) Decode(h, h.snaps[i], by_name, shared, &dec[i]);
  size_t fin = h.snaps.size() - 1;
  if (!dec[fin].ok) return;
  const Decoded& F = dec[fin];
  // the common order: bulk events, then the others in the order of the last snapshot
  std::vector<int> order;
  std::map<int, size_t> pos;
  std::map<int, const DecEvent*> body;
  for (size_t i = 0; i < F.id.size(); ++i)
    if (F.id[i] >= 0) {
      pos[F.id[i]] = order.size();
      order.push_back(F.id[i]);
      body[F.id[i]] = &F.ev[i];
    }
  const uint64_t n = order.size();
  auto expect = [&](uint64_t m, std::vector<int>* out) {  // m non-bulk events recorded
    out->clear();
    const uint64_t total = h.bulk + m, first = total > kCap ? total - kCap : 0;
    for (uint64_t k = first; k < total; ++k) out->push_back(k < h.bulk ? -1 - static_cast<int>(k) : order[k - h.bulk]);
  };
  std::vector<int> want;
  for (size_t i = 0; i < dec.size(); ++i) {
    if (!dec[i].ok) continue;
    uint64_t m = 0;
    for (int id : dec[i].id)
      if (id >= 0) ++m;
    if (m > n) Violation("snapshot-order", "an earlier snapshot holds %lu scopes, the last one %lu", static_cast<unsigned long>(m), static_cast<unsigned long>(n));
    expect(m, &want);
    if (want.size() != dec[i].id.size()) {
      Violation("snapshot-window", "snapshot %zu of %zu holds %zu events, expected %zu (%lu submitted in bulk)", i, dec.size(), dec[i].id.size(), want.size(), static_cast<unsigned long>(h.bulk));
    }
    for (size_t k = 0; k < want.size(); ++k)
      if (want[k] != dec[i].id[k]) Violation("snapshot-order", "snapshot %zu is not a prefix of the common order: position %zu", i, k);
    for (size_t k = 0; k < want.size(); ++k)
      if (want[k] >= 0 && !(dec[i].ev[k] == *body[want[k]])) Violation("event-modified", "an event differs between two snapshots");
    // everything recorded before the snapshot began is there
    const SnapRec& s = h.snaps[i];
    for (size_t q = 0; q < h.scopes.size(); ++q) {
      const ScopeRec& sc = h.scopes[q];
      if (!sc.ended || !sc.normal || !sc.end_a || sc.end_a >= s.b) continue;
      auto p = pos.find(static_cast<int>(q));
      const bool in = p != pos.end() && p->second < m;
      if (!in) {
        if (sc.fired_a != sc.fired_b) {
          Count("events_lost_to_oom");
          continue;
        }
        Violation("event-lost", "scope \"%s\" on thread %d exited normally before the snapshot but has no event", Clip(sc.name).c_str(), sc.tid);
      }
    }
    State(HashU(m, HashU(static_cast<uint64_t>(s.tid), 77)));
  }
  // order consistent with real time
  uint64_t max_begin = 0;
  for (int id : order) {
    const ScopeRec& sc = h.scopes[static_cast<size_t>(id)];
    if (sc.end_a && sc.end_a < max_begin) Violation("real-time-order", "event \"%s\" comes after an event that began ending later", Clip(sc.name).c_str());
    max_begin = std::max(max_begin, sc.end_b);
  }
  Count("events_checked", n);
  // timestamps (C02)
  if (!h.timing) return;
  __int128 lo = -(static_cast<__int128>(1) << 100), hi = static_cast<__int128>(1) << 100;
  const ScopeRec* who_lo = nullptr;
  const ScopeRec* who_hi = nullptr;
  for (int id : order) {
    const ScopeRec& sc = h.scopes[static_cast<size_t>(id)];
    if (sc.direct) continue;
    const DecEvent& e = *body[id];
    // start lies in [t_bb, t_ba]; ts = floor((start - origin) / 1000)
    const __int128 from = static_cast<__int128>(sc.t_bb) - static_cast<__int128>(e.ts) * 1000 - 1000, to = static_cast<__int128>(sc.t_ba) - static_cast<__int128>(e.ts) * 1000;
    if (from > lo) lo = from, who_lo = &sc;
    if (to < hi) hi = to, who_hi = &sc;
    if (lo > hi)
      Violation("timestamp", "start times of \"%s\" and \"%s\" do not lie on one monotonic timeline (%ld ns apart or more)", Clip(who_lo->name).c_str(),
                Clip(who_hi->name).c_str(), static_cast<long>(lo - hi));
    const int64_t dmin = std::max<int64_t>(0, sc.t_eb - sc.t_ba), dmax = sc.t_ea - sc.t_bb;
    if (e.dur < dmin / 1000 || e.dur > (dmax + 999) / 1000)
      Violation("duration", "scope \"%s\" lasted between %ld and %ld ns but its event says %ld us", Clip(sc.name).c_str(), static_cast<long>(dmin), static_cast<long>(dmax), e.dur);
    if (sc.parent >= 0) {
      auto p = body.find(sc.parent);
      if (p != body.end() && !h.scopes[static_cast<size_t>(sc.parent)].direct) {
        const DecEvent& o = *p->second;
        if (e.ts < o.ts || e.ts + e.dur > o.ts + o.dur + 1) Violation("nesting", "event \"%s\" does not lie within the scope around it", Clip(e.name).c_str());
        Count("nested_pairs");
      }
    }
  }
}
}  // namespace sim
#endif
