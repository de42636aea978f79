// Small bounded-exhaustive exploration framework shared by every harness.
//
//  * a harness enumerates CASES (start configurations, input shapes, environment answers ...) in a fixed order;
//    case i is executed by worker (i mod nworkers); every worker is a forked process, so an abort, an out-of-bounds
//    assertion, a sanitizer report or a hang in the code under test is caught, attributed to the case and reported.
//  * inside a case a harness may run a whole state-space search; it reports states / transitions / traces.
//  * every failure is re-run alone in a fresh process before it is reported ("replay before report").
//  * --only <case id> replays exactly one case.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return mix(h, s.size());
}
template <class T>
inline uint64_t hashVec(const std::vector<T>& v) {
  uint64_t h = v.size() + 77;
  for (const auto& x : v) h = mix(h, (uint64_t)x);
  return h;
}

// thrown by CHECK-like helpers to abandon the current (sub)case after a failure was recorded
struct CaseAbort {};

struct Options {
  std::string property;
  std::string technique;
  std::string level = "model_checking"; // or "exploration"
  std::string rule;                     // how cases are made / what is non-trivial
  std::vector<std::string> assumptions;
  double caseCpuLimit = 30; // seconds of CPU allowed for one case before it is called a hang
  bool exhaustive = true;
  int maxWorkers = 8;
};

class Ctx {
public:
  bool thorough = false;
  int seed = 1;
  // --- called by harness
  // Returns true if this process must execute the case now.
  bool begin(const std::string& id);
  // cheap variant: skip id construction when the case belongs to another worker
  template <class F>
  bool beginf(F&& idf) {
    if (!mine()) return false;
    return begin_(idf());
  }
  // record a failure of the property. key identifies the specific failing input/site (stable across runs)
  void fail(const std::string& key, const std::string& msg);
  // annotate what is being executed (used for crash attribution)
  void note(const std::string& s);
  void state(uint64_t h);                 // a distinct (canonical) state / input
  void transition(uint64_t n = 1);        // implementation step compared with the model
  void trace(uint64_t n = 1);             // complete trace validated
  void eval(uint64_t n = 1);              // one evaluation of the oracle
  void outcome(const std::string& label); // classify observed outcomes (non-vacuity evidence)
  void sample(const std::string& s);
  void capped(const std::string& why);
  bool failedThisCase() const { return failedInCase; }
  std::string caseId;

  // internals
  bool mine();
  bool begin_(const std::string& id);
  uint64_t index = 0; // next case index
  bool failedInCase = false;
  uint64_t failCount = 0;
};

// Entry point: call from main
int run(int argc, char** argv, const Options& opts, const std::function<void(Ctx&)>& body);

// ---- small helpers
template <class... A>
inline std::string cat(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  int dummy[] = {0, ((o << a), 0)...};
  (void)dummy;
  return o.str();
}
template <class T>
inline std::string str(const std::vector<T>& v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
  o << "]";
  return o.str();
}
inline std::string str(const std::vector<std::vector<size_t>>& v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << str(v[i]);
  o << "]";
  return o.str();
}
inline bool close(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::abs(a - b) <= tol;
}
inline bool closeRel(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b)));
}

} // namespace mc
