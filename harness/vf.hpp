// Monitor framework shared by every driver in this directory.
//
// A driver registers "groups" of cases.  Each case is a pure function of (VERIF_SEED, group, case index): it
// builds inputs, runs the real library, and feeds what it observes to an oracle.  The framework forks worker
// processes that run the cases, so that a sanitizer abort, a crash or a hang in one case is observed by the
// parent, attributed to that case, and does not hide the rest.
//
//  - ctx.check(cond, key, detail...)   the oracle's verdict on one observation
//  - ctx.saw(tag, hash)                one observed event, with a hash of its content (distinctness is counted)
//  - ctx.sample(text)                  a written-out example of a case
//  - UBSan reports are delivered in process through __ubsan_on_report; ASan reports through the error callback;
//    both are attributed to the case that was running.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // uniform in [lo, hi]
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool chance(int num, int den) { return below(den) < (uint64_t)num; }
  bool coin() { return next() & 1; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class V>
  const typename V::value_type &pick(const V &v) {
    return v[below(v.size())];
  }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i)
    h = (h ^ c[i]) * 1099511628211ull;
  return mix(h, n);
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

template <class T>
void put(std::ostream &o, const T &t) {
  o << t;
}
inline void cat_(std::ostream &) {}
template <class A, class... R>
void cat_(std::ostream &o, const A &a, const R &... r) {
  put(o, a);
  cat_(o, r...);
}
template <class... A>
std::string cat(const A &... a) {
  std::stringstream ss;
  ss.precision(17);
  cat_(ss, a...);
  return ss.str();
}
std::string hex(const void *p, size_t n);
std::string quote(const std::string &s); // printable form

struct Ctx {
  Rng rng;
  std::string group;
  uint64_t idx = 0;
  bool verbose = false;
  bool thorough = false;
  std::string current; // description of the running case: what a crash is reported against

  // Records an oracle verdict. `key` names the class of failure (it is what known findings are matched on);
  // `detail` is the witness.
  void violation(const std::string &key, const std::string &detail);
  bool check(bool ok, const std::string &key, const std::function<std::string()> &detail);
  void saw(const char *tag, uint64_t h);
  void sample(const std::string &s);
  // describe the running case (kept in shared memory, so that it survives a crash)
  void describe(const std::string &s);
};

typedef std::function<void(Ctx &)> case_fn;

struct Group {
  std::string name;
  uint64_t quick, thorough; // number of cases per tier
  case_fn fn;
  bool serial = false; // run in one worker only, one fresh process
};

// register in main() and run.
int run(int argc, char **argv, const char *property, const char *rule, std::vector<Group> groups);

// Bytes currently allocated, by the sanitizer allocator's own accounting.
size_t heap_bytes();

} // namespace vf
